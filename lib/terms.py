"""Expected results of a phrase, and their comparison with what the grammar actions build.

References: "$2" is the value of the second symbol of the phrase, "$2.schema" one of its fields."""
from absint import NULL, UNINIT, Unsupported, pointee


class Term:
    pass


class New(Term):
    """a new object of a class; fields not mentioned have their defaults"""

    def __init__(self, cls, **f):
        self.cls, self.f = "hsql::" + cls, f


class Mod(Term):
    """the referenced object, with these fields set and nothing else changed"""

    def __init__(self, ref, **f):
        self.ref, self.f = ref, f


class List(Term):
    def __init__(self, *items):
        self.items = items


class App(Term):
    """the referenced list with elements appended"""

    def __init__(self, ref, *items):
        self.ref, self.items = ref, items


class Pair(Term):
    def __init__(self, a, b):
        self.a, self.b = a, b


class Struct(Term):
    """a class value (not a pointer)"""

    def __init__(self, cls, **f):
        self.cls, self.f = "hsql::" + cls, f


class Enum(Term):
    def __init__(self, name):
        self.name = name


class Any(Term):
    pass


class Reject(Term):
    """the parse fails with an error"""


class If(Term):
    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a, b


class Calc(Term):
    """decided by a function of (matcher, state)"""

    def __init__(self, fn):
        self.fn = fn


class Eq:
    """string token compares equal to a word"""

    def __init__(self, ref, word, ci=True):
        self.ref, self.word, self.ci = ref, word, ci


class Null:
    def __init__(self, ref):
        self.ref = ref


class IsConst:
    def __init__(self, ref, *consts):
        self.ref, self.consts = ref, consts


class Or:
    def __init__(self, *ps):
        self.ps = ps


class And:
    def __init__(self, *ps):
        self.ps = ps


class Not:
    def __init__(self, p):
        self.p = p


class Scan:
    """the string has the form a scanf format describes"""

    def __init__(self, ref, kind):
        self.ref, self.kind = ref, kind


class Fact:
    def __init__(self, fn):
        self.fn = fn


class Mismatch(Exception):
    pass


class Unknown(Exception):
    """the path does not settle a condition the expectation depends on"""


DEFAULTS = {
    "hsql::Expr": dict(type=None, expr=0, expr2=0, exprList=0, select=0, name=0, table=0, schema=0, alias=0, fval=0.0, ival=0, ival2=0,
                       datetimeField="kDatetimeNone", columnType=Struct("ColumnType", data_type=Enum("UNKNOWN")), isBoolLiteral=0,
                       opType="kOpNone", distinct=0, windowDescription=0),
    "hsql::ColumnType": dict(data_type=None, length=0, precision=0, scale=0),
    "hsql::FrameBound": dict(offset=0, type=None, unbounded=0),
    "hsql::FrameDescription": dict(type=None, start=None, end=None),
    "hsql::WindowDescription": dict(partitionList=0, orderList=0, frameDescription=None),
    "hsql::SelectStatement": dict(fromTable=0, selectDistinct=0, selectList=None, whereClause=0, groupBy=0, setOperations=0, order=0,
                                  withDescriptions=0, limit=0, lockings=0, hints=0, type_="kStmtSelect"),
    "hsql::SetOperation": dict(setType=None, isAll=Any(), nestedSelectStatement=0, resultOrder=0, resultLimit=0),
    "hsql::OrderDescription": dict(type=None, expr=None, null_ordering="Undefined"),
    "hsql::LimitDescription": dict(limit=0, offset=0),
    "hsql::GroupByDescription": dict(columns=None, having=0),
    "hsql::WithDescription": dict(alias=None, select=None),
    "hsql::LockingClause": dict(rowLockMode=None, rowLockWaitPolicy=None, tables=0),
    "hsql::TableRef": dict(type=None, schema=0, name=0, alias=0, select=0, list=0, join=0),
    "hsql::JoinDefinition": dict(left=None, right=None, condition=0, namedColumns=0, type=None),
    "hsql::Alias": dict(name=None, columns=0),
    "hsql::CreateStatement": dict(type=None, ifNotExists=0, filePath=0, schema=0, tableName=None, indexName=0, indexColumns=0, columns=0,
                                  tableConstraints=0, viewColumns=0, select=0, hints=0, type_="kStmtCreate"),
    "hsql::ColumnDefinition": dict(column_constraints=None, name=None, type=None, nullable=1, references=None),
    "hsql::ColumnConstraints": dict(constraints=None, references=None),
    "hsql::TableConstraint": dict(type=None, columnNames=None),
    "hsql::ForeignKeyConstraint": dict(type=None, columnNames=None, references=None),
    "hsql::ReferencesSpecification": dict(schema=0, table=None, columns=0),
    "hsql::InsertStatement": dict(type=None, schema=0, tableName=None, columns=0, values=0, select=0, hints=0, type_="kStmtInsert"),
    "hsql::DeleteStatement": dict(schema=0, tableName=None, expr=0, hints=0, type_="kStmtDelete"),
    "hsql::UpdateStatement": dict(table=None, updates=None, where=0, hints=0, type_="kStmtUpdate"),
    "hsql::UpdateClause": dict(column=None, value=None),
    "hsql::DropStatement": dict(type=None, ifExists=0, schema=0, name=0, indexName=0, hints=0, type_="kStmtDrop"),
    "hsql::AlterStatement": dict(schema=0, ifTableExists=0, name=None, action=None, hints=0, type_="kStmtAlter"),
    "hsql::DropColumnAction": dict(columnName=None, ifExists=0, type="DropColumn"),
    "hsql::PrepareStatement": dict(name=None, query=None, hints=0, type_="kStmtPrepare"),
    "hsql::ExecuteStatement": dict(name=None, parameters=0, hints=0, type_="kStmtExecute"),
    "hsql::ImportStatement": dict(type=None, filePath=None, schema=0, tableName=None, whereClause=0, encoding=0, csv_options=0, hints=0,
                                  type_="kStmtImport"),
    "hsql::ExportStatement": dict(type=None, filePath=None, schema=0, tableName=0, select=0, encoding=0, csv_options=0, hints=0,
                                  type_="kStmtExport"),
    "hsql::ImportExportOptions": dict(format="kImportAuto", encoding=0, csv_options=0),
    "hsql::CsvOptions": dict(delimiter=0, null=0, quote=0),
    "hsql::ShowStatement": dict(type=None, schema=0, name=0, hints=0, type_="kStmtShow"),
    "hsql::TransactionStatement": dict(command=None, hints=0, type_="kStmtTransaction"),
}


def fix_default(v):
    return v


class Matcher:
    def __init__(self, acts, vals):
        self.given = {}           # texts assumed for string subjects
        self.a = acts
        self.vals = vals
        self.enum = acts.prog.enumconst

    # ------------------------------------------------------------ references
    def ref(self, st, r):
        """value a reference denotes at the start of the phrase"""
        parts = r.split(".")
        v = self.vals[int(parts[0][1:]) - 1]
        for p in parts[1:]:
            if v == NULL:
                raise Unknown(r)
            if not (isinstance(v, tuple) and v[0] in ("ptr", "obj")):
                raise Unsupported("field of " + str(v))
            o = st.r(v[1])
            if p in o.wr or p not in o.f:
                # the value before it was overwritten: materialised objects remember their label
                if p in o.wr:
                    v = ("was", "%s.%s" % (o.label, p))
                    continue
            v = self.a.getfield(st, v[1], p)
        return v

    def isnull(self, st, v):
        """True / False / None"""
        if v == NULL or v == 0:
            return True
        if isinstance(v, tuple) and v[0] == "ptr":
            n = st.r(v[1]).null
            return {"null": True, "nonnull": False}.get(n)
        if isinstance(v, tuple) and v[0] in ("str", "cs", "tok"):
            return False
        if isinstance(v, tuple) and v[0] == "was":
            lab = v[1]
            for t in st.trace:
                if t[0] in ("null", "nonnull") and t[1] == lab:
                    return t[0] == "null"
            for o in st.heap.values():
                if o.label == lab and o.opq and o.null in ("null", "nonnull"):
                    return o.null == "null"
            parent, _, field = lab.rpartition(".")
            for o in st.heap.values():
                if o.label == parent and o.opq and o.cands:
                    have = {dict(c).get(field, "any") for c in o.cands}
                    if have == {"null"}:
                        return True
                    if have <= {"nn"}:
                        return False
            return None
        return None

    # ------------------------------------------------------------ conditions
    def test(self, st, p):
        if isinstance(p, bool):
            return p
        if isinstance(p, Not):
            v = self.test(st, p.p)
            return None if v is None else not v
        if isinstance(p, (Or, And)):
            vs = [self.test(st, x) for x in p.ps]
            stop = isinstance(p, Or)
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if isinstance(p, Null):
            return self.isnull(st, self.ref(st, p.ref))
        if isinstance(p, IsConst):
            v = self.ref(st, p.ref)
            cs = {self.const(c) for c in p.consts}
            if isinstance(v, int):
                return v in cs
            if isinstance(v, tuple) and v[0] == "was":
                v = ("sym", v[1])
            d = st.dom.get(v)
            if d and d[0] == "in":
                if d[1] <= cs:
                    return True
                if not (d[1] & cs):
                    return False
            if d and d[0] == "out" and cs <= set(d[1]):
                return False
            if d and d[0] != "in" and cs <= set(d[1]):
                return False
            return None
        if isinstance(p, Eq):
            return self.eq(st, p)
        if isinstance(p, (Scan, Fact)):
            return p.fn(self, st) if isinstance(p, Fact) else scan_form(self, st, p)
        raise Unsupported(str(p))

    def eq(self, st, p):
        v = self.ref(st, p.ref)
        if isinstance(v, tuple) and v[0] == "ptr":
            c = self.a.content(st, v) if st.r(v[1]).status != "freed" else ("tok", st.r(v[1]).label)
        else:
            c = v
        return self.eq_content(st, c, p.word, p.ci)

    def eq_content(self, st, c, word, ci=True):
        res = None
        if c in self.given:
            c = ("str", self.given[c])
        if isinstance(c, tuple) and c[0] == "str":
            return c[1].lower() == word.lower() if ci else c[1] == word
        for t in st.trace:
            if t[0] not in ("==", "!=") or not (isinstance(t[1], tuple) and t[1] and t[1][0] == "scmp") or t[2] != 0:
                continue
            _, tok, w, tci = t[1]
            if tok != c:
                continue
            same = (w.lower() == word.lower()) if ci or tci else w == word
            if t[0] == "==":
                if same and (ci or not tci):
                    return True
                if not same:
                    return False
            elif w.lower() == word.lower() and (tci or not ci):
                return False
        return res

    def const(self, c):
        if isinstance(c, Enum):
            c = c.name
        if isinstance(c, str):
            if c not in self.enum:
                raise Unsupported("constant " + c)
            return self.enum[c][1]
        return int(c)

    # ------------------------------------------------------------ comparison
    def match(self, st, exp, v, path="$$"):
        """raises Mismatch"""
        if isinstance(exp, Any):
            if v == UNINIT:
                raise Mismatch("%s has no value" % path)
            return
        if isinstance(exp, If):
            t = self.test(st, exp.p)
            if t is None:
                self.match_both(st, exp, v, path)
                return
            self.match(st, exp.a if t else exp.b, v, path)
            return
        if isinstance(exp, Calc):
            exp.fn(self, st, v, path)
            return
        if isinstance(exp, Reject):
            raise Mismatch("the text is accepted")
        if isinstance(exp, bool):
            exp = int(exp)
        if isinstance(exp, float):
            if v == exp or isinstance(v, tuple) and v[0] == "app" and v[1] == "IntegralToFloating" and v[-1] == int(exp):
                return
            raise Mismatch("%s is %s instead of %s" % (path, self.show(st, v), exp))
        if isinstance(exp, int):
            if exp == 0 and self.isnull(st, v) is True:
                return
            if v == exp or self.a.known(st, v) == exp and v != NULL:
                return
            raise Mismatch("%s is %s instead of %s" % (path, self.show(st, v), "absent or 0" if exp == 0 else exp))
        if isinstance(exp, Enum) or isinstance(exp, str) and not exp.startswith("$"):
            c = self.const(exp)
            if v == c or self.a.known(st, v) == c:
                return
            raise Mismatch("%s is %s instead of %s" % (path, self.show(st, v), exp.name if isinstance(exp, Enum) else exp))
        if isinstance(exp, str):
            self.match_ref(st, exp, v, path)
            return
        if isinstance(exp, (New, Struct)):
            self.match_new(st, exp, v, path)
            return
        if isinstance(exp, Pair):
            o = self.obj(st, v, path)
            self.match(st, exp.a, self.a.getfield(st, v[1], "first"), path + ".first")
            self.match(st, exp.b, self.a.getfield(st, v[1], "second"), path + ".second")
            return
        if isinstance(exp, Mod):
            self.match_mod(st, exp, v, path)
            return
        if isinstance(exp, List):
            o = self.obj(st, v, path)
            if o.kind not in ("vec", "set"):
                raise Mismatch("%s is not a list" % path)
            if o.label is not None and o.opq and o.label.startswith("$"):
                raise Mismatch("%s is the list %s" % (path, o.label))
            if len(o.items) != len(exp.items):
                raise Mismatch("%s has %d elements instead of %d" % (path, len(o.items), len(exp.items)))
            for i, (e, x) in enumerate(zip(exp.items, o.items)):
                self.match(st, e, x, "%s[%d]" % (path, i))
            return
        if isinstance(exp, App):
            r = self.ref(st, exp.ref)
            if not (isinstance(v, tuple) and v[0] == "ptr") or v != r:
                raise Mismatch("%s is %s instead of the list %s" % (path, self.show(st, v), exp.ref))
            o = st.r(v[1])
            n = len(exp.items)
            old = o.items[:len(o.items) - n]
            if o.kind == "set" and n == 1:
                x = o.items
                if o.pre is not None or len(x) <= 1:
                    if len(x) == 1:
                        self.match(st, exp.items[0], x[0], path)
                    return
                return
            if len(o.items) < n:
                raise Mismatch("%s gets no new element" % path)
            if o.pre is not None and old:
                raise Mismatch("%s gets %d new elements instead of %d" % (path, len(o.items), n))
            if o.pre is None and o.opq and o.label and isinstance(o.tag, int) and o.kind == "vec":
                if len(old) != o.tag:
                    raise Mismatch("%s gets %d new elements instead of %d" % (path, len(o.items) - o.tag, n))
                for i, x in enumerate(old):
                    if isinstance(x, tuple) and x[0] in ("ptr", "obj") and st.r(x[1]).label != "%s[%d]" % (o.label, i):
                        raise Mismatch("%s[%d] is changed to %s" % (path, i, self.show(st, x)))
            for i, (e, x) in enumerate(zip(exp.items, o.items[len(o.items) - n:])):
                self.match(st, e, x, "%s[last%s]" % (path, "" if n == 1 else "-%d" % (n - 1 - i)))
            return
        raise Unsupported("expectation " + str(exp))

    def match_both(self, st, exp, v, path):
        errs = []
        for b in (exp.a, exp.b):
            try:
                self.match(st, b, v, path)
            except Mismatch as x:
                errs.append(x)
        if errs:
            e = Mismatch(str(errs[0]) + " (although %s is not settled)" % desc(exp.p))
            e.unsettled = True
            e.refusal = any(isinstance(b, Reject) for b in (exp.a, exp.b)) or any(getattr(x, "refusal", False) for x in errs)
            raise e

    def obj(self, st, v, path):
        if not (isinstance(v, tuple) and v[0] in ("ptr", "obj")):
            raise Mismatch("%s is %s" % (path, self.show(st, v)))
        o = st.r(v[1])
        if v[0] == "ptr" and o.null == "null":
            raise Mismatch("%s is absent" % path)
        return o

    def match_ref(self, st, exp, v, path):
        r = self.ref(st, exp)
        if isinstance(r, tuple) and r[0] == "was":
            # overwritten since; accept the object that carries its label
            if isinstance(v, tuple) and v[0] in ("ptr", "obj") and st.r(v[1]).label == r[1]:
                self.unchanged(st, v[1], path)
                return
            if v == ("sym", r[1]):
                return
            if self.isnull(st, r) is True and self.isnull(st, v) is True:
                return
            raise Mismatch("%s is %s instead of %s" % (path, self.show(st, v), exp))
        if v == r:
            if isinstance(v, tuple) and v[0] in ("ptr", "obj"):
                self.unchanged(st, v[1], path)
            return
        if self.isnull(st, r) is True and self.isnull(st, v) is True:
            return
        if isinstance(v, tuple) and v[0] == "obj" and isinstance(r, tuple) and r[0] == "obj":
            # a copy of a class value
            a, b = st.r(v[1]), st.r(r[1])
            if a.cls == b.cls:
                for f in self.a.prog.all_fields(a.cls):
                    x, y = self.a.getfield(st, v[1], f["name"]), self.a.getfield(st, r[1], f["name"])
                    if x != y and not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "obj"):
                        raise Mismatch("%s.%s is %s instead of %s.%s" % (path, f["name"], self.show(st, x), exp, f["name"]))
                return
        if self.same_elements(st, v, r) or self.same_text(st, v, r):
            return
        k1, k2 = self.a.known(st, v), self.a.known(st, r)
        if k1 is not None and k1 == k2:
            return
        if isinstance(v, tuple) and v[0] == "app" and len(v) >= 4 and v[1] in ("IntegralCast", "cast") and v[-1] == r:
            return
        if isinstance(v, tuple) and v[0] == "app" and isinstance(r, tuple) and r[0] == "sym":
            raise Mismatch("%s is %s instead of %s" % (path, self.show(st, v), exp))
        raise Mismatch("%s is %s instead of %s" % (path, self.show(st, v), exp))

    def same_text(self, st, v, r):
        """a copy of the text r"""
        if not all(isinstance(x, tuple) and x[0] == "ptr" and st.r(x[1]).kind == "cstr" for x in (v, r)):
            return False
        a, b = st.r(v[1]), st.r(r[1])
        if a.opq or a.status == "freed" or a.alloc != "malloc" or not b.label or b.null != "nonnull":
            return False
        return a.f.get("v") == (("str", b.f["orig"]) if "orig" in b.f else ("tok", b.label))

    def same_elements(self, st, v, r):
        """another list that holds exactly the elements of the list r"""
        if not all(isinstance(x, tuple) and x[0] == "ptr" and st.r(x[1]).kind == "vec" for x in (v, r)):
            return False
        a, b = st.r(v[1]), st.r(r[1])
        if a.pre is not None or b.pre is not None or not isinstance(b.tag, int) or not b.label or len(a.items) != b.tag:
            return False
        return all(isinstance(x, tuple) and x[0] == "ptr" and st.r(x[1]).label == "%s[%d]" % (b.label, i) for i, x in enumerate(a.items))

    def unchanged(self, st, oid, path, seen=None):
        """a part of the text is as it was, with all its own parts"""
        seen = set() if seen is None else seen
        if oid in seen:
            return
        seen.add(oid)
        o = st.r(oid)
        if o.kind == "cstr" and o.opq and "v" in o.wr:
            raise Mismatch("the text %s is changed" % path)
        if o.kind == "vec" and o.opq:
            if o.pre is None and "#" in o.wr and isinstance(o.tag, int) and o.label:
                if len(o.items) != o.tag:
                    raise Mismatch("the list %s has %d elements where %d were written" % (path, len(o.items), o.tag))
                for i, x in enumerate(o.items):
                    if isinstance(x, tuple) and x[0] in ("ptr", "obj") and st.r(x[1]).label != "%s[%d]" % (o.label, i):
                        raise Mismatch("element %d of the list %s is replaced by %s" % (i, path, st.r(x[1]).label or self.show(st, x)))
            for i, x in enumerate(o.items):
                if isinstance(x, tuple) and x[0] in ("ptr", "obj") and st.r(x[1]).label == "%s[%d]" % (o.label, i):
                    self.unchanged(st, x[1], "%s[%d]" % (path, i), seen)
        if o.kind == "struct" and o.opq:
            for n, x in list(o.f.items()):
                if isinstance(x, tuple) and x[0] in ("ptr", "obj") and st.r(x[1]).label == "%s.%s" % (o.label, n):
                    self.unchanged(st, x[1], "%s.%s" % (path, n), seen)
            for n in o.wr:
                x = o.f.get(n)
                if isinstance(x, tuple) and x[0] in ("ptr", "obj") and st.r(x[1]).label == "%s.%s" % (o.label, n):
                    continue
                if x == ("sym", "%s.%s" % (o.label, n)):
                    continue
                if x == NULL or isinstance(x, int):
                    # written with the value it is known to have
                    if o.cands is not None and {dict(c).get(n, "any") for c in o.cands} <= {"null" if x == NULL else ("c", x)}:
                        continue
                raise Mismatch("%s.%s is changed to %s" % (path, n, self.show(st, x)))
        if o.kind in ("vec",) and o.opq and o.pre is not None and o.items:
            raise Mismatch("the list %s gets additional elements" % path)

    def match_mod(self, st, exp, v, path):
        r = self.ref(st, exp.ref)
        if v != r or not (isinstance(v, tuple) and v[0] in ("ptr", "obj")):
            raise Mismatch("%s is %s instead of %s" % (path, self.show(st, v), exp.ref))
        o = st.r(v[1])
        for n, e in exp.f.items():
            x = self.a.getfield(st, v[1], n) if not (n in o.wr) else o.f[n]
            self.match(st, e, x, "%s.%s" % (path, n))
        for n in list(st.r(v[1]).wr):
            if n in exp.f:
                continue
            x = o.f.get(n)
            if isinstance(x, tuple) and x[0] in ("ptr", "obj") and st.r(x[1]).label == "%s.%s" % (o.label, n):
                continue
            if x == ("sym", "%s.%s" % (o.label, n)):
                continue
            if (x == NULL or isinstance(x, int)) and o.cands is not None and \
                    {dict(c).get(n, "any") for c in o.cands} <= {"null" if x == NULL else ("c", x)}:
                continue
            raise Mismatch("%s.%s is changed to %s" % (path, n, self.show(st, x)))

    def match_new(self, st, exp, v, path):
        o = self.obj(st, v, path)
        if o.cls != exp.cls:
            raise Mismatch("%s is a %s instead of a %s" % (path, o.cls, exp.cls))
        if o.opq and o.label and o.label.startswith("$"):
            # an object of the text: allowed when the fields agree (e.g. a changed part)
            raise Mismatch("%s is %s instead of a new %s" % (path, o.label, exp.cls))
        d = DEFAULTS[exp.cls]
        have = {f["name"] for f in self.a.prog.all_fields(o.cls)}
        for n in d:
            if n not in have:
                if n in exp.f:
                    raise Unsupported("field %s of %s" % (n, o.cls))
                continue
            e = exp.f.get(n, d[n])
            if e is None:
                raise Unsupported("no expectation for %s.%s" % (exp.cls, n))
            x = self.a.getfield(st, v[1], n)
            if x == UNINIT:
                if isinstance(e, Any):
                    continue
                raise Mismatch("%s.%s has no value" % (path, n))
            self.match(st, e, x, "%s.%s" % (path, n))

    def show(self, st, v, d=0):
        if isinstance(v, tuple):
            if v[0] in ("ptr", "obj"):
                o = st.r(v[1])
                if o.null == "null":
                    return "absent"
                if o.status == "freed":
                    return "released memory"
                if o.label:
                    return o.label
                if o.kind == "vec":
                    return "[" + ", ".join(self.show(st, x, d + 1) for x in o.items) + "]"
                if o.kind == "struct" and d < 2:
                    return "new %s" % o.cls
                return "a new " + (o.cls or o.kind)
            if v == NULL:
                return "absent"
            if v == UNINIT:
                return "indeterminate"
            if v[0] in ("sym", "tok"):
                return str(v[1])
            if v[0] == "str":
                return '"%s"' % v[1]
            return str(v)[:120]
        return str(v)


def desc(p):
    if isinstance(p, Eq):
        return '%s = "%s"' % (p.ref, p.word)
    if isinstance(p, Null):
        return "whether %s is absent" % p.ref
    if isinstance(p, IsConst):
        return "%s in %s" % (p.ref, [getattr(c, "name", c) for c in p.consts])
    if isinstance(p, Not):
        return "not " + desc(p.p)
    if isinstance(p, (Or, And)):
        return (" or " if isinstance(p, Or) else " and ").join(desc(x) for x in p.ps)
    if isinstance(p, Scan):
        return "the form of %s" % p.ref
    return "a condition"


# ------------------------------------------------------------------------------------------------ scanf forms
import re

CONV = re.compile(r"%(\*?)(\d*)(hh|h|ll|l|j|z|t|L)?([diouxXeEfgGscpn%]|\[[^\]]*\])")


def parse_format(fmt):
    """list of ('lit', char) / ('ws',) / (conv, width, modifier)"""
    out, i = [], 0
    while i < len(fmt):
        m = CONV.match(fmt, i)
        if m:
            out.append((m.group(4), m.group(2), m.group(3) or ""))
            i = m.end()
        elif fmt[i].isspace():
            if not out or out[-1] != ("ws",):
                out.append(("ws",))
            i += 1
        else:
            out.append(("lit", fmt[i]))
            i += 1
    return out


SHAPES = {
    # YYYY-MM-DD: three numbers of at most 4, 2 and 2 characters
    "date": [("d", "4"), ("lit", "-"), ("d", "2"), ("lit", "-"), ("d", "2"), ("n", "")],
    # N
    "count": [("d", "*"), ("n", "")],
    # N UNIT
    "count unit": [("d", "*"), ("ws",), ("s", "7"), ("n", "")],
}


def scan_form(m, st, p):
    """truth of Scan(ref, kind) on a path: the whole string matched the format"""
    v = m.ref(st, p.ref)
    tok = ("tok", st.r(v[1]).label) if isinstance(v, tuple) and v[0] == "ptr" else v
    count = end = None
    fmt = None
    for t in st.trace:
        if t[0] in ("==", "!=") and isinstance(t[1], tuple) and t[1][0] == "app":
            a = t[1]
            if a[1] == "sscanf" and a[2] == tok:
                fmt = a[3]
                if t[0] == "==":
                    count = t[2]
            if a[1] == "char" and a[2] == tok and isinstance(a[3], tuple) and a[3][:2] == ("app", "scann") and t[2] == 0:
                end = t[0] == "=="
                fmt = fmt or a[3][3]
    if fmt is None:
        return None
    f = parse_format(fmt)
    want = SHAPES[p.kind]
    n = sum(1 for c in want if c[0] in ("d", "s"))
    convs = [c for c in f if c[0] not in ("lit", "ws", "n")]
    if [c[0] for c in convs] != [c[0] for c in want if c[0] in ("d", "s")]:
        return None
    if not shape_ok(f, want):
        st.flags["badshape"] = "the format \"%s\" does not describe %s" % (fmt, p.kind)
        return None
    if count is not None and count != n:
        return False
    if end is False:
        return False
    if count == n and end is True:
        return True
    return None


def shape_ok(f, want):
    if len(f) != len(want):
        return False
    for x, w in zip(f, want):
        if x[0] != w[0]:
            return False
        if x[0] == "lit" and x[1] != w[1]:
            return False
        if x[0] in ("d", "s") and w[1] != "*" and x[1] != w[1]:
            return False
        if x[0] == "d" and w[1] == "*":
            if x[1] and int(x[1]) > 18 or not x[1]:
                return False
            if x[2] not in ("ll", "l", "j"):
                return False
    return True

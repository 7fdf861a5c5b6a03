"""C17: what the print functions show, compared with an independent description of the content of each kind of node."""
import itertools
import re

from absint import Infeasible, NULL, Obj, State, Unsupported, callgraph, lengths, pointee, strip
import printing
from printing import Printers, RECURSIVE, integral

# ------------------------------------------------------------------------------------------------ expected output


class Item:
    """one printed line (or one nested print) with the lines that belong under it"""

    def __init__(self, what, under=(), loose=False):
        self.what = what
        self.under = list(under)
        self.loose = loose

    def __str__(self):
        k = self.what[0]
        if k == "label":
            return "'%s'" % self.what[1][0]
        if k == "val":
            return "the value of %s" % self.what[2]
        if k == "sub":
            return "the print of %s" % self.what[2]
        if k == "op":
            return "'%s'" % sorted(self.what[1])[0]
        if k == "line":
            return "'%s'" % " ".join(str(x) if not isinstance(x, tuple) else x[1] for x in self.what[1])
        return str(self.what)


def L(*words, under=()):
    return Item(("label", words), under)


class Split(Exception):
    def __init__(self, alts):
        Exception.__init__(self, "split")
        self.alts = alts


# independent tables: what the constants are called in SQL
OPS = {"kOpNone": {"None"}, "kOpBetween": {"BETWEEN"}, "kOpCase": {"CASE"}, "kOpCaseListElement": {"CASE LIST ELEMENT", "WHEN"},
       "kOpPlus": {"+"}, "kOpMinus": {"-"}, "kOpAsterisk": {"*"}, "kOpSlash": {"/"}, "kOpPercentage": {"%"}, "kOpCaret": {"^"},
       "kOpEquals": {"="}, "kOpNotEquals": {"!=", "<>"}, "kOpLess": {"<"}, "kOpLessEq": {"<="}, "kOpGreater": {">"}, "kOpGreaterEq": {">="},
       "kOpLike": {"LIKE"}, "kOpNotLike": {"NOT LIKE"}, "kOpILike": {"ILIKE"}, "kOpAnd": {"AND"}, "kOpOr": {"OR"}, "kOpIn": {"IN"},
       "kOpConcat": {"CONCAT", "||"}, "kOpNot": {"NOT"}, "kOpUnaryMinus": {"-"}, "kOpIsNull": {"IS NULL"}, "kOpExists": {"EXISTS"}}
DATETIME = {"kDatetimeNone": "NONE", "kDatetimeSecond": "SECOND", "kDatetimeMinute": "MINUTE", "kDatetimeHour": "HOUR",
            "kDatetimeDay": "DAY", "kDatetimeMonth": "MONTH", "kDatetimeYear": "YEAR"}
CONSTRAINTS = {"Null": "NULL", "NotNull": "NOT NULL", "ForeignKey": "FOREIGN KEY", "PrimaryKey": "PRIMARY KEY", "Unique": "UNIQUE"}
MODES = {"ForUpdate": ["FOR UPDATE"], "ForNoKeyUpdate": ["FOR NO KEY UPDATE"], "ForShare": ["FOR SHARE"], "ForKeyShare": ["FOR KEY SHARE"]}
POLICIES = {"NoWait": ["NOWAIT"], "SkipLocked": ["SKIP LOCKED"]}
FORMATS = {"kImportCSV": ["CSV"], "kImportTbl": ["TBL"], "kImportBinary": ["BINARY"], "kImportAuto": ["AUTO"]}
SETS = {"kSetUnion": ["Union"], "kSetIntersect": ["Intersect"], "kSetExcept": ["Except"]}
COMMANDS = {"kBeginTransaction": ["BEGIN"], "kCommitTransaction": ["COMMIT"], "kRollbackTransaction": ["ROLLBACK"]}
FRAMES = {"kRows": "ROWS", "kRange": "RANGE", "kGroups": "GROUPS"}
BOUNDS = {"kPreceding": "PRECEDING", "kFollowing": "FOLLOWING"}
SIZED = ("CHAR", "VARCHAR")


class Query:
    """facts about the node that was printed"""

    def __init__(self, it, st):
        self.it, self.st = it, st

    def get(self, i, f):
        return self.it.getfield(self.st, i, f)

    def absent(self, i, f):
        v = self.get(i, f)
        if v == NULL:
            return True
        if v[0] == "ptr":
            n = self.st.r(v[1]).null
            if n != "maybe":
                return n == "null"
            raise Split([lambda q, v=v: q.it.set_null(q.st, v[1], True), lambda q, v=v: q.it.set_null(q.st, v[1], False)])
        return False

    def obj(self, i, f):
        v = self.get(i, f)
        if isinstance(v, tuple) and v[0] in ("ptr", "obj"):
            return v[1]
        raise Unsupported("%s is no node" % f)

    def enum(self, i, f):
        """name of the constant a field holds"""
        v = self.get(i, f)
        t = self.it.fieldtype(self.st.r(i).cls, f)
        consts = {x: n for n, x in self.it.prog.enums.get(strip(t), {}).items()} or {0: False, 1: True}
        k = self.it.known(self.st, v)
        if k is not None:
            return consts.get(k, k)
        d = self.it.dom_of(self.st, v)
        vals = sorted(d[1]) if d and d[0] == "in" else sorted(consts)
        if d and d[0] != "in":
            vals = [x for x in vals if x not in d[1]]
        raise Split([lambda q, x=x: q.it.assume_eq(q.st, v, x, True) for x in vals])

    def elems(self, i, f):
        o = self.obj(i, f)
        if self.st.r(o).pre is not None:
            states = list(self.it.expand(self.st, o))
            if len(states) != 1:
                raise Split([lambda q, s=s: setattr(q, "st", s) for s in states])
            self.st = states[0]
        return [v[1] if isinstance(v, tuple) and v[0] in ("ptr", "obj") else v for v in self.st.r(o).items]

    def label(self, i):
        return self.st.r(i).label

    # items
    def val(self, i, f, under=()):
        v = self.get(i, f)
        t = self.it.content(self.st, v) if isinstance(v, tuple) and v[0] in ("ptr", "str", "cs", "cptr") else self.it.term(self.st, v)
        return Item(("val", t, "%s.%s" % (self.label(i), f)), under)

    def text(self, v, under=()):
        x = ("ptr", v) if isinstance(v, int) else v
        return Item(("val", self.it.content(self.st, x), self.st.r(x[1]).label if x[0] == "ptr" else str(x)), under)

    def sub(self, i, under=()):
        return Item(("sub", self.st.r(i).cls, self.label(i)), under)

    def pick(self, i, f, table):
        n = self.enum(i, f)
        if n not in table:
            return None
        w = table[n]
        return L(*w) if isinstance(w, list) else L(w)


def expr(q, i):
    t = q.enum(i, "type")
    alias = [] if q.absent(i, "alias") else [L("Alias", under=[q.val(i, "alias")])]
    main = None
    if t == "kExprStar":
        main = Item(("op", {"*"}))
    elif t == "kExprColumnRef":
        main = q.val(i, "name")
        if not q.absent(i, "table"):
            main.under.append(L("Table", under=[q.val(i, "table")]))
    elif t == "kExprLiteralFloat":
        main = q.val(i, "fval")
    elif t in ("kExprLiteralInt", "kExprParameter"):
        main = q.val(i, "ival")
    elif t in ("kExprLiteralString", "kExprLiteralDate"):
        main = q.val(i, "name")
    elif t == "kExprLiteralNull":
        main = L("NULL")
    elif t == "kExprLiteralInterval":
        main = L("INTERVAL", under=[q.val(i, "ival"), q.pick(i, "datetimeField", DATETIME)])
    elif t == "kExprFunctionRef":
        main = q.val(i, "name", [q.sub(e) for e in q.elems(i, "exprList")])
        if not q.absent(i, "windowDescription"):
            main.under += window(q, q.obj(i, "windowDescription"))
    elif t == "kExprExtract":
        main = L("EXTRACT", under=[q.pick(i, "datetimeField", DATETIME), q.sub(q.obj(i, "expr"))])
    elif t == "kExprCast":
        main = L("CAST", under=[coltype(q, q.obj(i, "columnType")), q.sub(q.obj(i, "expr"))])
    elif t == "kExprOperator":
        main = Item(("op", OPS.get(q.enum(i, "opType"), None)))
        if not q.absent(i, "expr"):
            main.under.append(q.sub(q.obj(i, "expr")))
        if not q.absent(i, "exprList"):
            main.under += [q.sub(e) for e in q.elems(i, "exprList")]
        if not q.absent(i, "expr2"):
            main.under.append(q.sub(q.obj(i, "expr2")))
        if not q.absent(i, "select"):
            main.under.append(q.sub(q.obj(i, "select")))
    elif t == "kExprSelect":
        main = q.sub(q.obj(i, "select"))
    elif t == "kExprArray":
        return [q.sub(e) for e in q.elems(i, "exprList")] + [loose(a) for a in alias]
    elif t == "kExprArrayIndex":
        return [q.sub(q.obj(i, "expr")), q.val(i, "ival", alias)]
    else:
        return None
    main.under += alias
    return [main]


def loose(x):
    x.loose = True
    return x


def coltype(q, i):
    n = q.enum(i, "data_type")
    return Item(("type", n, q.it.term(q.st, q.get(i, "length")), q.label(i)))


def order(q, elems):
    out = []
    for o in elems:
        out.append(q.sub(q.obj(o, "expr")))
        out.append({"kOrderAsc": L("ascending", "ASC"), "kOrderDesc": L("descending", "DESC")}.get(q.enum(o, "type")))
    return out


def bound(q, i):
    n = q.enum(i, "type")
    if n == "kCurrentRow":
        return ["CURRENT ROW"]
    w = [BOUNDS[n]]
    if q.enum(i, "unbounded"):
        return ["UNBOUNDED"] + w
    return [("val", "offset", q.it.term(q.st, q.get(i, "offset")))] + w


def window(q, i):
    u = []
    if not q.absent(i, "partitionList"):
        u.append(L("PARTITION BY", under=[q.sub(e) for e in q.elems(i, "partitionList")]))
    if not q.absent(i, "orderList"):
        u.append(L("ORDER BY", under=order(q, q.elems(i, "orderList"))))
    f = q.obj(i, "frameDescription")
    u.append(Item(("line", [FRAMES[q.enum(f, "type")], "BETWEEN"] + bound(q, q.obj(f, "start")) + ["AND"] + bound(q, q.obj(f, "end")))))
    return [L("OVER", under=u)]


def select(q, i):
    u = [L("Fields", under=[q.sub(e) for e in q.elems(i, "selectList")])]
    if not q.absent(i, "fromTable"):
        u.append(L("Sources", "From", under=[q.sub(q.obj(i, "fromTable"))]))
    if not q.absent(i, "whereClause"):
        u.append(L("Search Conditions", "Where", under=[q.sub(q.obj(i, "whereClause"))]))
    if not q.absent(i, "groupBy"):
        g = q.obj(i, "groupBy")
        u.append(L("GroupBy", under=[q.sub(e) for e in q.elems(g, "columns")]))
        if not q.absent(g, "having"):
            u.append(L("Having", under=[q.sub(q.obj(g, "having"))]))
    if not q.absent(i, "lockings"):
        w = []
        for k in q.elems(i, "lockings"):
            w.append(L("Type", under=[q.pick(k, "rowLockMode", MODES)]))
            if not q.absent(k, "tables"):
                w.append(L("Target tables", under=[q.text(x) for x in q.elems(k, "tables")]))
            p = q.enum(k, "rowLockWaitPolicy")
            if p != "None":
                w.append(L("Waiting policy", under=[q.pick(k, "rowLockWaitPolicy", POLICIES)]))
        u.append(L("Lock Info", under=w))
    if not q.absent(i, "setOperations"):
        for s in q.elems(i, "setOperations"):
            x = q.pick(s, "setType", SETS)
            x.under.append(q.sub(q.obj(s, "nestedSelectStatement")))
            u.append(x)
            if not q.absent(s, "resultOrder"):
                u.append(L("SetResultOrderBy", under=order(q, q.elems(s, "resultOrder"))))
            if not q.absent(s, "resultLimit"):
                u += limit(q, q.obj(s, "resultLimit"), "SetResult")
    if not q.absent(i, "order"):
        u.append(L("OrderBy", under=order(q, q.elems(i, "order"))))
    if not q.absent(i, "limit"):
        u += limit(q, q.obj(i, "limit"), "")
    return [L("SelectStatement", under=u)]


def limit(q, i, prefix):
    u = []
    if not q.absent(i, "limit"):
        u.append(L(prefix + "Limit", under=[q.sub(q.obj(i, "limit"))]))
    if not q.absent(i, "offset"):
        u.append(L(prefix + "Offset", under=[q.sub(q.obj(i, "offset"))]))
    return u


def table(q, i):
    t = q.enum(i, "type")
    if t == "kTableName":
        out = [q.val(i, "name")]
        if not q.absent(i, "schema"):
            out[0].under.append(L("Schema", under=[q.val(i, "schema")]))
    elif t == "kTableSelect":
        out = [q.sub(q.obj(i, "select"))]
    elif t == "kTableJoin":
        j = q.obj(i, "join")
        w = []
        if not q.absent(j, "condition"):
            w.append(q.sub(q.obj(j, "condition")))
        if not q.absent(j, "namedColumns"):
            w += [q.text(x) for x in q.elems(j, "namedColumns")]
        out = [L("Join Table", "Join", under=[L("Left", under=[q.sub(q.obj(j, "left"))]), L("Right", under=[q.sub(q.obj(j, "right"))]),
                                              L("Join Condition", under=w)])]
    elif t == "kTableCrossProduct":
        out = [q.sub(e) for e in q.elems(i, "list")]
    else:
        return None
    if not q.absent(i, "alias"):
        a = q.obj(i, "alias")
        names = [] if q.absent(a, "columns") else [q.text(x) for x in q.elems(a, "columns")]
        out[-1].under.append(L("Alias", under=[q.val(a, "name", names)]))
    return out


def imports(q, i):
    u = [q.val(i, "filePath"), q.pick(i, "type", FORMATS), q.val(i, "tableName")]
    if not q.absent(i, "whereClause"):
        u.append(L("WHERE", under=[q.sub(q.obj(i, "whereClause"))]))
    return [L("ImportStatement", under=u)]


def exports(q, i):
    u = [q.val(i, "filePath"), q.pick(i, "type", FORMATS)]
    u.append(q.val(i, "tableName") if not q.absent(i, "tableName") else q.sub(q.obj(i, "select")))
    return [L("ExportStatement", under=u)]


def create(q, i):
    u = [q.val(i, "tableName")] if not q.absent(i, "tableName") else []
    if not u:
        return None
    if not q.absent(i, "filePath"):
        u.append(q.val(i, "filePath"))
    return [L("CreateStatement", under=u)]


def insert(q, i):
    u = [q.val(i, "tableName")]
    if not q.absent(i, "columns"):
        u.append(L("Columns", under=[q.text(x) for x in q.elems(i, "columns")]))
    if q.enum(i, "type") == "kInsertValues":
        u.append(L("Values", under=[q.sub(e) for e in q.elems(i, "values")]))
    else:
        u.append(q.sub(q.obj(i, "select")))
    return [L("InsertStatement", under=u)]


def transaction(q, i):
    return [L("TransactionStatement", under=[q.pick(i, "command", COMMANDS)])]


def statement(q, i):
    k = {"kStmtSelect": lambda q, i: [q.sub(i)], "kStmtInsert": insert, "kStmtCreate": create, "kStmtImport": imports, "kStmtExport": exports,
         "kStmtTransaction": transaction}.get(q.enum(i, "type_"))
    return k(q, i) if k else None


def orders(q, i):
    return order(q, [v[1] for v in q.st.r(i).items])


SPEC = {"hsql::Expr": expr, "hsql::SelectStatement": select, "hsql::TableRef": table, "hsql::ImportStatement": imports, "hsql::ExportStatement": exports,
        "hsql::CreateStatement": create, "hsql::InsertStatement": insert, "hsql::TransactionStatement": transaction, "hsql::SQLStatement": statement,
        "hsql::WindowDescription": window}
FOCUS = {"hsql::Expr": ("type", "opType"), "hsql::TableRef": ("type",), "hsql::SQLStatement": ("type_",), "hsql::InsertStatement": ("type",)}
STOP = ("hsql::Expr", "hsql::TableRef", "hsql::SelectStatement")


# ------------------------------------------------------------------------------------------------ actual output
class Odd(Exception):
    pass


def offset(x, base):
    """depth a term denotes, relative to the indentation the function was given"""
    if isinstance(base, int) and isinstance(x, int):
        return x - base
    if isinstance(x, int):
        return x
    if x == ("sym", base):
        return 0
    if x[0] == "lin" and x[1] == ("sym", base):
        return x[2]
    raise Odd("indentation %s" % (x,))


def lines(st, base):
    """printed lines as [depth, parts]; a nested print is a line ('sub', class, node)"""
    res = written(st, base)
    if isinstance(base, int):
        res = [[d - base if not (p and p[0][0] == "sub") else d, p, x] for d, p, x in res]
    return res


def written(st, base):
    out = []
    cur = None                       # [depth, parts, still in indentation]

    def atom(kind, v):
        nonlocal cur
        if cur is None:
            cur = [0, [], True]
        if kind == "rep":
            if v[2] == 9 and cur[2]:
                cur[0] += v[1] if isinstance(base, int) and isinstance(v[1], int) else offset(v[1], base)
                return
            kind = "val"
        if kind == "str":
            if cur[2]:
                n = len(v) - len(v.lstrip("\t"))
                cur[0] += n
                v = v[n:]
            if v:
                cur[2] = False
                cur[1].append(("str", v))
            return
        cur[2] = False
        cur[1].append(("val", v))

    def put(x):
        nonlocal cur
        if x[0] == "cat":
            for y in x[1]:
                put(y)
            return
        if x[0] == "str":
            ps = x[1].split("\n")
            for n, p in enumerate(ps):
                if n:
                    if cur is not None:
                        out.append(cur)
                    else:
                        out.append([0, [], True])
                    cur = None
                if p:
                    atom("str", p)
            return
        if x[0] == "rep":
            atom("rep", x)
            return
        if x[0] == "val" and isinstance(x[1], tuple) and x[1] and x[1][0] in ("str", "cat", "rep"):
            put(x[1])
            return
        atom("val", x[1] if x[0] == "val" else x)
    for ev in st.out:
        if ev[0] == "w":
            if ev[1] == "std::cout":
                put(ev[2])
            else:
                out.append([0, [("err", ev[1])], False])
        elif ev[0] == "sub":
            if cur is not None:
                raise Odd("a nested print starts within a line")
            ints = [x for x in ev[3] if not isinstance(x, tuple) or x[0] in ("sym", "lin")]
            if len(ints) != 1:
                raise Odd("nested print without an indentation")
            out.append([offset(ints[0], base), [("sub", ev[1], ev[2])], False])
        else:
            raise Odd("event %s" % (ev[0],))
    if cur is not None:
        raise Odd("last line without an end")
    return [x for x in out if not (len(x[1]) == 1 and x[1][0][0] == "err")]


def norm(s):
    return re.sub(r"[^A-Z0-9]", "", s.upper())


def shown(parts):
    r = []
    for p in parts:
        r.append(p[1] if p[0] == "str" else "the print of %s" % p[2] if p[0] == "sub" else "value of %s" % fmt(p[1]))
    return "'%s'" % "".join(r).strip()


def fmt(t):
    if isinstance(t, tuple) and len(t) > 1 and t[0] in ("tok", "sym"):
        return str(t[1])
    return str(t)


def same(parts, it):
    """is a printed line the expected one"""
    k = it.what[0]
    if k == "sub":
        return len(parts) == 1 and parts[0][0] == "sub" and parts[0][1:] == it.what[1:3]
    if any(p[0] == "sub" for p in parts):
        return False
    vals = [p[1] for p in parts if p[0] == "val"]
    text = "".join(p[1] for p in parts if p[0] == "str")
    if k == "label":
        return not vals and norm(text) in [norm(w) for w in it.what[1]]
    if k == "op":
        if it.what[1] is None:
            return True
        return not vals and text.strip() in it.what[1]
    if k == "val":
        if isinstance(it.what[1], int) and not vals:
            return text.strip() == str(it.what[1])
        return vals == [it.what[1]] and not norm(text)
    if k == "type":
        if norm(text) != it.what[1]:
            return False
        return vals[:1] == [it.what[2]] if it.what[1] in SIZED else True
    if k == "line":
        want, got = [], []
        for w in it.what[1]:
            if isinstance(w, tuple):
                want.append(w[2])
            elif want and isinstance(want[-1], str):
                want[-1] += norm(w)
            else:
                want.append(norm(w))
        for p in parts:
            if p[0] == "str":
                n = norm(p[1])
                if n:
                    if got and isinstance(got[-1], str):
                        got[-1] += n
                    else:
                        got.append(n)
            else:
                got.append(p[1])
        return want == got
    return False


class Differs(Exception):
    pass


def compare(ls, items, floor=-1, at=0):
    """match lines against items; returns the next line"""
    prev = None
    for x in items:
        if at >= len(ls):
            raise Differs("%s is not printed" % x)
        d, parts = ls[at]
        if not same(parts, x):
            raise Differs("%s is printed where %s is expected" % (shown(parts), x))
        if d <= floor:
            raise Differs("%s is printed at the depth of the line it belongs to, or above" % x)
        if prev is not None and d > prev and not x.loose:
            raise Differs("%s is printed deeper than the line before, which it does not belong to" % x)
        prev = d
        at = compare(ls, x.under, d, at + 1)
    return at


# ------------------------------------------------------------------------------------------------ cases
def optional(it, st, oid, key, out, depth=0):
    """keys of the parts of a node that can be absent, with those of parts within parts"""
    cls = st.r(oid).cls
    if depth > 4 or cls not in it.prog.records:
        return
    names = []
    for c in [cls] + ([] if cls not in it.prog.subclasses else sorted(it.prog.subclasses[cls])):
        for f in it.prog.all_fields(c):
            if f["name"] not in names:
                names.append(f["name"])
    cands = st.r(oid).cands
    if cands is not None:
        names = [n for n in names if any(n in dict(x) for x in cands)]
    for n in names:
        k = key + "." + n
        s = st.copy()
        try:
            v = it.getfield(s, oid, n)
        except (Infeasible, Unsupported):
            continue
        if not (isinstance(v, tuple) and v[0] == "ptr"):
            continue
        o = s.r(v[1])
        s2 = s.copy()
        try:
            it.set_null(s2, v[1], True)
            opt = o.null == "maybe"
        except Infeasible:
            opt = False
        try:
            if o.null == "maybe":
                it.set_null(s, v[1], False)
            elif o.null == "null":
                continue
        except Infeasible:
            continue
        if opt:
            out.append(k)
        nested(it, s, v[1], k, out, depth)


def enumerations(it, st, oid, key, keys, out, depth=0):
    """keys of the enumeration fields of a node and its parts: key -> possible values"""
    cls = st.r(oid).cls
    if depth > 4 or cls not in it.prog.records:
        return
    for f in it.prog.all_fields(cls):
        t = strip(f["t"])
        k = key + "." + f["name"]
        if t in it.prog.enums or t == "bool":
            try:
                v = it.getfield(st, oid, f["name"])
            except (Infeasible, Unsupported):
                continue
            if isinstance(v, tuple) and v[0] == "sym":
                d = it.dom_of(st, v)
                vals = sorted(d[1]) if d and d[0] == "in" else sorted(it.prog.enums.get(t, {"f": 0, "t": 1}).values())
                if 1 < len(vals) < 40:
                    out[k] = vals
            continue
        if it.class_kind(t) == "struct" and t in it.prog.records:
            try:
                v = it.getfield(st, oid, f["name"])
            except (Infeasible, Unsupported):
                continue
            if isinstance(v, tuple) and v[0] == "obj":
                enumerations(it, st, v[1], k, keys, out, depth + 1)
            continue
        if pointee(f["t"]) is None:
            continue
        try:
            v = it.getfield(st, oid, f["name"])
            if not (isinstance(v, tuple) and v[0] == "ptr") or st.r(v[1]).null == "null":
                continue
            if st.r(v[1]).null == "maybe":
                it.set_null(st, v[1], False)
        except (Infeasible, Unsupported):
            continue
        o = st.r(v[1])
        if o.kind == "vec" and pointee(o.elem) and strip(pointee(o.elem)) in it.prog.records and strip(pointee(o.elem)) not in STOP:
            it.not_empty(st, v[1])
            for _ in it.expand(st, v[1]):
                pass
            for n, e in enumerate(st.r(v[1]).items):
                enumerations(it, st, e[1], "%s[%d]" % (k, n), keys, out, depth + 1)
        elif o.kind == "struct" and o.cls not in STOP and not it.prog.isa(o.cls, "hsql::SQLStatement"):
            enumerations(it, st, v[1], k, keys, out, depth + 1)


def fix(it, st, oid, key, ekeys, fixed):
    """give the enumeration fields their values: those asked for, else the first possible one"""
    later = {}
    if it.fixlen is not None and it.fixlen > 2:
        # elements beyond the second are treated like the second
        for k, vals in ekeys.items():
            if "[1]" in k:
                for j in range(2, it.fixlen):
                    later[k.replace("[1]", "[%d]" % j, 1)] = vals
    for k, vals in list(ekeys.items()) + list(later.items()):
        cur = oid
        path = [x for x in re.split(r"[.]|(?=\[)", k[len(key) + 1:]) if x]
        try:
            for n in path[:-1]:
                if n.startswith("["):
                    it.not_empty(st, cur)
                    for _ in it.expand(st, cur):
                        pass
                    cur = st.r(cur).items[int(n[1:-1])][1]
                else:
                    v = it.getfield(st, cur, n)
                    if not (isinstance(v, tuple) and v[0] in ("ptr", "obj")) or v[0] == "ptr" and st.r(v[1]).null != "nonnull":
                        cur = None
                        break
                    cur = v[1]
        except (IndexError, TypeError):
            cur = None
        if cur is None:
            if k in fixed:
                raise Infeasible(k)
            continue
        v = it.getfield(st, cur, path[-1])
        if k in fixed:
            it.assume_eq(st, v, fixed[k], True)
            continue
        if it.known(st, v) is not None:
            continue
        for x in vals:
            s = st.copy()
            try:
                it.assume_eq(s, v, x, True)
            except Infeasible:
                continue
            it.assume_eq(st, v, x, True)
            break


def combos(keys, ekeys, thorough):
    """(present parts, enumeration values) to try"""
    def closed(ks):
        r = set()
        for k in ks:
            r |= {p for p in prefixes(k) if p in keys}
        return frozenset(r)
    out = [(ch, {}) for ch in choices(keys, thorough)]
    everything = frozenset(keys)
    for k, vals in ekeys.items():
        for v in vals:
            out.append((closed([k]), {k: v}))
            out.append((everything, {k: v}))
    for a, b in itertools.combinations(ekeys, 2):
        pa, pb = a.rsplit(".", 1)[0], b.rsplit(".", 1)[0]
        if pa == pb or thorough and len(ekeys[a]) * len(ekeys[b]) <= 64 or pa.rsplit(".", 1)[0] == pb.rsplit(".", 1)[0]:
            for v in ekeys[a]:
                for w in ekeys[b]:
                    out.append((closed([a, b]), {a: v, b: w}))
    # a part of an object together with the values of its enumerations
    for k in keys:
        for e in ekeys:
            if k.rsplit(".", 1)[0] == e.rsplit(".", 1)[0] and k.rsplit(".", 1)[0] != "":
                for v in ekeys[e]:
                    out.append((closed([k, e]), {e: v}))
    seen, r = set(), []
    for ch, fx in out:
        h = (ch, tuple(sorted(fx.items())))
        if h not in seen:
            seen.add(h)
            r.append((ch, fx))
    return r


def nested(it, s, oid, k, out, depth):
    o = s.r(oid)
    if o.kind == "vec" and pointee(o.elem) and strip(pointee(o.elem)) in it.prog.records and strip(pointee(o.elem)) not in STOP:
        try:
            for s1 in it.expand(s, oid):
                for n, e in enumerate(s1.r(oid).items):
                    optional(it, s1, e[1], "%s[%d]" % (k, n), out, depth + 1)
        except (Infeasible, Unsupported):
            pass
    elif o.kind == "struct" and o.cls not in STOP and not it.prog.isa(o.cls, "hsql::SQLStatement"):
        optional(it, s, oid, k, out, depth + 1)


def single(keys):
    """every part on its own, for lists of other lengths"""
    out = [(frozenset(), {})]
    for k in keys:
        out.append((frozenset(p for p in prefixes(k) if p in keys), {}))
    return out


def sizes(c, fn, others):
    """lengths of lists to print besides two: one, three, and what the function or its helpers tell apart"""
    memo = c.p.__dict__.setdefault("_printsizes", {})
    if fn["usr"] not in memo:
        ls = {1, 3}
        calls = callgraph(c.p.prog)
        seen, work = {fn["usr"]}, [fn["usr"]]
        while work:
            u = work.pop()
            ls |= lengths(c.p.prog, c.p.prog.functions[u])
            for x in calls.get(u, ()):
                if x not in seen and x not in others:
                    seen.add(x)
                    work.append(x)
        ls = sorted(ls - {2})
        if len(ls) > 8:
            c.undecide(fn["qn"], "%d lengths of lists are told apart" % len(ls))
        memo[fn["usr"]] = [n for n in ls[:8] if n <= 40]
    return memo[fn["usr"]]


def prefixes(k):
    """optional parts that have to be there for a part to exist"""
    p = re.split(r"(?=[.\[])", k)
    return ["".join(p[:n]) for n in range(1, len(p) + 1)]


def settle(it, st, oid, key, present, keys):
    """give every optional part below a node its choice; returns False when the combination is not possible"""
    cls = st.r(oid).cls
    for k in keys:
        if not k.startswith(key + "."):
            continue
        n = k[len(key) + 1:]
        if "." in n or "[" in n:
            continue
        v = it.getfield(st, oid, n)
        if not (isinstance(v, tuple) and v[0] == "ptr") or st.r(v[1]).null == "null":
            if k in present:
                raise Infeasible(k)
            continue
        if st.r(v[1]).null == "maybe":
            it.set_null(st, v[1], k not in present)
    below = {}
    for k in keys:
        if k.startswith(key + "."):
            m = re.match(r"([A-Za-z_0-9]+)(\[\d+\])?\.", k[len(key) + 1:])
            if m:
                below.setdefault(m.group(1), True)
    for n in below:
        v = it.getfield(st, oid, n)
        if not (isinstance(v, tuple) and v[0] == "ptr"):
            continue
        o = st.r(v[1])
        if o.null == "null":
            continue
        if o.null == "maybe":
            it.set_null(st, v[1], False)
        if o.kind == "vec":
            it.not_empty(st, v[1])
            for s1 in it.expand(st, v[1]):
                if s1 is not st:
                    raise Unsupported("list of several lengths")
            for j, e in enumerate(st.r(v[1]).items):
                if isinstance(e, tuple) and e[0] in ("ptr", "obj"):
                    settle(it, st, e[1], "%s.%s[%d]" % (key, n, min(j, 1)), present, keys)
        else:
            settle(it, st, v[1], "%s.%s" % (key, n), present, keys)


def choices(keys, thorough):
    """combinations of optional parts: none, each, each two, all"""
    def closed(ks):
        r = set()
        for k in ks:
            r |= {p for p in prefixes(k) if p in keys}
        return frozenset(r)
    out = [frozenset()]
    for k in keys:
        out.append(closed([k]))
    n = 3 if thorough else 2
    for m in range(2, n + 1):
        if len(keys) ** m > 6000:
            break
        for ks in itertools.combinations(keys, m):
            out.append(closed(ks))
    out.append(frozenset(keys))
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def roots(c):
    """(function, class) pairs: public print functions and those a print recurses through"""
    rec = {}
    out = []
    for fn in printing.api(c):
        it = Printers(c)
        st = State()
        try:
            list(it.invoke(fn, st, [], None, {"l": 0}, values=it.arguments(st, fn)))
        except (Unsupported, Infeasible):
            pass
        rec.update(it.recursive)
        for p in fn["params"]:
            cl = printing.node_class(c.p.prog, p["t"])
            if cl in SPEC:
                out.append((fn, cl))
                break
            if "OrderDescription" in p["t"] and "vector" in p["t"]:
                out.append((fn, "orders"))
                break
    for usr, cl in rec.items():
        fn = c.p.prog.functions[usr]
        if all(fn is not f for f, _ in out):
            out.append((fn, cl))
    return out, rec


def c17(c):
    c.rule("Every print function is evaluated on symbolic nodes of the shapes the grammar actions build, for each value of the enumerations and for every "
           "choice of optional parts (none, each, each pair, all). The printed lines of every path are compared with an independent description of the "
           "node: every part is shown, in tree order, under its own label, deeper than the line it belongs to and not deeper than its neighbour. Prints of "
           "nested nodes are compared as one unit and analysed on their own.")
    rs, rec = roots(c)
    c.need(rs, "print functions")
    for cl in ("hsql::Expr", "hsql::SelectStatement", "hsql::TableRef"):
        if not any(x == cl for _, x in rs):
            c.undecide("print function of %s" % cl, "no print function reaches one for this class")
    others = {f["usr"] for f, _ in rs} | {u for u, f in c.p.prog.functions.items() if f.get("kind") in ("ctor", "dtor")}
    for fn, cl in rs:
        one(c, fn, cl, rec, others)
    streams(c)


def one(c, fn, cl, rec, others):
    ints = [p for p in fn["params"] if not pointee(p["t"]) and not p.get("ref")]
    if len(ints) > 1 or len(fn["params"]) - len(ints) != 1:
        c.undecide(fn["qn"], "parameters")
        return
    base = ints[0]["name"] if ints else "#"
    if ints and Printers(c).number is not None and integral(ints[0]["t"]):
        base = Printers(c).number
    a = c.p.acts
    it0 = Printers(c)
    focus = [None]
    if cl in FOCUS:
        focus = set()
        for k in [cl] + it0.allsubs(cl):
            for sh in a.stored.get(k, ()):
                d = dict(sh)
                focus.add(tuple(d.get(f) for f in FOCUS[cl]))
        focus = sorted(focus, key=str)
    n = 0
    bad = False
    for fo, size in [(fo, k) for fo in focus for k in [2] + sizes(c, fn, others)]:
        def start(size=size):
            it = Printers(c, merge=False)
            it.partial = True
            it.recursive.update(rec)
            it.nullok = c.p.__dict__.setdefault("_nullok", {})
            it.fixlen = size
            st = State()
            vs = it.arguments(st, fn)
            node = [v[1] for v in vs if isinstance(v, tuple) and v[0] == "ptr"][0]
            if fo is not None:
                o = st.w(node)
                o.cands = [x for x in o.cands if tuple(dict(x).get(f) for f in FOCUS[cl]) == fo]
                if cl == "hsql::SQLStatement":
                    o.cls = dict(o.cands[0])["__cls"]
            return it, st, vs, node
        try:
            it, st, vs, node = start(min(size, 2))
            keys, ekeys = [], {}
            if cl == "orders":
                for s in it.expand(st, node):
                    pass
            else:
                optional(it, st, node, it_label(st, node), keys)
                enumerations(it, st.copy(), node, it_label(st, node), keys, ekeys)
        except Infeasible:
            continue
        except Unsupported as x:
            c.undecide("%s %s" % (fn["qn"], fo), str(x))
            continue
        for ch, fixed in combos(keys, ekeys, c.thorough) if size == 2 else single(keys):
            it, st, vs, node = start()
            try:
                if cl == "orders":
                    for s in it.expand(st, node):
                        st = s
                else:
                    settle(it, st, node, it_label(st, node), ch, keys)
                    fix(it, st, node, it_label(st, node), ekeys, fixed)
            except Infeasible:
                continue
            except Unsupported as x:
                c.undecide("%s %s" % (fn["qn"], fo), str(x))
                continue
            try:
                outs = list(it.invoke(fn, st, [], None, {"l": 0}, values=vs))
            except (Unsupported, Infeasible) as x:
                c.undecide("%s %s" % (fn["qn"], fo), str(x))
                continue
            why = it.reasons()
            if why:
                c.undecide("%s %s" % (fn["qn"], fo), why)
            for s, _ in outs:
                r = judge(c, it, s, cl, node, base, fn, ch)
                n += 1
                if r is False:
                    bad = True
            c.functions |= it.functions_seen
    if n == 0:
        c.undecide(fn["qn"], "nothing was printed")
    c.count("printed paths", n)
    if not bad and n:
        c.ok("print functions")
        c.sample({"function": fn["qn"], "printed paths": n})


def it_label(st, node):
    return st.r(node).label


def judge(c, it, s, cl, node, base, fn, ch):
    try:
        ls = [(d, p) for d, p, _ in lines(s, base)]
    except Odd as x:
        c.undecide(fn["qn"], str(x))
        return None
    spec = orders if cl == "orders" else SPEC[cl]
    work = [s.copy()]
    res = True
    steps = 0
    while work:
        st = work.pop()
        steps += 1
        if steps > 400:
            c.undecide(fn["qn"], "too many alternatives")
            return None
        q = Query(it, st)
        try:
            items = spec(q, node)
        except Split as x:
            for f in x.alts:
                q2 = Query(it, q.st.copy())
                try:
                    f(q2)
                    work.append(q2.st)
                except Infeasible:
                    pass
            continue
        except Infeasible:
            continue
        except (Unsupported, KeyError, AttributeError) as x:
            c.undecide(fn["qn"], "%s: %s" % (type(x).__name__, x))
            return None
        if items is None or hole(items):
            c.count("not described")
            continue
        try:
            end = compare(ls, items)
            if end < len(ls):
                raise Differs("%s is printed in addition" % shown(ls[end][1]))
        except Differs as x:
            res = False
            c.violation("%s|%s" % (fn["qn"], x), "src/%s:%s (%s)" % (fn.get("f", "?"), fn.get("l", 0), fn["qn"]), str(x),
                        "printed: " + " / ".join("%d:%s" % (d, shown(p)) for d, p in ls)[:400] + " when " + facts(q, node))
    return res


def hole(items):
    return any(x is None or hole(x.under) for x in items)


def facts(q, node):
    o = q.st.r(node)
    r = []
    for n, v in sorted(o.f.items()):
        if isinstance(v, tuple) and v[0] == "ptr":
            r.append("%s %s" % (n, {"null": "absent", "nonnull": "present"}.get(q.st.r(v[1]).null, "?")))
        else:
            k = q.it.known(q.st, v)
            if k is not None:
                r.append("%s=%s" % (n, k))
    return ", ".join(r)


# ------------------------------------------------------------------------------------------------ stream operators
def streams(c):
    """text of the enumerations of the public headers"""
    for fn in c.p.prog.by_name("hsql::operator<<"):
        if not fn.get("body") or len(fn["params"]) != 2:
            continue
        t = strip(fn["params"][1]["t"].rstrip("& "))
        for name, want in cases(c, t):
            it = Printers(c, merge=False)
            st = State()
            try:
                so = it.fresh(st, "std::basic_ostream<char>", "static", "std::cout", True)
                if t in it.prog.enums:
                    v = it.prog.enums[t][name]
                    if fn["params"][1].get("ref"):
                        fr = Obj("frame", "", "stack", "value")
                        fr.f["v"] = v
                        v = ("loc", ("f", st.new(fr), "v"))
                else:
                    p = it.opaque_ptr(st, t + " *", "value", "nonnull")
                    it.assume_eq(st, it.getfield(st, p[1], "data_type"), it.prog.enums[strip(it.fieldtype(t, "data_type"))][name], True)
                    v = ("loc", ("o", p[1]))
                outs = list(it.invoke(fn, st, [], None, {"l": 0}, values=[("loc", ("o", so)), v]))
            except (Unsupported, Infeasible, KeyError) as x:
                c.undecide("operator<< of %s %s" % (t, name), str(x))
                continue
            for s, _ in outs:
                parts = []
                for ev in s.out:
                    if ev[0] == "w":
                        parts += list(ev[2][1]) if ev[2][0] == "cat" else [ev[2]]
                text = "".join(x[1] for x in parts if x[0] == "str")
                vals = [x[1] for x in parts if x[0] == "val"]
                good = text.strip() in want if isinstance(want, set) else norm(text) == norm(want)
                if good and name in SIZED and strip(t) == "hsql::ColumnType":
                    good = vals[:1] == [("sym", "value.length")]
                if good:
                    c.ok("enumeration texts")
                else:
                    c.violation("operator<<|%s|%s" % (t, name), "src/%s:%s (operator<<)" % (fn.get("f", "?"), fn.get("l", 0)),
                                "%s of %s is printed as '%s'" % (name, t, text))


def cases(c, t):
    if t == "hsql::OperatorType":
        return [(k, v) for k, v in OPS.items() if k in c.p.prog.enums[t]]
    if t == "hsql::DatetimeField":
        return [(k, v) for k, v in DATETIME.items() if k in c.p.prog.enums[t]]
    if t == "hsql::ConstraintType":
        return [(k, v) for k, v in CONSTRAINTS.items() if k in c.p.prog.enums[t]]
    if t == "hsql::ColumnType":
        return [(k, k) for k in c.p.prog.enums.get("hsql::DataType", {})]
    return []

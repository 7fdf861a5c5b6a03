"""C18: the convenience accessors of nodes, statements and column types answer according to the fields."""
import itertools

from absint import Infeasible, Interp, NULL, Obj, State, UNINIT, Unsupported, pointee, strip

LITERALS = {"kExprLiteralInt", "kExprLiteralFloat", "kExprLiteralString", "kExprParameter", "kExprLiteralNull", "kExprLiteralDate", "kExprLiteralInterval"}
# class -> accessor -> what it has to answer
WANT = {
    "hsql::Expr": {"isType": ("equals", "type"), "isLiteral": ("among", "type", LITERALS), "hasAlias": ("present", "alias"), "hasTable": ("present", "table"),
                   "getName": ("first", ["alias"], ["name"])},
    "hsql::TableRef": {"hasSchema": ("present", "schema"), "getName": ("first", ["alias", "name"], ["name"])},
    "hsql::SQLStatement": {"type": ("field", "type_"), "isType": ("equals", "type_"), "is": ("equals", "type_")},
}
VALUES = [0, 1, 2, 3, 10, 255, 256, 65536, 2 ** 31, 2 ** 32, 2 ** 32 + 10, 2 ** 63 - 1, -1]


def accessors(c):
    out = []
    for f in c.p.prog.functions.values():
        if not f.get("body") or not f.get("cls"):
            continue
        for base, table in WANT.items():
            if f["name"] in table and c.p.prog.isa(f["cls"], base):
                w = table[f["name"]]
                if w[0] == "equals" and len(f["params"]) != 1 or w[0] != "equals" and f["params"]:
                    continue
                out.append((f, base, w))
    return out


def interp(c):
    it = Interp(c.p.prog)
    it.stored = None
    it.strict_null = True
    return it


def place(f):
    return "src/%s:%s (%s)" % (f.get("f", "?"), f.get("l", 0), f["qn"])


def c18(c):
    c.rule("Each accessor is evaluated on a node whose fields are arbitrary, for every value of the enumerations involved: on every path the answer has to be "
           "the one the fields determine (present, equal, among the literal kinds, alias before name), no field may have been written and nothing printed. "
           "Equality of column types: a path answering 'equal' must have established the equality of each of the four fields, a path answering 'different' "
           "must exclude that all four are equal; != is its negation.")
    found = accessors(c)
    for base, table in WANT.items():
        for n in table:
            c.need(any(f["name"] == n and b == base for f, b, _ in found), "%s::%s" % (base, n))
    for f, base, w in found:
        method(c, f, w)
    n = 0
    for f in c.p.prog.functions.values():
        if f.get("body") and f["name"] in ("operator==", "operator!=") and [strip(p["t"].rstrip("& ")) for p in f["params"]] == ["hsql::ColumnType"] * 2:
            equality(c, f, f["name"] == "operator==")
            n += 1
        elif f.get("body") and f["name"] in ("operator==", "operator!=") and f.get("cls") == "hsql::ColumnType" and len(f["params"]) == 1:
            equality(c, f, f["name"] == "operator==", True)
            n += 1
    c.need(n >= 1, "comparison of column types")


def start(c, f, dom=None):
    it = interp(c)
    st = State()
    p = it.opaque_ptr(st, f["cls"] + " *", "this", "nonnull")
    return it, st, p[1]


def method(c, f, w):
    prog = c.p.prog
    bad = False
    runs = [(None, None)]
    field = w[1] if isinstance(w[1], str) else None
    consts = {}
    it, st, i = start(c, f)
    if w[0] in ("equals", "among", "field"):
        consts = prog.enums.get(strip(it.fieldtype(f["cls"], field)), {})
        c.need(consts, "enumeration of " + field)
        vals = sorted(set(consts.values()))
        runs = [(v, a) for v in vals for a in (vals if w[0] == "equals" else [None])]
    n = 0
    for v, arg in runs:
        it, st, i = start(c, f)
        try:
            if v is not None:
                it.assume_eq(st, it.getfield(st, i, field), v, True)
            values = []
            if arg is not None:
                values = [arg]
                if f["params"][0].get("ref"):
                    fr = Obj("frame", "", "stack", "arg")
                    fr.f["v"] = arg
                    values = [("loc", ("f", st.new(fr), "v"))]
            outs = list(it.invoke(f, st, [], i, {"l": f.get("l", 0)}, values=values))
        except (Unsupported, Infeasible) as x:
            c.undecide("%s" % f["qn"], str(x))
            continue
        c.functions |= it.functions_seen
        for s in it.faults:
            for k, msg, line in s.issues:
                bad = True
                c.violation("%s|%s" % (f["qn"], k), place(f), msg)
        for s, r in outs:
            n += 1
            m = answer(it, s, i, w, v, arg, r, consts)
            if m is None:
                m = changed(it, s, st, i)
            for k, msg, line in s.issues:
                m = m or msg
            if m:
                bad = True
                c.violation("%s|%s" % (f["qn"], w[0]), place(f), "%s: %s" % (f["qn"], m), "for " + describe(it, s, i, consts, v, arg))
    if n and not bad:
        c.ok("accessors")
        c.count("accessor paths", n)
        c.sample({"accessor": f["qn"], "paths": n})


def describe(it, s, i, consts, v, arg):
    names = {x: n for n, x in consts.items()}
    r = []
    if v is not None:
        r.append("kind %s" % names.get(v, v))
    if arg is not None:
        r.append("argument %s" % names.get(arg, arg))
    for n, x in sorted(s.r(i).f.items()):
        if isinstance(x, tuple) and x[0] == "ptr":
            r.append("%s %s" % (n, {"null": "absent", "nonnull": "present"}.get(s.r(x[1]).null, "present or absent")))
    return ", ".join(r) or "any node"


def forks(it, s, oid, name):
    """states in which it is settled whether a pointer field is null"""
    v = it.getfield(s, oid, name)
    if v == NULL:
        yield s, False, v
        return
    for b in (True, False):
        t = s.copy()
        try:
            if isinstance(v, tuple) and v[0] == "ptr":
                if t.r(v[1]).null == "maybe":
                    it.set_null(t, v[1], not b)
                elif (t.r(v[1]).null == "nonnull") != b:
                    continue
        except Infeasible:
            continue
        yield t, b, v


def answers(it, s, r):
    """possible truth values of a boolean answer"""
    if isinstance(r, (int, bool)):
        return {int(bool(r))}
    return {int(b) for _, b in it.truth(s.copy(), r)}


def answer(it, s, i, w, v, arg, r, consts):
    if w[0] == "field":
        return None if it.known(s, r) == v else "does not answer the kind of the statement"
    if w[0] in ("equals", "among"):
        want = int(v == arg) if w[0] == "equals" else int(v in [consts[n] for n in w[2] if n in consts])
        got = answers(it, s, r)
        return None if got == {want} else "answers %s" % ("false" if got == {0} else "true" if got == {1} else "true or false")
    if w[0] == "present":
        for t, b, _ in forks(it, s, i, w[1]):
            got = answers(it, t, r)
            if got != {int(b)}:
                return "answers %s although %s is %s" % ("true" if 1 in got and not b or got == {1} else "false", w[1], "present" if b else "absent")
        return None
    # first: the first path that is there, else the second
    for t, b, p in forks(it, s, i, w[1][0]):
        want = p
        if b:
            for n in w[1][1:]:
                want = it.getfield(t, want[1], n)
        else:
            want = it.getfield(t, i, w[2][0])
        got = r
        if got != want and not (isinstance(got, tuple) and isinstance(want, tuple) and got[:2] == want[:2] and got[0] == "ptr"):
            if it.term(t, got) != it.term(t, want) or got[:1] != want[:1]:
                return "answers %s where %s is expected" % (it.term(t, got), it.term(t, want))
    return None


def changed(it, s, st0, i):
    for j, o in s.heap.items():
        if o.kind == "frame" or o.alloc == "stack":
            continue
        if o.wr:
            return "writes %s" % ", ".join("%s.%s" % (o.label or o.cls, n) for n in o.wr)
        if o.status != "live":
            return "releases %s" % (o.label or o.cls)
    if s.out:
        return "prints"
    return None


# ------------------------------------------------------------------------------------------------ column types
FIELDS = ("data_type", "length", "precision", "scale")


def call(c, f, member, lv, rv):
    """outcomes with given field values (None: symbolic)"""
    it = interp(c)
    st = State()
    ps = []
    for name, vals in (("lhs", lv), ("rhs", rv)):
        p = it.opaque_ptr(st, "hsql::ColumnType *", name, "nonnull")
        if vals:
            for n, x in zip(FIELDS, vals):
                st.w(p[1]).f[n] = x
        else:
            for n in FIELDS:
                it.getfield(st, p[1], n)
        ps.append(p[1])
    vs = []
    for k, p in enumerate(f["params"]):
        j = ps[k + (1 if member else 0)]
        vs.append(("loc", ("o", j)) if p.get("ref") else ("obj", j))
    outs = list(it.invoke(f, st, [], ps[0] if member else None, {"l": f.get("l", 0)}, values=vs))
    return it, ps, outs


def equality(c, f, eq, member=False):
    name = "ColumnType " + f["name"][8:]
    foreign, suspicious = False, []
    try:
        it, ps, outs = call(c, f, member, None, None)
    except (Unsupported, Infeasible) as x:
        outs = []
        foreign = True
    for s, r in outs:
        m = changed(it, s, s, ps[0])
        if m:
            c.violation("%s|effect" % name, place(f), "%s %s" % (name, m))
            return
        pairs = [(it.getfield(s, ps[0], n), it.getfield(s, ps[1], n)) for n in FIELDS]
        own = {("==",) + tuple(sorted([it.term(s, a), it.term(s, b)], key=str)) for a, b in pairs}
        other = [a for a in s.atoms if a not in own]
        for t, b in it.truth(s.copy(), r):
            same = b == eq
            extra = [a for a in t.atoms if a not in own] or [a for a in t.dom if a[0] != "sym"]
            if extra:
                foreign = True
            if same:
                for n, (x, y) in zip(FIELDS, pairs):
                    if any(not q for _, q in it._compare(t.copy(), "==", x, y)):
                        suspicious.append("two types that differ in %s compare equal" % n)
            else:
                states = [t.copy()]
                for x, y in pairs:
                    nxt = []
                    for u in states:
                        nxt += [v for v, q in it._compare(u, "==", x, y) if q]
                    states = nxt
                if states:
                    suspicious.append("two types with equal fields compare different")
    if not suspicious and not foreign and outs:
        c.ok("comparisons")
        c.count("comparison paths", len(outs))
        return
    if suspicious and not foreign:
        for m in sorted(set(suspicious)):
            c.violation("%s|%s" % (name, m), place(f), m)
        return
    # conditions other than plain equality of fields: propagate constants for a counterexample
    n = 0
    kinds = sorted(c.p.prog.enums["hsql::DataType"].values())
    for lv, rv in grid(kinds):
        try:
            it, ps, outs = call(c, f, member, lv, rv)
        except (Unsupported, Infeasible) as x:
            c.undecide(name, str(x))
            return
        for s, r in outs:
            n += 1
            got = answers(it, s, r)
            want = {int((lv == rv) == eq)}
            if got != want and len(outs) == 1 and len(got) == 1:
                c.violation("%s|wrong" % name, place(f), "%s answers %s for (%s) and (%s)" % (
                    name, bool(next(iter(got))), ", ".join(map(str, lv)), ", ".join(map(str, rv))))
                return
    c.undecide(name, "conditions other than equality of fields; %d combinations of constants agree" % n)


def grid(kinds):
    base = [(k, 0, 0, 0) for k in kinds] + [(kinds[-1], 5, 7, 9), (kinds[0], 2 ** 32 + 1, 1, -1)]
    for b in base:
        yield b, b
    for b in base[-8:]:
        for i in range(4):
            for v in (kinds if i == 0 else VALUES):
                for w in (kinds if i == 0 else VALUES):
                    if v != w:
                        x, y = list(b), list(b)
                        x[i], y[i] = v, w
                        yield tuple(x), tuple(y)
    for b in base[-2:]:
        for i, j in itertools.permutations(range(1, 4), 2):
            x = list(b)
            x[i], x[j] = x[j], x[i]
            yield b, tuple(x)
            y = list(b)
            y[i], y[j] = y[i] + 1, y[j] - 1
            yield b, tuple(y)

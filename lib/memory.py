"""C01, C02, C03: ownership, life cycle and initialisation of everything the grammar actions handle.

Each grammar action is evaluated on all abstract values its operands can have (the fixpoint of actions.Actions). By
induction over the derivation every right-hand side value owns its parts exclusively; the action must keep that: once
the parser's own destructor code (yydestruct) has been applied to its result, everything it was given or created has
been released exactly once. On the paths that raise a syntax error, the action itself must release all of it.
"""
from absint import Infeasible, NULL, Unsupported, pointee

LEAKY = ("new", "new[]", "malloc", "token", "outside")


def place(c, rule, line=None):
    return "src/parser/bison_parser.y%s (%s)" % (":%s" % line if line else "", rule)


def skip_label(l):
    return l is not None and (l.split(".")[0].split("[")[0] in ("result", "yyloc", "yylloc", "error message", "scanner", "errno")
                              or l.startswith(("static ", "*")))


def leaks(st, acts):
    """objects still alive that nothing refers to any more after destruction"""
    out = []
    for i, o in sorted(st.heap.items()):
        if o.alloc not in LEAKY or o.status != "live" or o.null == "null" or o.kind == "frame":
            continue
        if skip_label(o.label):
            continue
        if o.alloc == "outside" and o.parent is not None and not o.orphan:
            # part of an object from outside; released with its owner unless it was moved out of it
            p = o.parent[0]
            po = st.heap.get(p)
            if po is not None and (skip_label(po.label)):
                continue
        out.append(i)
    return out


def rule_runs(c):
    """(rule, outcomes, faults) of every production; undecided productions are recorded"""
    a = c.p.acts
    for r in a.g.rules:
        if r.num == 0:
            continue
        if not r.useful:
            continue
        if r.num in a.undecided:
            c.undecide(str(r), a.undecided[r.num])
        res = a.results.get(r.num)
        if res is None:
            continue
        c.functions |= a.functions_seen
        yield r, res[0], res[1]


def destroyed(a, r, o):
    """states after the parser discarded the result of a production"""
    st = o.st.copy()
    st.steps = 0
    if o.ctl != "ok":
        return [st]
    if r.lhs == "input":
        return [st]
    return a.run_destructor(st, r.lhs, o.val)


def tracetext(st):
    return "; ".join(fmt(t) for t in st.trace[-8:])


def fmt(t):
    if t[0] in ("null", "nonnull"):
        return "%s is %s" % (t[1], "null" if t[0] == "null" else "not null")
    if t[0] in ("==", "!="):
        return "%s %s %s" % (name(t[1]), t[0], t[2])
    if t[0] in ("atom", "not"):
        return "%s%s" % ("not " if t[0] == "not" else "", name(t[1]))
    if t[0] == "class":
        return "%s is a %s" % (t[1], t[2])
    return str(t)


def name(v):
    if isinstance(v, tuple):
        if v[0] in ("sym", "tok") and len(v) > 1:
            return str(v[1])
        if v[0] == "scmp":
            return "%s(%s, \"%s\")" % ("strcasecmp" if v[3] else "strcmp", name(v[1]), v[2])
        if v[0] == "app":
            return "%s(%s)" % (v[1], ", ".join(name(x) for x in v[2:]))
        if v[0] == "str":
            return '"%s"' % v[1]
        return "(" + " ".join(name(x) for x in v) + ")"
    return str(v)


def who(st, i):
    o = st.r(i)
    if o.label:
        return o.label
    k = {"cstr": "string", "vec": "list", "box": "value"}.get(o.kind, "")
    return "%s made at line %s" % ((o.cls if o.kind in ("struct",) else k) or o.kind, o.line)


def ownership(c, kinds):
    """evaluates every production; calls back for leaks ('leak') and life-cycle faults ('uaf', 'double', 'badfree')"""
    a = c.p.acts
    n = 0
    for r, outs, faults in rule_runs(c):
        n += 1
        bad = False
        for st in faults:
            for k, msg, line in st.issues:
                if k in kinds:
                    bad = True
                    c.violation("%s|%s|%s" % (r, k, msg_key(msg)), place(c, r, line), "%s" % msg, tracetext(st))
        for o in outs:
            if r.lhs == "input":
                continue
            before = len(o.st.issues)
            fr0 = len(a.faults)
            a.faults = []
            a.reasons()
            try:
                states = destroyed(a, r, o)
            except Unsupported as x:
                c.undecide(str(r), "destruction: %s" % x)
                continue
            except Infeasible:
                continue
            why = a.reasons()
            if why:
                c.undecide(str(r), "destruction: " + why)
            if o.ctl == "ok" and "leak" not in kinds:
                early_release(c, a, r, o)
            for st in states + a.faults:
                for k, msg, line in st.issues:
                    if k in kinds:
                        bad = True
                        c.violation("%s|%s|%s" % (r, k, msg_key(msg)), place(c, r, line), msg, tracetext(st))
            if "leak" in kinds:
                for st in states:
                    for i in leaks(st, a):
                        bad = True
                        what = who(st, i)
                        how = "when a syntax error is raised here" if o.ctl != "ok" else "once the result of this rule is destroyed"
                        c.violation("%s|leak|%s|%s" % (r, o.ctl, what_key(what)), place(c, r, st.r(i).line or None),
                                    "%s is never released (%s)" % (what, how), tracetext(st))
                    for x in st.flags.get("lost", ()):
                        if x[2] == "null":
                            continue
                        bad = True
                        c.violation("%s|lost|%s" % (r, what_key(x[0])), place(c, r, x[1]),
                                    "the elements of the list %s are never released" % x[0], tracetext(st))
        if not bad:
            c.ok("productions")
            if n % 60 == 1:
                c.sample({"production": str(r), "paths": len(outs), "result": "every operand and allocation released exactly once"})
    c.need(n >= 250, "grammar productions (%d found)" % n)


def early_release(c, a, r, o):
    """a discarded sub-tree must not be one that can contain a placeholder: the parser still refers to those"""
    st = o.st
    for i, ob in st.heap.items():
        if ob.status == "freed" and ob.alloc == "token" and ob.kind == "struct" and ob.label and ob.label.startswith("$") and ob.null != "null":
            try:
                k = int(ob.label[1:]) - 1
            except ValueError:
                continue
            sym = r.rhs[k]
            if sym in a.param_holders and not a.touched(st, i):
                c.violation("%s|dangling|$%d" % (r, k + 1), place(c, r),
                            "the sub-tree $%d (%s) is destroyed although it can contain a placeholder that is still to be numbered" % (k + 1, sym))


def msg_key(m):
    import re
    return re.sub(r"line \d+", "line", m)


def what_key(m):
    import re
    return re.sub(r"at line \d+", "", m)


def terminals(c, kinds):
    """discarding a token releases its value"""
    a = c.p.acts
    for t, d in a.g.terminals.items():
        if not d["type"] or pointee(a.utype[d["type"]]) is None:
            continue
        st = a.start()
        v = a.token(st, t, t)
        try:
            a.faults = []
            a.reasons()
            ends = a.run_destructor(st, t, v)
            why = a.reasons()
            if why:
                c.undecide("token " + t, why)
            for s in ends:
                bad = [i for i in s.issues if i[0] in kinds]
                for k, msg, line in bad:
                    c.violation("token %s|%s" % (t, k), "src/parser/bison_parser.y:%s (%%destructor of %s)" % (line, t), msg)
                if "leak" in kinds and leaks(s, a):
                    c.violation("token %s|leak" % t, "src/parser/bison_parser.y (%%destructor of %s)" % t,
                                "the value of a discarded %s token is never released" % t)
                    bad = True
                if not bad:
                    c.ok("token destructors")
        except Unsupported as x:
            c.undecide("token " + t, str(x))


# ---------------------------------------------------------------------------------------------- the input rule and the result
def new_result(it, st):
    """a default-constructed SQLParserResult"""
    ctors = [f for f in it.prog.by_name("hsql::SQLParserResult::SQLParserResult") if not f["params"]]
    i = it.fresh(st, "hsql::SQLParserResult")
    if ctors:
        out = []
        for s, _ in it.invoke(ctors[0], st, [], i, {"l": 0}, values=[]):
            out.append((s, i))
        return out
    return [(s, i) for s, _ in it.default_members(st, i, "hsql::SQLParserResult")]


def run_input(a, params=2):
    """outcomes of the production(s) of `input` on a fresh result with a list of two statements and two placeholders"""
    res = []
    for r in a.g.by_lhs.get("input", []):
        st = a.start()
        fr = st.env[a.ids["result"]]
        for s, i in new_result(a, st):
            s.w(i).label = None
            s.w(fr[1]).f["v"] = ("ptr", i)
            loc = s.env[a.ids["yyloc"]][1]
            pl = a.getfield(s, loc, "param_list")
            outs = a.evaluate((r, list(range(len(r.rhs)))), r.rhs, s)
            res.append((r, i, outs))
    return res


def input_rule(c, kinds):
    a = c.p.acts
    n = 0
    try:
        a.faults = []
        a.reasons()
        runs = run_input(a)
        why = a.reasons()
        if why:
            c.undecide("input", why)
    except Unsupported as x:
        c.undecide("input", str(x))
        return
    for r, i, outs in runs:
        for st in a.faults:
            for k, msg, line in st.issues:
                if k in kinds:
                    c.violation("%s|%s|%s" % (r, k, msg_key(msg)), place(c, r, line), msg, tracetext(st))
        for o in outs:
            a.faults = []
            try:
                states = list(a.run_dtor(o.st, i, "hsql::SQLParserResult", 0))
            except Unsupported as x:
                c.undecide("input / ~SQLParserResult", str(x))
                continue
            why = a.reasons()
            if why:
                c.undecide("input / ~SQLParserResult", why)
            for st in states + a.faults:
                bad = False
                for k, msg, line in st.issues:
                    if k in kinds:
                        bad = True
                        c.violation("%s|%s|%s" % (r, k, msg_key(msg)), place(c, r, line), msg, tracetext(st))
                if "leak" in kinds and st in states:
                    for j in leaks(st, a):
                        ob = st.r(j)
                        if ob.kind == "raw" or ob.label and ob.label.startswith("yyloc"):
                            continue
                        bad = True
                        c.violation("%s|leak|%s" % (r, what_key(who(st, j))), place(c, r, ob.line or None),
                                    "%s is never released once the result object is destroyed" % who(st, j), tracetext(st))
                    for x in st.flags.get("lost", ()):
                        bad = True
                        c.violation("%s|lost|%s" % (r, x[0]), place(c, r, x[1]), "the elements of the list %s are never released" % x[0])
                if not bad:
                    c.ok("result destruction paths")
                    n += 1
    c.need(n or c.viol or c.undecided, "input rule")


def c01(c):
    c.rule("Every grammar action is evaluated abstractly on all values its operands can have (fixpoint over the grammar); after the parser's own "
           "%destructor code for its result (or, on a raised syntax error, immediately) each operand and each allocation must have been released. "
           "The public entry points must give back every scanner resource and token on all their paths.")
    ownership(c, ("leak",))
    terminals(c, ("leak",))
    input_rule(c, ("leak",))
    import entry
    entry.resources(c)
    entry.setters(c, ("leak",))
    import lexing
    lexing.memory(c, ("leak",))
    c.assumptions += ["lists are analysed with two elements", "allocation succeeds", "scanner and libc functions behave as documented"]


def c02(c):
    c.rule("Same evaluation as C01: no operand, allocation or part of an operand is released twice, used after its release, released by the wrong "
           "function or through a base class without virtual destructor, and no destroyed sub-tree can hold a placeholder.")
    ks = ("uaf", "double", "badfree", "cast", "oob")
    ownership(c, ks)
    terminals(c, ks)
    input_rule(c, ks)
    import entry
    entry.setters(c, ks)
    entry.tokenizer(c, ks)
    import lexing
    lexing.memory(c, ks)
    import buffers
    buffers.copies(c, ks)
    c.assumptions += ["lists are analysed with two elements", "allocation succeeds"]


def c03(c):
    c.rule("For every grammar action the fields of each object reachable from its result are definitely assigned; a field that some node attached to "
           "a tree can carry without a value is a violation, as is any read of an indeterminate value on a path of an action.")
    a = c.p.acts
    n = 0
    for r, outs, faults in rule_runs(c):
        bad = False
        for st in faults + [o.st for o in outs]:
            for k, msg, line in st.issues:
                if k in ("uninit",):
                    bad = True
                    c.violation("%s|uninit|%s" % (r, msg_key(msg)), place(c, r, line), msg, tracetext(st))
        n += 1
        if not bad:
            c.ok("productions")
    import buffers
    buffers.copies(c, ("uninit",))
    # attached objects with an indeterminate field
    for cls, shapes in sorted(a.stored.items()):
        fields = {}
        for s in shapes:
            for f, v in s:
                if v == "uninit":
                    fields.setdefault(f, s)
        for f in sorted(fields):
            org = origin(a, cls, f)
            c.violation("%s.%s|indeterminate" % (cls, f), "src/parser/bison_parser.y (%s)" % (org or "?"),
                        "a %s of a returned tree can have an indeterminate field %s" % (cls, f))
        if not fields:
            c.ok("node classes")
        c.count("node shapes", len(shapes))
    for nt in ("statement",):
        v = a.V.get(nt)
        c.need(v is not None, nt)
        for s in v.shapes:
            for f, x in s:
                if x == "uninit":
                    c.violation("%s.%s|indeterminate" % (dict(s).get("__cls"), f), "src/parser/bison_parser.y",
                                "a returned %s can have an indeterminate field %s" % (dict(s).get("__cls"), f))
    for nt, v in sorted(a.V.items()):
        if v.uninit and nt not in ("input",):
            org = next((str(r) for r, outs, _ in ((r, *a.results[r.num]) for r in a.g.by_lhs[nt] if r.num in a.results)
                        for o in outs if o.ctl == "ok" and o.val == ("uninit",)), nt)
            c.violation("%s|no value" % org, "src/parser/bison_parser.y (%s)" % org, "the rule leaves its result without a value")
    c.need(n >= 250, "grammar productions")
    import lexing
    lexing.memory(c, ("uninit",))
    c.assumptions += ["lists are analysed with two elements"]


def origin(a, cls, f):
    for num, (outs, _) in a.results.items():
        for o in outs:
            if o.ctl != "ok":
                continue
            for oid, path, att in a.reachable(o.st, o.val):
                ob = o.st.r(oid)
                if ob.kind == "struct" and not ob.opq and ob.cls == cls and f in [x["name"] for x in a.prog.all_fields(cls)]:
                    if a.field_status(o.st, oid, f) == ["uninit"]:
                        return str(a.g.rules[num])
    return None

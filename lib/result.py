"""SQLParserResult as an abstract data type: every operation, from every state of the object (any statements, parameters,
validity, error details), against its specified effect as seen through the public accessors.

Because each operation is judged from an arbitrary state, the judgements compose to all histories."""
from absint import Infeasible, Interp, NULL, State, UNINIT, Unsupported, lengths

CLS = "hsql::SQLParserResult"


class Ops:
    def __init__(self, c):
        self.c = c
        self.p = c.p.prog
        self.it = Interp(self.p)
        self.methods = {}
        for f in self.p.functions.values():
            if f.get("cls") == CLS and f.get("body"):
                self.methods.setdefault(f["name"], []).append(f)

    def method(self, name, nparams=None, match=None):
        l = [f for f in self.methods.get(name, ()) if (nparams is None or len(f["params"]) == nparams) and (match is None or match(f))]
        if not l:
            raise Missing("%s::%s" % (CLS, name))
        return l[0]

    def opaque(self, st, label, size, msg):
        """a result in an unknown state with size[0] statements and size[1] parameters"""
        i = self.it.fresh(st, CLS, "outside", label, True)
        for f in self.p.all_fields(CLS):
            v = self.it.getfield(st, i, f["name"])
            if isinstance(v, tuple) and v[0] == "obj" and st.r(v[1]).kind == "vec":
                w = st.w(v[1])
                n = size["SQLStatement" not in w.elem]
                if n == 0:
                    w.pre, w.items, w.tag = None, [], 0
                else:
                    w.pre = [n]
                    list(self.it.expand(st, v[1]))
            elif isinstance(v, tuple) and v[0] == "ptr":
                self.it.set_null(st, v[1], not msg)
                st.w(v[1]).alloc = "malloc" if st.r(v[1]).kind == "cstr" else st.r(v[1]).alloc
        return i

    def new(self, st, args=(), match=None):
        """construct; yields (state, object)"""
        fn = self.method("SQLParserResult", len(args), match)
        i = self.it.fresh(st, CLS, "stack", None, False)
        for s, _ in self.it.invoke(fn, st, [], i, {"l": 0}, values=list(args)):
            yield s, i

    def call(self, st, this, name, *args, nparams=None, match=None):
        fn = self.method(name, len(args) if nparams is None else nparams, match)
        yield from self.it.invoke(fn, st, [], this, {"l": fn.get("line", 0)}, values=list(args))

    def observe(self, st, i):
        """the states as the accessors show them"""
        work = [(st, {})]
        for name in ("isValid", "size", "errorMsg", "errorLine", "errorColumn", "getStatements", "parameters"):
            nxt = []
            for s, d in work:
                for s2, v in self.call(s, i, name):
                    nxt.append((s2, dict(d, **{name: self.value(s2, v)})))
            work = nxt
        for name in ("getStatement", "getMutableStatement"):
            nxt = []
            for s, d in work:
                n = d["getStatements"]
                if not (isinstance(n, tuple) and n and n[0] == "list"):
                    nxt.append((s, dict(d, **{name: None})))
                    continue
                part = [(s, n[1])]
                for k in indices(len(n[1])):
                    part = [(s3, l[:k] + (self.value(s3, v),) + l[k + 1:]) for s2, l in part for s3, v in self.call(s2, i, name, k)]
                nxt += [(s2, dict(d, **{name: ("list", l)})) for s2, l in part]
            work = nxt
        yield from work

    def value(self, st, v):
        if isinstance(v, tuple) and v[0] == "loc":
            v = self.it.load(st, v[1])
        if isinstance(v, tuple) and v[0] == "obj":
            o = st.r(v[1])
            if o.kind == "vec":
                return ("list", tuple(self.value(st, x) for x in o.items))
            raise Unsupported("observation of " + str(o.kind))
        if isinstance(v, tuple) and v[0] == "ptr":
            if st.r(v[1]).null == "null":
                return NULL
            return v if st.r(v[1]).status != "freed" else ("freed", v[1])
        k = self.it.known(st, v)
        return v if k is None else k

    def dtor(self, st, i):
        yield from self.it.run_dtor(st, i, CLS, 0)


class Missing(Exception):
    pass


def indices(n):
    """the positions of a list that are read: all of a short one"""
    if n <= 700:
        return range(n)
    return sorted({k for m in (0, 16, 64, 256, 1024, 32768, 65536, n // 2, n - 1) for k in (m - 1, m, m + 1) if 0 <= k < n})


FRESH = {"isValid": 0, "size": 0, "errorMsg": NULL, "getStatements": ("list", ()), "parameters": ("list", ()), "getStatement": ("list", ()),
         "getMutableStatement": ("list", ())}


def diff(a, b, only=None):
    """names whose values differ"""
    return [k for k in sorted(a) if k in b and (only is None or k in only) and a[k] != b[k]]


def show(st, v):
    if isinstance(v, tuple) and v and v[0] == "list":
        return "[%s]" % ", ".join(show(st, x) for x in v[1])
    if isinstance(v, tuple) and v and v[0] == "ptr":
        return st.r(v[1]).label or "a new object"
    if isinstance(v, tuple) and v and v[0] == "freed":
        return "released memory"
    if v == NULL:
        return "null"
    if v == UNINIT:
        return "indeterminate"
    return str(v[1]) if isinstance(v, tuple) and v[0] == "sym" else str(v)


class Judge:
    def __init__(self, c, ops, kinds, what, fields=None):
        self.c, self.o, self.kinds, self.what, self.fields = c, ops, kinds, what, fields
        self.bad = False

    def report(self, kind, st, msg, fn, field=None):
        if kind not in self.kinds or field and self.fields and field not in self.fields:
            return
        self.bad = True
        f = self.o.methods.get(fn, [{}])[0]
        self.c.violation("%s|%s|%s" % (self.what, kind, msg[:80]), "%s:%s (%s::%s)" % (f.get("file", "src/SQLParserResult.cpp"), f.get("line", ""), CLS, fn),
                         "%s: %s" % (self.what, msg))

    def expect(self, st, have, want, fn, who="the result"):
        for k in sorted(want):
            if have.get(k) != want[k]:
                self.report("value", st, "%s() of %s is %s instead of %s" % (k, who, show(st, have.get(k)), show(st, want[k])), fn, k)

    def faults(self, states, fn):
        for st in states:
            for k, msg, line in st.issues:
                self.report(k, st, msg, fn)

    def alive(self, st, ids, fn):
        for i in ids:
            if st.r(i).status == "freed":
                self.report("uaf", st, "%s is released although it is still in use" % (st.r(i).label or "an object"), fn)

    def released(self, st, ids, fn, when):
        for i in ids:
            if st.r(i).status != "freed" and st.r(i).null != "null":
                self.report("leak", st, "%s is not released %s" % (st.r(i).label or "an object", when), fn)


def owned(obs):
    """ids of everything a result owns"""
    r = [x[1] for x in obs["getStatements"][1] if isinstance(x, tuple) and x[0] == "ptr"] if obs["getStatements"] else []
    if isinstance(obs["errorMsg"], tuple) and obs["errorMsg"][0] == "ptr":
        r.append(obs["errorMsg"][1])
    return r


def params(obs):
    return [x[1] for x in obs["parameters"][1] if isinstance(x, tuple) and x[0] == "ptr"]


def sizes(c, o):
    """numbers of statements and parameters to try: small ones, and those that a method compares anything with"""
    r = [(0, 0), (1, 1), (2, 2), (3, 3), (0, 2), (2, 0), (1, 3), (3, 1)]
    extra = set()
    for l in o.methods.values():
        for f in l:
            extra |= lengths(c.p.prog, f, 5000)
    return r + [(n, n) for n in sorted(extra) if n > 3]


STATEMENTS = ("size", "getStatements", "getStatement", "getMutableStatement")
OUTCOME = STATEMENTS + ("isValid", "errorMsg", "errorLine", "errorColumn")


def operations(c, kinds, only=None, fields=None):
    """all operations, or those named; all that accessors show, or those named"""
    o = Ops(c)
    c.need(o.methods, "methods of " + CLS)
    todo = [("construction", construct), ("move construction", move_construct), ("move assignment", move_assign), ("self assignment", self_assign),
            ("reset", reset), ("releaseStatements", release), ("addStatement", add), ("addParameter", add_param), ("setIsValid", set_valid),
            ("setErrorDetails", set_error), ("destruction", destruct), ("accessors", accessors)]
    todo = [x for x in todo if only is None or x[0] in only]
    all_ = sizes(c, o)
    o.it.partial, o.it.ROUNDS = True, 6000
    for what, f in todo:
        j = Judge(c, o, kinds, what, fields)
        n = 0
        lost = False
        o.it.faults = []
        for size in all_ + ([(70000, 0)] if what == "accessors" else []):
            for msg in (False, True):
                if j.bad or what in ("construction", "addParameter", "accessors") and msg and max(size) > 3:
                    continue
                o.it.reasons()
                o.it.MAXSTEPS = 20000 if max(size) < 10 else 3000000
                try:
                    n += f(j, o, size, msg)
                    j.faults(o.it.faults, METHOD.get(what, what))
                    why = o.it.reasons()
                except Unsupported as x:
                    why = str(x)
                except Infeasible as x:
                    why = "infeasible: %s" % x
                except Missing as x:
                    why = "no definition of %s" % x
                if why and not lost and not j.bad:
                    lost = True
                    c.undecide(what, why)
        c.count("paths of the result's operations", n)
        if not j.bad and not lost:
            c.ok("operations of the result")
            c.sample({"operation": what, "states": "%s statements and parameters, with and without error message" % ", ".join(
                "%d/%d" % x for x in all_), "paths": n})
    c.functions |= o.it.functions_seen


METHOD = {"construction": "SQLParserResult", "move construction": "SQLParserResult", "move assignment": "operator=", "self assignment": "operator=",
          "releaseStatements": "releaseStatements", "addStatement": "addStatement", "addParameter": "addParameter", "destruction": "~SQLParserResult", "accessors": "size"}


def ismove(f):
    return f["params"] and f["params"][0]["t"].rstrip().endswith("&&")


def construct(j, o, size, msg):
    n = 0
    if max(size) > 0 or msg:
        return n
    st = State()
    for s, i in o.new(st):
        for s, obs in o.observe(s, i):
            n += 1
            j.expect(s, obs, FRESH, "SQLParserResult", "a new result")
            j.faults([s], "SQLParserResult")
            for k, v in obs.items():
                if v == UNINIT:
                    j.report("value", s, "%s() of a new result is indeterminate" % k, "SQLParserResult")
    st = State()
    stmt = o.it.opaque_ptr(st, "hsql::SQLStatement *", "the statement", "nonnull", alloc="new")
    for s, i in o.new(st, [stmt], lambda f: not ismove(f)):
        for s, obs in o.observe(s, i):
            n += 1
            want = dict(FRESH, size=1, getStatements=("list", (stmt,)), getStatement=("list", (stmt,)), getMutableStatement=("list", (stmt,)))
            del want["isValid"]
            j.expect(s, obs, want, "SQLParserResult", "the new result")
            j.faults([s], "SQLParserResult")
    return n


def new_obs(o):
    st = State()
    for s, i in o.new(st):
        for s, obs in o.observe(s, i):
            return obs


def before(o, label, size, msg, st=None):
    """a result in an unknown state, as its accessors show it: (state, result, observation)"""
    st = State() if st is None else st
    i = o.opaque(st, label, size, msg)
    for s, obs in o.observe(st, i):
        yield s, i, obs


def seen(j, o, st, i, want, fn, who="the result"):
    """the states after the accessors have shown what is expected"""
    for s, obs in o.observe(st, i):
        j.expect(s, obs, want, fn, who)
        yield s


def move_construct(j, o, size, msg):
    n = 0
    for st, src, old in before(o, "source", size, msg):
        for s, i in o.new(st, [("obj", src)], ismove):
            for s in seen(j, o, s, i, old, "SQLParserResult", "the new result"):
                n += 1
                for s in emptied(j, o, s, src, "SQLParserResult"):
                    after(j, o, s, [i, src], owned(old), (), params(old), "SQLParserResult")
    return n


def emptied(j, o, s, src, fn):
    want = {k: FRESH[k] for k in ("size", "getStatements", "parameters", "errorMsg", "isValid")}
    yield from seen(j, o, s, src, want, fn, "the moved-from result")


def after(j, o, st, results, due, kept, untouched, fn):
    """destroy the results: everything due is released exactly once, what is kept is not"""
    j.faults([st], fn)
    j.alive(st, [i for i in list(due) + list(kept) + list(untouched)], fn)
    states = [st]
    for r in results:
        nxt = []
        for s in states:
            nxt += list(o.dtor(s, r))
        states = nxt
    for s in states:
        j.faults([s], fn)
        j.released(s, due, fn, "when the result is destroyed")
        j.alive(s, list(kept) + list(untouched), fn)


def move_assign(j, o, size, msg):
    n = 0
    for tsize, tmsg in (((0, 0), False), ((2, 2), True), ((1, 1), False)):
        for st, src, old in before(o, "source", size, msg):
            for s0, dst, gone in before(o, "target", tsize, tmsg, st):
                for s, v in o.call(s0, dst, "operator=", ("obj", src), match=ismove):
                    n += 1
                    for s in seen(j, o, s, dst, old, "operator=", "the target"):
                        for s in emptied(j, o, s, src, "operator="):
                            j.released(s, owned(gone), "operator=", "when the target is overwritten")
                            if not (isinstance(v, tuple) and (v == ("loc", ("o", dst)) or v == ("obj", dst))):
                                j.report("value", s, "the assignment does not return the target", "operator=")
                            after(j, o, s, [dst, src], owned(old), (), params(old), "operator=")
    return n


def self_assign(j, o, size, msg):
    n = 0
    for st, i, old in before(o, "result", size, msg):
        for s, v in o.call(st, i, "operator=", ("obj", i), match=ismove):
            for s in seen(j, o, s, i, old, "operator="):
                n += 1
                after(j, o, s, [i], owned(old), (), params(old), "operator=")
    return n


def reset(j, o, size, msg):
    n = 0
    for st, i, old in before(o, "result", size, msg):
        for s, v in o.call(st, i, "reset"):
            for s in seen(j, o, s, i, new_obs(o), "reset", "the result after reset"):
                n += 1
                j.faults([s], "reset")
                j.released(s, owned(old), "reset", "by reset()")
                j.alive(s, params(old), "reset")
                after(j, o, s, [i], (), (), params(old), "reset")
    return n


def release(j, o, size, msg):
    n = 0
    for st, i, old in before(o, "result", size, msg):
        for s, v in o.call(st, i, "releaseStatements"):
            got = o.value(s, v)
            if got != old["getStatements"]:
                j.report("value", s, "%s is returned instead of %s" % (show(s, got), show(s, old["getStatements"])), "releaseStatements")
            want = {k: old[k] for k in ("isValid", "errorMsg", "errorLine", "errorColumn")}
            want.update(size=0, getStatements=("list", ()))
            for s in seen(j, o, s, i, want, "releaseStatements", "the result after releaseStatements()"):
                n += 1
                st_ids = [x[1] for x in old["getStatements"][1]]
                rest = [x for x in owned(old) if x not in st_ids]
                # handed out once
                for s2, v2 in o.call(s.copy(), i, "releaseStatements"):
                    if o.value(s2, v2) != ("list", ()):
                        j.report("value", s2, "a second call returns %s" % show(s2, o.value(s2, v2)), "releaseStatements")
                after(j, o, s, [i], rest, st_ids, params(old), "releaseStatements")
    return n


def add(j, o, size, msg):
    n = 0
    for st, i, old in before(o, "result", size, msg):
        stmt = o.it.opaque_ptr(st, "hsql::SQLStatement *", "the statement", "nonnull", alloc="new")
        for s, v in o.call(st, i, "addStatement", stmt):
            l = ("list", old["getStatements"][1] + (stmt,))
            want = dict(old, size=len(l[1]), getStatements=l, getStatement=l, getMutableStatement=l)
            for s in seen(j, o, s, i, want, "addStatement"):
                n += 1
                after(j, o, s, [i], owned(old) + [stmt[1]], (), params(old), "addStatement")
    return n


def add_param(j, o, size, msg):
    """the parameters stay ordered by their number, whatever the numbers are"""
    n = 0
    for first, new in ((0, size[1]), (100, 99), (127 - size[1], 127), (126 - size[1] // 2, 200), (255 - size[1], 255), (32767 - size[1], 32767),
                       (65535 - size[1], 65535), (0, 1 << 24)):
        for st, i, old in before(o, "result", size, msg):
            ids = params(old)
            for k, x in enumerate(ids):
                st.w(x).f["ival"] = first + k
            p = o.it.opaque_ptr(st, "hsql::Expr *", "the parameter", "nonnull", alloc="new")
            st.w(p[1]).f["ival"] = new
            at = sum(first + k < new for k in range(len(ids)))
            # one more, so that the order is seen on both sides of a limit
            q = o.it.opaque_ptr(st, "hsql::Expr *", "the next parameter", "nonnull", alloc="new")
            st.w(q[1]).f["ival"] = max(new, first + len(ids)) + 1
            l = list(old["parameters"][1])
            l = ("list", tuple(l[:at] + [p] + l[at:] + [q]))
            for s, v in o.call(st, i, "addParameter", p):
                for s, obs in list(o.observe(s.copy(), i)):
                    j.expect(s, obs, {"parameters": ("list", tuple(x for x in l[1] if x != q))}, "addParameter")
                for s, v in o.call(s, i, "addParameter", q):
                    for s in seen(j, o, s, i, dict(old, parameters=l), "addParameter"):
                        n += 1
                        after(j, o, s, [i], owned(old), (), ids + [p[1], q[1]], "addParameter")
    return n


def set_valid(j, o, size, msg):
    n = 0
    for b in (0, 1):
        for st, i, old in before(o, "result", size, msg):
            for s, v in o.call(st, i, "setIsValid", b):
                for s in seen(j, o, s, i, dict(old, isValid=b), "setIsValid"):
                    n += 1
                    after(j, o, s, [i], owned(old), (), params(old), "setIsValid")
    return n


def set_error(j, o, size, msg):
    n = 0
    for st, i, old in before(o, "result", size, msg):
        m = o.it.opaque_ptr(st, "char *", "the error message", "nonnull", alloc="malloc")
        for s, v in o.call(st, i, "setErrorDetails", m, ("sym", "line"), ("sym", "column")):
            want = dict(old, errorMsg=m, errorLine=("sym", "line"), errorColumn=("sym", "column"))
            del want["isValid"]
            for s in seen(j, o, s, i, want, "setErrorDetails"):
                n += 1
                gone = [x for x in owned(old) if isinstance(old["errorMsg"], tuple) and old["errorMsg"] == ("ptr", x)]
                j.released(s, gone, "setErrorDetails", "when it is replaced")
                after(j, o, s, [i], [x for x in owned(old) if x not in gone] + [m[1]], (), params(old), "setErrorDetails")
    return n


def destruct(j, o, size, msg):
    n = 0
    for st, i, old in before(o, "result", size, msg):
        n += 1
        after(j, o, st, [i], owned(old), (), params(old), "~SQLParserResult")
    return n


def accessors(j, o, size, msg):
    n = 0
    for st, i, a in before(o, "result", size, msg):
        for st, b in o.observe(st, i):
            n += 1
            for k in diff(a, b):
                j.report("value", st, "reading the result changes %s" % k, "size", k)
            if a["size"] != len(a["getStatements"][1]):
                j.report("value", st, "size() is %s for %d statements" % (a["size"], len(a["getStatements"][1])), "size", "size")
            for k in ("getStatement", "getMutableStatement"):
                if a[k] != a["getStatements"]:
                    j.report("value", st, "%s(i) does not return the i-th statement" % k, k, k)
            for k, n in (("getStatements", size[0]), ("parameters", size[1])):
                if len(a[k][1]) != n:
                    j.report("value", st, "a list is not returned in full", k, k)
            labels = {k: a[k] for k in ("isValid", "errorLine", "errorColumn")}
            if len(set(map(str, labels.values()))) != 3:
                j.report("value", st, "two accessors return the same field", "errorLine", "errorLine")
            j.faults([st], "size")
    return n


def c13(c):
    c.rule("Every operation of SQLParserResult, from every state of its operands (statements and parameters present or not, in every number that a "
           "method distinguishes, error message present or not, any validity), has exactly its specified effect as seen through the accessors; what an "
           "object held before is released once.")
    operations(c, ("value", "leak", "double", "uaf", "badfree", "uninit", "nullderef"))

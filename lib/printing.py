"""C15: every tree the parser builds can be printed.  (C17, the printed content, is in printed.py)"""
import os
import re

from absint import Infeasible, Interp, NULL, Obj, State, UNINIT, Unsupported, VOID, pointee, strip
import frontend

RECURSIVE = {"hsql::Expr": "hsql::printExpression", "hsql::SelectStatement": "hsql::printSelectStatementInfo", "hsql::TableRef": None}
KINDS = ("null", "uninit", "uaf", "oob", "cast", "double", "badfree")


def api(c):
    """the print functions of the public header, with a body"""
    names = []
    for d, _, fs in os.walk(os.path.join(frontend.REPO, "src", "util")):
        for n in sorted(fs):
            if n.endswith(".h"):
                t = open(os.path.join(d, n), encoding="utf-8", errors="replace").read()
                t = re.sub(r"/\*.*?\*/|//[^\n]*", "", t, flags=re.S)
                for m in re.finditer(r"\b(print\w+)\s*\(", t):
                    if m.group(1) not in names:
                        names.append(m.group(1))
    out = []
    for n in names:
        fl = [f for f in c.p.prog.by_name("hsql::" + n) if f.get("body")]
        out += fl
    return out


def node_class(prog, t):
    pt = pointee(t)
    return strip(pt) if pt and strip(pt) in prog.records else None


INTEGRAL = re.compile(r"^(unsigned |signed )?(long long|long|int|short|char)( (unsigned )?int)?$|^(std::)?(u?int(max|ptr|\d+)?(_least\d+|_fast\d+)?_t|s?size_t)$|^unsigned$")


def integral(t):
    return bool(t) and bool(INTEGRAL.match(strip(t.rstrip("& "))))


def refs(x, ids):
    """is one of the variables mentioned"""
    if isinstance(x, list):
        return any(refs(y, ids) for y in x)
    if not isinstance(x, dict):
        return False
    return x.get("k") == "Ref" and x.get("id") in ids or any(refs(y, ids) for y in x.values() if isinstance(y, (dict, list)))


def counted(prog):
    """does code of the printers count a number given to it up or down (in a loop or by calling itself)? Such numbers are then given a value"""
    if "_counted" in prog.__dict__:
        return prog._counted
    r = False
    for f in prog.functions.values():
        if not f.get("body") or not re.search(r"(^|/)util/", f.get("f") or ""):
            continue
        outer = {p["id"] for p in f["params"] if integral(p["t"])}
        own = any(integral(p["t"]) for p in f["params"]) and not any(node_class(prog, p["t"]) for p in f["params"])

        def go(n):
            nonlocal r
            if isinstance(n, list):
                for x in n:
                    go(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k in ("For", "While", "Do") and refs(n.get("cond"), outer) or k == "Call" and own and n.get("usr") == f["usr"]:
                r = True
            if k == "Decl":
                for v in n["c"]:
                    if integral(v.get("t", "")) and refs(v.get("init"), outer):
                        outer.add(v.get("id"))
            for x in n.values():
                if isinstance(x, (dict, list)):
                    go(x)
        go(f["body"])
    prog._counted = r
    return r


class Printers(Interp):
    """evaluates print functions; nested prints of other nodes of the recursive classes are summarised"""

    def __init__(self, c, merge=True):
        Interp.__init__(self, c.p.prog)
        self.c = c
        self.stored = c.p.acts.stored
        self.residual = c.p.acts.residual
        self.mergeifs = merge
        self.recursive = {}          # function (usr) -> class, found by recursion
        self.nullok = {}
        self.stack = []
        self.newroots = []
        self.nested = 0
        self.concrete = False
        self.number = 2 if counted(c.p.prog) else None

    # ---- what a nested call prints
    def target(self, st, fn, vs):
        """(class, object id) of the node a call is about"""
        for p, v in zip(fn["params"], vs):
            cl = node_class(self.prog, p["t"])
            if cl in RECURSIVE and isinstance(v, tuple) and v[0] in ("ptr", "null", "uninit"):
                return cl, v
            if cl is None and p.get("ref") and strip(p["t"].rstrip("& ")) in RECURSIVE and isinstance(v, tuple) and v[0] in ("loc", "obj"):
                l = v[1] if v[0] == "loc" else ("o", v[1])
                if l[0] == "o":
                    return strip(p["t"].rstrip("& ")), ("ptr", l[1])
        return None, None

    def rest(self, fn, vs, st, node):
        return tuple(self.term(st, v) for v in vs if v != node)

    def invoke(self, fn, st, args, this, e, values=None):
        if this is not None or fn.get("kind") in ("ctor", "dtor"):
            yield from Interp.invoke(self, fn, st, args, this, e, values)
            return
        gen = [(st, values)] if values is not None else self.evs(args, st, [p.get("ref") for p in fn["params"]])
        for s, vs in gen:
            cl, node = self.target(s, fn, vs)
            if cl is None:
                yield from self.enter(fn, s, vs, e, None)
                continue
            if node == UNINIT:
                s.issue("uninit", "an indeterminate pointer is passed to %s" % fn["name"], e.get("l", 0))
                self.dead(s)
                continue
            isroot = fn["qn"] == RECURSIVE[cl] or fn["usr"] in self.recursive
            active = [x for x in self.stack if x[0] == fn["usr"]]
            if not self.stack:
                yield from self.enter(fn, s, vs, e, node)
                continue
            same = node[0] == "ptr" and any(x[1] == node for x in active)
            if same:
                again = [x for x in active if x[1] == node and x[2] == self.rest(fn, vs, s, node)]
                if again:
                    s.issue("loop", "%s is called again for the same node, without end" % fn["name"], e.get("l", 0))
                    self.dead(s)
                    continue
                last = [x for x in active if x[1] == node][-1]
                rest = self.rest(fn, vs, s, node)
                if last[3] == len(s.trace) and len([x for x in active if x[1] == node]) > 1 and all(
                        x == y or not isinstance(x, int) for x, y in zip(rest, last[2])):
                    s.issue("loop", "%s is called again for the same node, and nothing that was decided in between ends it" % fn["name"], e.get("l", 0))
                    self.dead(s)
                    continue
                if len(active) > 3:
                    raise Unsupported("repeated recursion on one node")
                yield from self.enter(fn, s, vs, e, node)
                continue
            if node[0] == "ptr" and not s.r(node[1]).opq and not self.concrete:
                yield from self.enter(fn, s, vs, e, node)
                continue
            if not isroot and not active:
                yield from self.enter(fn, s, vs, e, node)
                continue
            if not isroot:
                self.recursive[fn["usr"]] = cl
                self.newroots.append(fn)
            yield from self.nested_print(fn, s, vs, e, cl, node)

    def enter(self, fn, st, vs, e, node):
        self.stack.append((fn["usr"], node, self.rest(fn, vs, st, node), len(st.trace)))
        try:
            res = list(Interp.invoke(self, fn, st, [], None, e, values=vs))
        finally:
            self.stack.pop()
        yield from res

    def nested_print(self, fn, st, vs, e, cl, node):
        self.nested += 1
        ok = self.accepts_null(fn)
        ind = tuple(self.term(st, v) for v in vs if v != node)
        if node == NULL or node[0] == "ptr" and st.r(node[1]).null == "null":
            if ok == "unknown":
                raise Unsupported("%s without a node" % fn["name"])
            if not ok:
                st.issue("null", "%s is called without a node" % fn["name"], e.get("l", 0))
                self.dead(st)
                return
            if ok == "silent":
                yield st, VOID
                return
            st.out.append(("sub", cl, None, ind, fn["qn"]))
            yield st, VOID
            return
        o = st.r(node[1])
        if o.status == "freed":
            st.issue("uaf", "%s is printed after its release" % self.describe(st, node[1]), e.get("l", 0))
        if o.null == "maybe" and not ok:
            s2 = st.copy()
            try:
                self.set_null(s2, node[1], True)
                st.issue("null", "%s is printed by %s although it can be absent" % (o.label, fn["name"]), e.get("l", 0))
            except Infeasible:
                pass
            try:
                self.set_null(st, node[1], False)
            except Infeasible:
                self.dead(st)
                return
        own = [x[1] for x in self.stack if x[1] and x[1][0] == "ptr"]
        if own and st.r(own[0][1]).label and o.label and not self.below(o.label, st.r(own[0][1]).label):
            st.issue("loop", "%s prints %s, which is no part of it" % (self.stack[0][0], o.label), e.get("l", 0))
        st.out.append(("sub", cl, o.label, ind, fn["qn"]))
        yield st, VOID

    @staticmethod
    def below(label, root):
        return label == root or label.startswith(root + ".") or label.startswith(root + "[")

    def accepts_null(self, fn):
        """can the function be called with a null node; 'silent' when it then prints nothing"""
        k = fn["usr"]
        if k not in self.nullok:
            self.nullok[k] = False
            it = Printers(self.c)
            it.nullok = self.nullok
            try:
                st = State()
                vs = it.arguments(st, fn, null=True)
                outs = list(it.invoke(fn, st, [], None, {"l": fn.get("l", 0)}, values=vs))
                bad = [i for s in [x for x, _ in outs] + it.faults for i in s.issues if i[0] in KINDS]
                if not bad and outs:
                    self.nullok[k] = "silent" if all(not s.out for s, _ in outs) else "prints"
            except (Unsupported, Infeasible):
                self.nullok[k] = "unknown"
        return self.nullok[k]

    # ---- arguments of a root
    def arguments(self, st, fn, null=False):
        vs = []
        for p in fn["params"]:
            t = p["t"]
            pt = pointee(t)
            name = p["name"] or "arg%d" % len(vs)
            if pt is not None and (strip(pt) in self.prog.records or self.class_kind(strip(pt))):
                if null and strip(pt) in RECURSIVE:
                    vs.append(NULL)
                    continue
                cands = self.shape_child(t)
                vs.append(self.opaque_ptr(st, t, name, "nonnull", cands))
            elif pt is not None:
                vs.append(self.opaque_ptr(st, t, name, "nonnull"))
            elif p.get("ref") and strip(t.rstrip("& ")) in self.prog.records:
                v = self.opaque_ptr(st, strip(t.rstrip("& ")) + " *", name, "nonnull", self.shape_child(strip(t.rstrip("& ")) + " *"))
                vs.append(("loc", ("o", v[1])))
            elif self.class_kind(strip(t)):
                vs.append(("obj", self.fresh(st, t, "sub", name, True)))
            elif self.number is not None and integral(t):
                vs.append(self.number)
            else:
                vs.append(("sym", name))
        return vs


def evaluations(c, kinds=KINDS + ("loop",)):
    """evaluates the print functions and those they recurse through; issues of the given kinds are violations"""
    roots = api(c)
    c.need(roots, "print functions of src/util")
    c.need(any(f["name"] == "printStatementInfo" for f in roots), "printStatementInfo")
    done = set()
    work = list(roots)
    while work:
        fn = work.pop(0)
        if fn["usr"] in done:
            continue
        done.add(fn["usr"])
        it = Printers(c)
        it.partial = True
        st = State()
        where = "src/%s" % fn.get("f", "?")
        try:
            vs = it.arguments(st, fn)
            outs = list(it.invoke(fn, st, [], None, {"l": fn.get("l", 0)}, values=vs))
        except Unsupported as x:
            c.undecide(fn["qn"], str(x))
            continue
        except Infeasible as x:
            c.undecide(fn["qn"], "no values: " + str(x))
            continue
        bad = False
        why = it.reasons()
        if why:
            c.undecide(fn["qn"], why)
        seen = set()
        for s in [x for x, _ in outs] + it.faults:
            for k, msg, line in s.issues:
                if k in kinds and (k, msg, line) not in seen:
                    seen.add((k, msg, line))
                    bad = True
                    c.violation("%s|%s|%s" % (fn["qn"], k, re.sub(r"\d+", "#", msg)), "%s:%s (%s)" % (where, line or fn.get("l", 0), fn["qn"]), msg)
        if not outs and not bad:
            c.undecide(fn["qn"], "no path returns")
            continue
        for g in it.newroots:
            work.append(g)
        c.functions |= it.functions_seen
        c.count("paths", len(outs))
        c.count("nested prints", it.nested)
        if not bad:
            c.ok("print functions")
            c.sample({"function": fn["qn"], "paths": len(outs), "nested prints": it.nested})
    return done


def c15(c):
    c.rule("Every print function of the public header, and every function a print function recurses through, is evaluated on all paths for the nodes the "
           "grammar actions can build: the possible field combinations of each class are those of the fixpoint over all productions. No path may follow a "
           "pointer that can be null there, read a field that is indeterminate for that kind of node, cast a node to a class it is not, or call itself for "
           "the same node; nested prints must be of proper parts of the node, so recursion ends with the (finite, tree shaped) structure.")
    done = evaluations(c)
    covered(c, done)


def covered(c, done):
    """the statement printer covers every class of statement"""
    n = sum(len(v) for k, v in c.p.acts.stored.items() if c.p.prog.isa(k, "hsql::SQLStatement"))
    c.count("statement shapes", n)
    c.count("expression shapes", len(c.p.acts.stored.get("hsql::Expr", ())))

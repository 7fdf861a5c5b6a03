"""Abstract evaluation of grammar actions and the fixpoint of the values nonterminals can have."""
import itertools

from absint import (Infeasible, Interp, NULL, Obj, State, UNINIT, Unsupported, VOID, flatten_switch, kindof, pointee, strip, targ)

LHS = "$$"


def walk(n, pred, out):
    if isinstance(n, dict):
        if pred(n):
            out.append(n)
        for v in n.values():
            walk(v, pred, out)
    elif isinstance(n, list):
        for v in n:
            walk(v, pred, out)
    return out


class Val:
    """What is known of the value of a nonterminal."""

    def __init__(self):
        self.null = False
        self.nn = False
        self.shapes = set()      # class values: candidate shapes
        self.consts = set()      # scalars: known constants; None when unknown
        self.content = False
        self.uninit = False
        self.topped = False      # some production of it could not be evaluated
        self.lens = set()

    def snap(self):
        return (self.null, self.nn, frozenset(self.shapes), None if self.consts is None else frozenset(self.consts), self.uninit, self.topped,
                None if self.lens is None else frozenset(self.lens))


class Outcome:
    __slots__ = ("st", "ctl", "val", "rule", "freed")

    def __init__(self, st, ctl, val):
        self.st, self.ctl, self.val = st, ctl, val


class Actions(Interp):
    partial = True
    MAXSHAPES = 160

    def __init__(self, prog, grammar):
        Interp.__init__(self, prog)
        self.g = grammar
        self.fn = prog.fn("hsql_parse")
        if self.fn is None:
            raise Unsupported("hsql_parse")
        sw = walk(self.fn["body"], lambda n: n.get("k") == "Switch" and n["cond"].get("k") in ("Cast", "Ref"), [])
        self.switch_node = max(sw, key=lambda s: len(s["body"].get("c", ())))
        self.cases = {}
        body = flatten_switch(self.switch_node["body"])
        for i, (labels, _) in enumerate(body):
            for l in labels:
                if l != "default":
                    for n in range(l[0], l[1] + 1):
                        self.cases[n - 1] = [s for _, s in body[i:]]
        self.names = {}
        for d in walk(self.fn["body"], lambda n: n.get("k") == "Decl", []):
            for v in d["c"]:
                self.names.setdefault(v["id"], v["name"])
        for p in self.fn["params"]:
            self.names[p["id"]] = p["name"]
        self.ids = {}
        for d in self.fn["body"]["c"]:
            if d["k"] == "Decl":
                for v in d["c"]:
                    self.ids[v["name"]] = v["id"]
        self.ids["result"] = self.fn["params"][0]["id"]
        self.ids["scanner"] = self.fn["params"][1]["id"]
        self.destruct = prog.fn("yydestruct")
        union = prog.records.get("HSQL_STYPE") or prog.records.get("YYSTYPE")
        self.utype = {f["name"]: f["t"] for f in union["fields"]}
        self.summaries["hsql_error"] = yyerror_summary
        self.V = {}
        self.stored = {}
        self.param_holders = grammar.contains("param_expr") if "param_expr" in grammar.by_lhs else set()

    # ------------------------------------------------------------ variables of the generated parser
    def special_ref(self, e, st):
        n = self.names.get(e.get("id"))
        if n is None or st.depth:
            return None
        return None

    def special_member(self, e, st):
        b = e["b"]
        if e.get("parent") not in ("HSQL_STYPE", "YYSTYPE"):
            return None
        if b["k"] == "Ref" and b["name"] == "yyval":
            return self.cell(st, LHS, e)
        if b["k"] == "Ref" and b["name"] == "yylval":
            raise Unsupported("yylval in an action")
        if b["k"] == "Index" and self.base_name(b["a"]) == "yyvsp":
            k = self.const(b["b"])
            if k is None:
                raise Unsupported("computed stack offset")
            f = st.flags["frame"]
            n = f[1] + k
            if n < 0 or n >= f[1]:
                pass
            return self.cell(st, n, e)
        if e.get("arrow") and b["k"] in ("Cast", "Ref") and self.base_name(b) == "yyvaluep":
            return self.cell(st, "#d", e)
        if not e.get("arrow") and b["k"] == "Un" and b.get("op") == "*" and self.base_name(b["e"]) == "yyvaluep":
            return self.cell(st, "#d", e)
        return None

    def base_name(self, e):
        while e["k"] in ("Cast", "Paren"):
            e = e["e"]
        return e.get("name") if e["k"] == "Ref" else None

    def const(self, e):
        if "cv" in e:
            return int(e["cv"])
        if e["k"] == "Int":
            return int(e["v"])
        if e["k"] == "Un" and e["op"] == "-":
            v = self.const(e["e"])
            return None if v is None else -v
        return None

    def cell(self, st, key, e):
        fr = st.flags["frame"]
        oid = fr[0]
        o = st.r(oid)
        k = ("v", key)
        m = e["name"]
        t = self.utype[m]
        v = o.f.get(k)
        if v is None or v == UNINIT:
            if self.class_kind(t):
                i = self.fresh(st, t)
                st.w(oid).f[k] = ("obj", i)
                st.w(oid).f[("m", key)] = m
                return [(st, ("o", i))]
        if isinstance(v, tuple) and v[0] == "obj":
            return [(st, ("o", v[1]))]
        mm = o.f.get(("m", key))
        if mm and mm != m and v not in (None, UNINIT) and self.utype[mm] != t:
            if not (pointee(t) and pointee(self.utype[mm])):
                raise Unsupported("union member mismatch")
        st.w(oid).f[("m", key)] = m
        return [(st, ("f", oid, k))]

    # ------------------------------------------------------------ tokens
    def token(self, st, sym, label):
        """an unknown value of a grammar symbol"""
        m = self.g.type(sym)
        if not m:
            return None
        t = self.utype[m]
        term = self.g.is_term(sym)
        v = self.V.get(sym)
        if not term and v is None:
            raise Infeasible("no value of %s yet" % sym)
        if pointee(t) is not None:
            if not term and not v.nn:
                return NULL if v.null else self.raise_inf(sym)
            null = "nonnull" if term or not v.null else "maybe"
            pt = pointee(t)
            cands = None
            if not term and (pt in self.prog.records or pt.startswith("std::pair<")):
                cands = sorted(v.shapes, key=str) or None
                if cands is None and v.topped:
                    raise Infeasible("no value of %s is known" % sym)
            p = self.opaque_ptr(st, t, label, null, cands, None, "token")
            if not term and kindof(pt) == "vec":
                o = st.w(p[1])
                if o.label and 0 in v.lens:
                    o.pre = [0, -1] if 1 in v.lens else [0]
            st.w(p[1]).tag = None
            st.flags.setdefault("syms", {})
            return p
        if self.class_kind(t):
            i = self.fresh(st, t, "sub", label, True)
            if not term:
                st.w(i).cands = sorted(v.shapes, key=str) or None
            for f in self.prog.all_fields(strip(t)):
                if pointee(f["t"]) is not None:
                    x = self.getfield(st, i, f["name"])
                    if isinstance(x, tuple) and x[0] == "ptr":
                        st.w(x[1]).alloc = "token"   # owned by whoever holds the value
            return ("obj", i)
        dom = None
        if not term and v.consts is not None:
            dom = v.consts
            if len(dom) == 1:
                return next(iter(dom))
        return self.opaque_scalar(st, t, label, None, dom)

    def raise_inf(self, sym):
        raise Infeasible("no value of %s yet" % sym)

    def start(self):
        st = State()
        st.flags["frame"] = (st.new(Obj("frame", "", "stack", "frame")), 0)
        for n in ("yyloc", "yylloc"):
            if n in self.ids:
                i = self.fresh(st, "HSQL_CUST_LTYPE", "stack", n, True)
                st.env[self.ids[n]] = ("o", i)
        r = self.opaque_ptr(st, "hsql::SQLParserResult *", "result", "nonnull")
        fo = Obj("frame", "", "stack", "result")
        fo.f["v"] = r
        st.env[self.ids["result"]] = ("f", st.new(fo), "v")
        fo = Obj("frame", "", "stack", "scanner")
        fo.f["v"] = ("sym", "scanner")
        st.env[self.ids["scanner"]] = ("f", st.new(fo), "v")
        return st

    def evaluate(self, tree, form, st=None, labels=None):
        """outcomes of the actions of a derivation tree, bottom-up and left to right"""
        st = st or self.start()
        vals = []
        for i, s in enumerate(form):
            vals.append(self.token(st, s, labels[i] if labels else "$%d" % (i + 1)))
        return self.tree(tree, vals, form, st)

    def tree(self, t, vals, form, st):
        rule, kids = t
        work = [(st, [])]
        done = []
        for k, kid in enumerate(kids):
            nxt = []
            for s, vs in work:
                if isinstance(kid, int):
                    nxt.append((s, vs + [vals[kid]]))
                    continue
                for o in self.tree(kid, vals, form, s):
                    if o.ctl == "ok":
                        nxt.append((o.st, vs + [o.val]))
                    else:
                        o.freed = [v for v in vs]
                        # bison destroys the symbols left on the stack
                        rest = [o]
                        for j in range(k):
                            sy = rule.rhs[j]
                            new = []
                            for r in rest:
                                for s2 in self.run_destructor(r.st, sy, vs[j]):
                                    new.append(Outcome(s2, r.ctl, r.val))
                            rest = new
                        done += rest
            work = nxt
        for s, vs in work:
            done += self.action(rule, vs, s)
            if len(done) > 2000:
                raise Unsupported("too many paths")
        return done

    def action(self, rule, vals, st):
        fr = Obj("frame", "", "stack", "frame")
        for i, v in enumerate(vals):
            # yyvsp[k] with k = i - n + 1; index n + k = i + 1
            fr.f[("v", i + 1)] = v if v is not None else UNINIT
            m = self.g.type(rule.rhs[i])
            if m:
                fr.f[("m", i + 1)] = m
        lt = self.g.type(rule.lhs)
        if vals and rule.rhs and self.g.type(rule.rhs[0]) == lt and lt:
            v = vals[0]
            if isinstance(v, tuple) and v[0] == "obj":
                v = ("obj", self.share(st, v[1]))
            fr.f[("v", LHS)] = v
            fr.f[("m", LHS)] = lt
        oid = st.new(fr)
        saved = st.flags["frame"]
        st.flags["frame"] = (oid, len(vals))
        st.flags["vals"] = tuple(vals)
        out = []
        stmts = self.cases.get(rule.num)
        res = self.seq(upto_break(stmts), st) if stmts is not None else [(st, None)]
        for s, ctl in res:
            s.flags["frame"] = saved
            v = s.r(oid).f.get(("v", LHS), UNINIT if lt else None)
            if ctl is None or ctl == ("break",):
                out.append(Outcome(s, "ok", v))
            elif ctl[0] == "goto" and ctl[1] in ("yyerrorlab", "yyerrlab1"):
                out.append(Outcome(s, "error", None))
            elif ctl[0] == "goto" and ctl[1] == "yyabortlab":
                out.append(Outcome(s, "abort", None))
            elif ctl[0] == "goto" and ctl[1] == "yyacceptlab":
                out.append(Outcome(s, "accept", None))
            else:
                raise Unsupported("control leaves the action of rule %d: %s" % (rule.num, ctl))
        return out

    def share(self, st, oid):
        """bitwise copy of a class value (as the parser copies semantic values)"""
        return self.copy_obj(st, oid)

    # ------------------------------------------------------------ %destructor
    def run_destructor(self, st, sym, val):
        """what the parser does to discard a symbol; returns states"""
        if val is None or not self.g.type(sym):
            return [st]
        fr = Obj("frame", "", "stack", "frame")
        fr.f[("v", "#d")] = val
        fr.f[("m", "#d")] = self.g.type(sym)
        oid = st.new(fr)
        saved, env = st.flags["frame"], st.env
        st.flags["frame"] = (oid, 0)
        st.env = {k: v for k, v in env.items() if isinstance(k, tuple)}
        ps = self.destruct["params"]
        vals = [("str", "x"), self.g.symnum(sym), ("sym", "yyvaluep"), ("ptr", 0), ("sym", "result"), ("sym", "scanner")]
        for p, v in zip(ps, vals):
            o = Obj("frame", "", "stack", p["name"])
            o.f["v"] = v
            st.env[p["id"]] = ("f", st.new(o), "v")
        out = []
        for s, ctl in self.exec(self.destruct["body"], st):
            s.flags["frame"] = saved
            s.env = dict(env)
            out.append(s)
        return out

    # ------------------------------------------------------------ shapes
    def shape_set(self, st, v, depth=0):
        """candidate shapes of an object"""
        o = st.r(v[1])
        if o.kind == "raw":
            return set()
        names = [f["name"] for f in self.prog.all_fields(o.cls)] if o.cls in self.prog.records else ["first", "second"]
        base = None
        if o.opq and o.cands is not None:
            base = [dict(c) for c in o.cands]
        elif o.opq:
            base = [{"__cls": o.cls}]
        else:
            base = [{"__cls": o.cls}]
        out = []
        for c in base:
            alts = [c]
            cls = c.get("__cls", o.cls)
            c.setdefault("__cls", cls)
            if o.opq:
                todo = [n for n in o.f if n in o.wr]
            else:
                todo = names
            for n in todo:
                stts = self.field_status(st, v[1], n)
                if len(stts) == 1:
                    for a in alts:
                        a[n] = stts[0]
                else:
                    alts = [dict(a, **{n: x}) for a in alts for x in stts]
                    if len(alts) > self.MAXSHAPES:
                        for a in alts:
                            a[n] = "any"
                        alts = [dict(t) for t in {frozenset(a.items()) for a in alts}]
            for n in list(o.f):
                e = self.emptiness(st, o.f[n])
                if e is None:
                    continue
                for a in list(alts):
                    a.pop("#" + n, None)
                    if e == {True}:
                        a["#" + n] = "empty"
                    elif e == {True, False}:
                        alts.append(dict(a, **{"#" + n: "empty"}))
            out += alts
        return {frozenset(a.items()) for a in out}

    def emptiness(self, st, x):
        """can a list that a field points to be empty, can it be not empty"""
        if not (isinstance(x, tuple) and x[0] == "ptr") or x[1] not in st.heap:
            return None
        l = st.r(x[1])
        if l.kind != "vec" or l.null == "null":
            return None
        if l.items:
            return {False}
        if l.pre is None:
            return {True}
        if isinstance(l.pre, (list, tuple)):
            return {n == 0 for n in l.pre}
        return {False}

    def field_status(self, st, oid, n):
        o = st.r(oid)
        x = o.f.get(n)
        try:
            t = o.ft.get(n) or self.fieldtype(o.cls, n)
        except Unsupported:
            return ["any"]
        if x is None:
            if self.class_kind(t):
                return ["any"]
            return ["uninit"]
        if x == UNINIT:
            return ["uninit"]
        if x == NULL:
            return ["null"]
        if isinstance(x, tuple) and x[0] == "ptr":
            nl = st.r(x[1]).null
            return [{"null": "null", "nonnull": "nn", "maybe": "maybe"}[nl]]
        if isinstance(x, tuple) and x[0] in ("str", "cs", "cptr", "pl"):
            return ["nn"]
        if isinstance(x, tuple) and x[0] == "obj":
            return ["uninit"] if self.any_uninit(st, x[1]) else ["any"]
        if strip(t) in self.prog.enums or strip(t) == "bool":
            if isinstance(x, int):
                return [("c", x)]
            d = st.dom.get(x)
            if d and d[0] == "in" and len(d[1]) <= 24:
                return [("c", y) for y in sorted(d[1])]
            return ["any"]
        if pointee(t) is not None and x == 0:
            return ["null"]
        return ["any"]

    def any_uninit(self, st, oid):
        o = st.r(oid)
        if o.kind != "struct":
            return False
        if o.opq:
            if o.cands is not None and any("uninit" == s for c in o.cands for _, s in c):
                return True
            names = list(o.f)
        else:
            names = [f["name"] for f in self.prog.all_fields(o.cls)] if o.cls in self.prog.records else ["first", "second"]
        for n in names:
            x = o.f.get(n)
            if x is None:
                if not self.class_kind(self.fieldtype(o.cls, n)):
                    return True
            elif x == UNINIT:
                return True
            elif isinstance(x, tuple) and x[0] == "obj" and self.any_uninit(st, x[1]):
                return True
        return False

    def reachable(self, st, v, seen=None):
        """objects reachable from a value: yields (oid, path, attached)"""
        seen = seen if seen is not None else set()
        stack = [(v, "$$", False)]
        while stack:
            x, path, att = stack.pop()
            if not (isinstance(x, tuple) and x[0] in ("ptr", "obj")):
                continue
            if x[1] in seen:
                continue
            seen.add(x[1])
            o = st.r(x[1])
            if x[0] == "ptr" and o.null == "null":
                continue
            yield x[1], path, att
            for n, y in o.f.items():
                stack.append((y, "%s.%s" % (path, n), True))
            for i, y in enumerate(o.items):
                stack.append((y, "%s[%d]" % (path, i), True))

    # ------------------------------------------------------------ fixpoint
    def solve(self, maxiter=40):
        """values of every nonterminal and shapes of every attached object"""
        self.undecided = {}
        self.results = {}
        rules = [r for r in self.g.rules if r.num and r.useful]
        uses = {}
        for r in rules:
            for s in r.rhs:
                uses.setdefault(s, set()).add(r.num)
        byclass = {}
        work = [r.num for r in rules]
        inq = set(work)
        rmap = {r.num: r for r in rules}
        readers = {}
        n = 0
        while work:
            num = work.pop(0)
            inq.discard(num)
            n += 1
            if n > 60 * len(rules):
                raise Unsupported("no fixpoint")
            r = rmap[num]
            before_v = self.V[r.lhs].snap() if r.lhs in self.V else None
            before_s = {c: len(s) for c, s in self.stored.items()}
            self.visit(r)
            after_v = self.V[r.lhs].snap() if r.lhs in self.V else None
            changed = set()
            if after_v != before_v:
                changed |= uses.get(r.lhs, set())
            grew = [c for c, s in self.stored.items() if len(s) != before_s.get(c, 0)]
            if grew:
                # rules that looked into objects of these classes, or waited for them
                for m, cl in self.looked.items():
                    if any(self.prog.isa(c, k) for c in grew for k in cl):
                        changed.add(m)
            for m in sorted(changed):
                if m not in inq:
                    inq.add(m)
                    work.append(m)
        return n

    looked = {}

    def shape_child(self, t):
        pt = pointee(t) or strip(t)
        if pt in self.prog.records:
            self.looked.setdefault(self.current, set()).add(pt)
        return Interp.shape_child(self, t)

    def visit(self, r):
        self.current = r.num
        self.faults = []
        self.reasons()
        why = None
        try:
            outs = self.evaluate((r, list(range(len(r.rhs)))), r.rhs)
        except Unsupported as x:
            outs, why = [], str(x)
        except Infeasible as x:
            outs = []
        why = why or self.reasons()
        if why:
            # some paths are given up: the others still count
            self.undecided[r.num] = why
            if not outs:
                self.results.pop(r.num, None)
                self.top(r)
                return
        else:
            self.undecided.pop(r.num, None)
        self.results[r.num] = (outs, list(self.faults))
        v = None
        for o in outs:
            if o.ctl != "ok":
                continue
            v = v or self.V.setdefault(r.lhs, Val())
            self.absorb(v, o, r)

    def top(self, r):
        """nothing is known about the value of a production: what the other productions yield has to do"""
        v = self.V.setdefault(r.lhs, Val())
        m = self.g.type(r.lhs)
        if m and pointee(self.utype[m]) is not None:
            v.nn = True
        v.topped = True
        v.consts = None

    def absorb(self, v, o, r):
        st, x = o.st, o.val
        m = self.g.type(r.lhs)
        if not m:
            v.consts = set()
            return
        t = self.utype[m]
        for oid, path, att in list(self.reachable(st, x)):
            ob = st.r(oid)
            if att and ob.kind == "struct" and ob.cls in self.prog.records and ob.alloc in ("new", "token", "outside", "malloc"):
                s = self.stored.setdefault(ob.cls, set())
                for sh in self.shape_set(st, ("ptr", oid)):
                    self.stored.setdefault(dict(sh).get("__cls", ob.cls), set()).add(sh)
        if x == UNINIT:
            v.uninit = True
        elif x == NULL:
            v.null = True
        elif isinstance(x, tuple) and x[0] == "ptr":
            ob = st.r(x[1])
            if ob.null != "null":
                v.nn = True
            if ob.null != "nonnull":
                v.null = True
            if ob.kind == "struct" and ob.null != "null":
                v.shapes |= self.shape_set(st, x)
            for e in self.emptiness(st, x) or ():
                v.lens.add(0 if e else 1)
        elif isinstance(x, tuple) and x[0] == "obj":
            v.shapes |= self.shape_set(st, x)
        elif isinstance(x, int):
            if v.consts is not None:
                v.consts.add(x)
                if len(v.consts) > 40:
                    v.consts = None
        elif pointee(t) is not None:
            v.nn = True
        else:
            d = st.dom.get(x)
            if d and d[0] == "in" and v.consts is not None and len(d[1]) <= 40:
                v.consts |= set(d[1])
            else:
                v.consts = None


def upto_break(stmts):
    out = []
    for s in stmts:
        out.append(s)
        if s["k"] == "Break":
            break
    return out


def yyerror_summary(it, st, e):
    """yyerror: records the message in the result (its own body is checked separately)"""
    def run():
        for s, vs in it.evs(e["c"], st):
            s.out.append(("yyerror", it.content(s, vs[-1]) if not (isinstance(vs[-1], tuple) and vs[-1][0] == "sym") else vs[-1], e.get("l", 0)))
            msg = Obj("cstr", "char", "outside", "error message", True)
            r = vs[1]
            if isinstance(r, tuple) and r[0] == "ptr":
                p = ("ptr", s.new(msg))
                w = s.w(r[1])
                w.f["errorMsg_"] = p
                w.f["isValid_"] = 0
            yield s, 0
    return run()

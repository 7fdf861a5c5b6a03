"""C24: tokenizing, parsing, printing and destroying come to an end.

Lexer: every action consumes text, and the end of the text is followed by token 0 whatever state the scanner is in.
Parser: no sequence of reductions goes on for ever without reading a token.
Code: the loops and recursions of the actions, the destructors and the entry points."""
import entry
import lexing
import memory
import printing
import result
from absint import Unsupported, recursive
from lr import Forms, Refused

ANY = ("For", "While", "Do", "RangeFor")


def c24(c):
    c.rule("Scanner: every rule that can be chosen matches at least one byte, and from every start condition that some text reaches, the actions for the end of "
           "the text deliver token 0 after finitely many others. Parser: for every lookahead token, the reductions made without reading a token end, from every "
           "state of the automaton (a cycle of unit or empty productions does not). Code: no loop of an "
           "action, destructor, accessor or entry point has a condition nothing in it changes, counts away from its bound, compares a counter with a bound its type does not "
           "reach, or extends what it ranges over, and no loop or call met when the entry points, actions, destructors, print functions and operations of the "
           "result are evaluated goes round with nothing changed that decides about its end; destructors and print functions call themselves for proper parts only (which the trees' construction makes finite).")
    scanner(c)
    parser(c)
    tokenize(c)
    loops(c)


# ---------------------------------------------------------------- scanner
def scanner(c):
    p, err = lexing.product(c)
    if p is None:
        c.undecide("scanner", err)
        return
    impl = p.impl
    reps = lexing.partition(impl, p.spec)
    conds = reached(c, p)
    for cond in sorted(conds):
        a = impl.accept(impl.begin(cond))
        stuck = [b for b in reps if impl.step(impl.begin(cond), b) is None]
        c.count("start conditions")
        if a is not None and stuck:
            c.violation("empty match|%d" % cond, "src/parser/flex_lexer.l", "a rule matches the empty text, so that the scanner never gets past %s%s" % (
                lexing.show(bytes(stuck[:1])), conds[cond]))
        # end of the text
        seen, at, ended = [], cond, None
        frontier = [(cond, ())]
        ok = True
        visited = {cond}
        while frontier:
            at, path = frontier.pop()
            try:
                effs = impl.effect(impl.eob + (at - 1) // 2 + 1, at)
            except Unsupported as x:
                c.undecide("end of text in start condition %d" % at, str(x))
                ok = False
                break
            for s, e in effs:
                if not isinstance(e["token"], int) and e["token"] is not None:
                    c.undecide("end of text in start condition %d" % at, "token %s" % (e["token"],))
                    ok = False
                    continue
                if e["token"] is not None and e["token"] <= 0:
                    continue
                if e["next"] == at or e["next"] in [x for x, _ in path]:
                    toks = [t for _, t in path] + [e["token"]]
                    names = [impl.tokens.get(t, str(t)) for t in toks if t is not None]
                    c.violation("end of text|%d" % cond, "src/parser/flex_lexer.l", "at the end of the text%s the scanner delivers %s without end" % (
                        conds[cond], " ".join(names) if names else "nothing, going round"))
                    ok = False
                    continue
                if e["next"] not in visited:
                    visited.add(e["next"])
                    frontier.append((e["next"], path + ((at, e["token"]),)))
        if ok:
            c.ok("ends of the text")


def reached(c, p):
    """start conditions some text leads to: {condition: how}"""
    impl = p.impl
    out = {p.start: ""}
    work = [p.start]
    reps = lexing.partition(impl, p.spec)
    while work:
        cond = work.pop()
        seen = {impl.begin(cond): b""}
        q = [impl.begin(cond)]
        for s in q:
            for b in reps:
                n = impl.step(s, b)
                if n is not None and n not in seen:
                    seen[n] = seen[s] + bytes([b])
                    q.append(n)
        acts = {}
        for s, w in seen.items():
            a = impl.accept(s)
            if a is not None and w:
                acts.setdefault(a, w)
        c.count("lexer states", len(seen))
        for a, w in sorted(acts.items()):
            for s, e in p.effect(a, cond):
                if e["next"] not in out:
                    out[e["next"]] = " (start condition %d, reached by %s)" % (e["next"], lexing.show(w))
                    work.append(e["next"])
    for a, why in p.unknown.items():
        c.undecide("scanner action %s" % a, why)
    return out


# ---------------------------------------------------------------- parser
def parser(c):
    g = c.p.grammar
    f = Forms(g)
    limit = 4 * len(g.states) + 200
    n = 0
    bad = set()
    for s in range(len(g.states)):
        for t in g.terminals:
            for stack in [[(s, None)]] + [[(s, None), (x, None)] for x in g.states[s]["goto"].values()]:
                n += 1
                did = []
                st = list(stack)
                for i in range(limit):
                    a = f.act(st[-1][0], t)
                    if a is None or a[0] == "s" or a[1] == 0:
                        break
                    r = g.rules[a[1]]
                    if len(r.rhs) >= len(st):
                        break
                    did.append(r)
                    k = len(r.rhs)
                    st = st[:len(st) - k]
                    to = g.states[st[-1][0]]["goto"].get(r.lhs)
                    if to is None:
                        break
                    st = st + [(to, None)]
                else:
                    cyc = sorted({"%s: %s" % (r.lhs, " ".join(r.rhs) or "%empty") for r in did[-50:]})
                    key = "|".join(cyc)
                    if key not in bad:
                        bad.add(key)
                        c.violation("reductions|" + key[:120], "src/parser/bison_parser.y", "before the token %s the parser applies %s for ever" % (t, " and ".join(cyc[:4])))
    c.count("automaton configurations", n)
    if not bad:
        c.ok("automaton")
    err = [r for r in g.rules if r.useful and "error" in r.rhs]
    for r in err:
        c.undecide("%s: %s" % (r.lhs, " ".join(r.rhs)), "error recovery reads on after an error")


# ---------------------------------------------------------------- tokenize
def tokenize(c):
    for fn, label, it, outs, faults in entry.each(c, entry.TOKENIZE + entry.PARSE):
        if outs:
            c.ok("entry points")


# ---------------------------------------------------------------- loops
NARROW = {"char": 127, "signed char": 127, "unsigned char": 255, "short": 32767, "unsigned short": 65535, "int8_t": 127, "uint8_t": 255, "int16_t": 32767,
          "uint16_t": 65535}
UNSIGNED = ("unsigned", "size_t", "uint", "size_type")
SIZES = ("size", "length", "strlen", "max_size", "capacity")
GROW = ("push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front", "resize", "erase", "clear", "pop_back", "append")
PURE = SIZES + ("empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "back", "front", "at", "operator[]", "operator!=", "operator==", "operator*",
                "operator->", "c_str", "data", "get", "strcmp", "isdigit", "isspace", "isalpha", "tolower", "toupper")


def kids(n):
    for v in n.values():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n, into=lambda n: True):
    yield n
    if into(n):
        for k in kids(n):
            yield from walk(k, into)


def bare(e):
    while isinstance(e, dict) and (e.get("k") == "Cast" or e.get("k") == "Paren"):
        e = e["e"]
    return e


def key(e):
    """an expression without its positions"""
    e = bare(e)
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k == "Ref":
        return ("ref", e.get("id"), e["name"])
    if k == "This":
        return ("this",)
    if k == "Member":
        b = bare(e["b"])
        if isinstance(b, dict) and b.get("k") == "Un" and b.get("op") == "*":
            b = b["e"]
        return ("member", key(b), e["name"])
    if k == "Un" and e.get("op") in ("*", "&"):
        return (e["op"], key(e["e"]))
    if k == "Int":
        return ("int", e.get("v"))
    return ("?", id(e))


def constant(e):
    e0 = e
    while isinstance(e, dict):
        if e.get("cv") is not None:
            try:
                return int(e["cv"])
            except ValueError:
                return None
        if e.get("k") == "Bool":
            return 1 if e.get("v") in (True, "true", 1, "1") else 0
        if e.get("k") == "Int":
            return int(e["v"])
        if e.get("k") != "Cast":
            break
        e = e["e"]
    return None


class Loop:
    """one loop: what its condition reads, what its body changes, and how it can be left"""

    def __init__(self, n, prog):
        self.n = n
        self.prog = prog
        self.cond = n.get("cond")
        self.parts = [x for x in (n.get("body"), n.get("inc")) if x]
        self.exits = self.leaves(n.get("body"), 0, 0)
        self.writes, self.calls, self.taken = {}, [], set()
        for p in self.parts + ([self.cond] if self.cond else []):
            for x in walk(p):
                k = x.get("k")
                if k in ("Assign", "CAssign"):
                    self.writes.setdefault(self.target(x["a"]), []).append(x)
                elif k == "Un" and x.get("op") in ("++", "--"):
                    self.writes.setdefault(self.target(x["e"]), []).append(x)
                elif k == "Un" and x.get("op") == "&":
                    self.taken.add(self.target(x["e"]))
                elif k in ("Call", "New", "Construct", "Delete"):
                    self.calls.append(x)
                    for a in x.get("c", ()):
                        if a.get("lv"):
                            self.taken.add(self.target(a))
                elif k == "Lambda":
                    self.taken.add(None)
                elif k == "Decl":
                    for v in x["c"]:
                        self.writes.setdefault(("ref", v.get("id"), v.get("name")), []).append(v)
                if k in ("RangeFor", "If", "While", "For", "Switch") and x.get("var"):
                    self.writes.setdefault(("ref", x["var"].get("id"), x["var"].get("name")), []).append(x["var"])

    def target(self, e):
        k = key(e)
        return k

    def leaves(self, n, loops, switches):
        """can the loop be left from within its body"""
        if not isinstance(n, dict):
            return False
        k = n.get("k")
        if k in ("Return", "Goto", "Throw", "Other", "Try", "Label"):
            return True
        if k == "Break":
            return loops == 0 and switches == 0
        if k == "Lambda":
            return False
        if k == "Call" and n.get("fn") in ("exit", "abort", "longjmp", "_Exit", "quick_exit"):
            return True
        if k in ANY:
            loops += 1
        if k == "Switch":
            switches += 1
        return any(self.leaves(x, loops, switches) for x in kids(n))

    def guards(self):
        """the conditions under which each of the exits from the body is taken: a list per exit; None: an exit
        of another form"""
        out = []

        def go(n, conds, loops, switches):
            if not isinstance(n, dict):
                return True
            k = n.get("k")
            if k == "Return" or k == "Break" and loops == 0 and switches == 0:
                out.append(list(conds))
                return True
            if k in ("Break", "Lambda"):
                return True
            if k in ("Goto", "Throw", "Other", "Try", "Label"):
                return False
            if k == "Call" and n.get("fn") in ("exit", "abort", "longjmp", "_Exit", "quick_exit"):
                out.append(list(conds))
                return True
            if k == "If":
                more = conds + [n.get("cond")] + ([n["var"]] if n.get("var") else [])
                return all(go(n.get(x), more, loops, switches) for x in ("then", "else"))
            if k in ANY:
                loops += 1
                conds = conds + [n.get("cond") or n.get("range")]
            if k == "Switch":
                switches += 1
                conds = conds + [n.get("cond")]
            return all(go(x, conds, loops, switches) for x in kids(n))
        return out if go(self.n.get("body"), [], 0, 0) else None

    def reads(self, cond):
        """(keys of the variables the condition reads, is that all it depends on)"""
        out, whole = set(), True
        for x in walk(cond):
            k = x.get("k")
            if k == "Ref":
                if x.get("dk") == "enum" or x.get("dk") == "fn":
                    continue
                if x.get("dk") != "var":
                    whole = False
                out.add(key(x))
            elif k == "This":
                out.add(key(x))
            elif k == "Member":
                out.add(key(x))
            elif k in ("Call", "New", "Construct", "Delete", "Assign", "CAssign", "Index", "Lambda", "Other") or k == "Un" and x.get("op") in ("++", "--", "*"):
                whole = False
        return out, whole


def local(k):
    return k and k[0] == "ref"


def hidden(k):
    return not k or k[0] == "?" or k[0] == "*"


def judge(l):
    """None (ends, as far as this analysis can tell), ("bad", text) or ("?", text)"""
    n = l.n
    kind = n["k"]
    if kind == "RangeFor":
        r = key(n["range"])
        for x in l.calls:
            if x.get("obj") is not None and x.get("fn") in GROW:
                o = key(x["obj"])
                if r == o or r == ("*", o):
                    if l.exits:
                        return ("?", "changes the container it ranges over")
                    return ("bad", "%s changes the container the loop ranges over" % x["fn"])
        return None
    c = constant(l.cond) if l.cond is not None else 1
    if c is not None:
        if c == 0:
            return None
        if not l.exits:
            return ("bad", "its condition is always true and nothing leaves it")
        g = l.guards()
        if g is None:
            return ("?", "is left from within only")
        names = set()
        for conds in g:
            fixed = [stuck(l, x) for x in conds if isinstance(x, dict)]
            if not fixed or not all(x is not None for x in fixed):
                return None
            names |= {n for x in fixed for n in x}
        return ("bad", "nothing in it changes %s, which leaving it depends on" % " or ".join(sorted(names) or ["anything"]))
    b = bare(l.cond)
    out = None
    if b.get("k") == "Bin" and b.get("op") in ("<", "<=", ">", ">=", "!="):
        out = counter(l, b)
        if out and out[0] == "bad":
            return out if not l.exits else ("?", out[1])
    if l.exits:
        return out
    names = stuck(l, l.cond)
    if names is None:
        return out
    return ("bad", "nothing in it changes %s, which its condition depends on" % " or ".join(names or ["anything"]))


def stuck(l, cond):
    """the names a condition depends on when nothing in the loop can change its value; otherwise None"""
    reads, whole = l.reads(cond)
    if not whole:
        return None
    members = [k for k in reads if not local(k)]
    if any(hidden(w) or w[0] == "member" for w in l.writes if not local(w)) and members:
        return None
    if members and any(x.get("k") != "Call" or x.get("fn") not in PURE for x in l.calls):
        return None
    if None in l.taken:
        return None
    if any(k in l.writes or k in l.taken or ("&", k) in l.taken for k in reads):
        return None
    if any(hidden(w) for w in l.writes) and any(escapes(l, k) for k in reads):
        return None
    if any(escapes(l, k) for k in reads) and l.calls:
        return None
    return sorted(k[2] for k in reads if k[0] in ("ref", "member"))


def escapes(l, k):
    """can a variable be changed other than by name"""
    return local(k) and l.escaped.get(k, True)


def counter(l, b):
    """loops over a counter: direction and width"""
    for a, o, op in ((b["a"], b["b"], b["op"]), (b["b"], b["a"], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(b["op"], b["op"]))):
        k = key(a)
        if not local(k) or k not in l.writes or k in l.taken or l.escaped.get(k, True):
            continue
        steps = set()
        for w in l.writes[k]:
            if w["k"] == "Un":
                steps.add(w["op"])
            elif w["k"] == "CAssign" and w.get("op") in ("+=", "-=", "+", "-"):
                v = constant(w["b"])
                if v is None or v == 0:
                    steps.add("?")
                else:
                    steps.add("++" if (v > 0) == (w["op"][0] == "+") else "--")
            else:
                steps.add("?")
        if "?" in steps or len(steps) != 1:
            continue
        step = steps.pop()
        t = bare(a).get("t", "").replace("const ", "").strip()
        uns = any(t.startswith(x) or x in t for x in UNSIGNED) and "*" not in t
        bound = constant(o)
        if key(o) in l.writes:
            continue
        if "*" in t or "iterator" in t:
            continue
        if op in ("<", "<=") and step == "--" and not uns:
            return ("bad", "%s is counted down while the loop goes on below its bound" % k[2])
        if op in (">", ">=") and step == "++" and not uns:
            return ("bad", "%s is counted up while the loop goes on above its bound" % k[2])
        if uns and bound == 0 and op == ">=":
            return ("bad", "%s is never below 0" % k[2])
        most = NARROW.get(t)
        if most is not None and step == "++" and op in ("<", "<=", "!="):
            if bound is not None:
                if bound > most or op == "<=" and bound == most:
                    return ("bad", "%s (%s) does not reach %d" % (k[2], t, bound))
            else:
                x = bare(o)
                if x.get("k") == "Call" and x.get("fn") in SIZES:
                    return ("bad", "%s (%s) starts again at 0 for more than %d elements" % (k[2], t, most))
        return None
    return None


def loops(c):
    prog = c.p.prog
    n = 0
    for fn, nodes in code(c):
        escaped = {("ref", x["id"], x["name"]): True for x in fn["params"] if x.get("ref")}
        for top in nodes:
            for x in walk(top):
                if x.get("k") == "Un" and x.get("op") == "&" or x.get("k") == "Lambda":
                    for y in walk(x):
                        if y.get("k") == "Ref":
                            escaped[key(y)] = True
                elif x.get("k") == "Ref":
                    escaped.setdefault(key(x), bool(x.get("glob")))
                elif x.get("id") is not None and x.get("ref") and x.get("k") != "Ref":
                    escaped[("ref", x["id"], x["name"])] = True
                    for y in walk(x):
                        if y.get("k") == "Ref":
                            escaped[key(y)] = True
        seen = set()
        for top in nodes:
            for x in walk(top):
                if x.get("k") in ANY and id(x) not in seen:
                    seen.add(id(x))
                    n += 1
                    l = Loop(x, prog)
                    l.escaped = escaped
                    r = judge(l)
                    where = "src/%s:%s (%s)" % (fn.get("f", "?"), x.get("l", "?"), fn["qn"])
                    if r is None:
                        c.ok("loops")
                    elif r[0] == "bad":
                        c.violation("%s|loop|%s" % (fn["qn"], r[1]), where, "the loop does not end: " + r[1])
                    else:
                        c.undecide("loop at " + where, r[1])
    c.count("loops", n)
    evaluated(c)


def evaluated(c):
    """loops and calls that were found to go round unchanged when the code was evaluated"""
    a = c.p.acts
    for r, outs, faults in memory.rule_runs(c):
        for o in outs:
            try:
                memory.destroyed(a, r, o)
                c.count("outcomes destroyed")
            except Unsupported as x:
                c.undecide("destruction of " + r.lhs, str(x))
    result.operations(c, ())
    printing.evaluations(c, ("loop",))
    for where, msg in sorted(set(c.p.prog.__dict__.get("endless_at", ()))):
        c.violation("endless|%s" % msg, where, msg)
    c.count("functions that call themselves", len(recursive(c.p.prog)))


def code(c):
    """(function, statements): everything written by hand"""
    for f in sorted(c.p.prog.functions.values(), key=lambda f: (f.get("f") or "", f.get("l") or 0)):
        if not f.get("body"):
            continue
        if f["qn"] == "hsql_parse":
            yield f, [s for stmts in c.p.acts.cases.values() for s in stmts]
        elif f["qn"] == "hsql_lex":
            p, err = lexing.product(c)
            if p is not None:
                yield f, [x for labels, x in p.impl.body if not any(l != "default" and l[0] <= p.impl.eob <= l[1] for l in labels)]
        elif (f.get("f") or "").rsplit("/", 1)[-1] in ("bison_parser.cpp", "flex_lexer.cpp"):
            continue
        else:
            yield f, [f["body"]]

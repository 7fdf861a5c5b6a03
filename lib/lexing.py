"""Lexical rules: the generated automaton and the lexer actions against an independent description of the dialect.

The automaton is read from the tables of the generated scanner, the effect of every action is obtained by abstract
interpretation of its statements (all paths, the matched text symbolic), and the product of this transducer with one
built from the description below is explored completely: every reachable pair of states, every byte. Where the two are
cut differently (one rule per blank instead of one per run of blanks, say), the witness text of the pair is cut by
both, and only a difference in what the parser would be given counts."""
from collections import deque

from absint import INTW, Infeasible, Interp, NULL, Obj, State, UNINIT, Unsupported, flatten_switch, strip

WORDS = """ADD AFTER ALL ALTER ANALYZE AND ARRAY AS ASC BEFORE BEGIN BETWEEN BIGINT BOOLEAN BY CALL CASCADE CASE CAST CHAR
COLUMN COLUMNS COMMIT CONTROL COPY CREATE CROSS DATE DATETIME DAY DAYS DEALLOCATE DECIMAL DEFAULT DELETE DELTA DESC DESCRIBE
DIRECT DISTINCT DOUBLE DROP ELSE ENCODING END ESCAPE EXCEPT EXECUTE EXISTS EXPLAIN EXTRACT FALSE FILE FLOAT FOLLOWING FOR
FOREIGN FORMAT FROM FULL GLOBAL GROUP GROUPS HASH HAVING HINT HOUR HOURS IF ILIKE IMPORT IN INDEX INNER INSERT INT INTEGER
INTERSECT INTERVAL INTO IS ISNULL JOIN KEY LEFT LIKE LIMIT LOAD LOCAL LOCKED LONG MERGE MINUS MINUTE MINUTES MONTH MONTHS
NATURAL NO NOT NOWAIT NULL NVARCHAR OF OFF OFFSET ON OR ORDER OUTER OVER PARAMETERS PARTITION PLAN PRECEDING PREPARE PRIMARY
RANGE REAL REFERENCES RENAME RESTRICT RIGHT ROLLBACK ROWS SCHEMA SCHEMAS SECOND SECONDS SELECT SET SHARE SHOW SKIP SMALLINT
SORTED SPATIAL TABLE TABLES TEMPORARY TEXT THEN TIME TIMESTAMP TO TOP TRANSACTION TRUE TRUNCATE UNBOUNDED UNION UNIQUE UNLOAD
UPDATE USING VALUES VARCHAR VIEW VIRTUAL WHEN WHERE WITH YEAR YEARS""".split()
SYMBOLS = {"==": "EQUALS", "!=": "NOTEQUALS", "<>": "NOTEQUALS", "<=": "LESSEQ", ">=": "GREATEREQ", "||": "CONCAT"}
CHARS = "-+*/(){},.;<>=^%:?[]|"
TEXT = ("tok", "yytext")
BUF = ("tok", "static strbuf")
MAIN, STR = "main", "string"


# ---------------------------------------------------------------- description of the dialect as a transducer
def chars(s):
    return frozenset(s if isinstance(s, bytes) else s.encode())


ALLB = frozenset(range(256))
BLANK = chars(" \t\n")
DIGIT = chars("0123456789")
ALPHA = frozenset(range(65, 91)) | frozenset(range(97, 123))
WORDCH = ALPHA | DIGIT | chars("_")


class Nfa:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.edge = {}
        self.acc = {}
        self.start = {}
        self.memo = {}

    def state(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def frag(self, r, a):
        """builds r from state a, returns its end"""
        if isinstance(r, frozenset):
            b = self.state()
            self.edge.setdefault(a, []).append((r, b))
            return b
        if isinstance(r, str):
            for ch in r.encode():
                a = self.frag(frozenset((ch, ch ^ 32)) if ch in ALPHA else frozenset((ch,)), a)
            return a
        if r[0] == "cat":
            for x in r[1:]:
                a = self.frag(x, a)
            return a
        if r[0] in ("*", "+"):
            if r[0] == "+":
                a = self.frag(r[1], a)
            m = self.state()
            self.e(a, m)
            b = self.frag(r[1], m)
            self.e(b, m)
            z = self.state()
            self.e(m, z)
            return z
        raise AssertionError(r)

    def rule(self, cond, r, action):
        s = self.start.setdefault(cond, self.state())
        m = self.state()
        self.e(s, m)
        self.acc[self.frag(r, m)] = (len(self.acc), action)

    def closure(self, states):
        seen, work = set(states), list(states)
        while work:
            for t in self.eps.get(work.pop(), ()):
                if t not in seen:
                    seen.add(t)
                    work.append(t)
        return frozenset(seen)

    def begin(self, cond):
        return self.closure([self.start[cond]])

    def step(self, s, b):
        k = (s, b)
        if k not in self.memo:
            self.memo[k] = self.closure({t for q in s for r, t in self.edge.get(q, ()) if b in r})
        return self.memo[k]

    def accept(self, s):
        a = [self.acc[q] for q in s if q in self.acc]
        return min(a)[1] if a else None

    def sets(self):
        return {r for l in self.edge.values() for r, _ in l}


def describe():
    n = Nfa()
    R = n.rule
    R(MAIN, ("cat", "--", ("*", ALLB - chars("\n\0"))), ("skip",))
    R(MAIN, ("+", BLANK), ("skip",))
    for w in WORDS:
        R(MAIN, w, ("token", w))
    R(MAIN, ("cat", "CURRENT", ("+", BLANK), "ROW"), ("token", "CURRENT_ROW"))
    R(MAIN, ("cat", "CHARACTER", ("+", BLANK), "VARYING"), ("token", "CHARACTER_VARYING"))
    for s, t in SYMBOLS.items():
        R(MAIN, s, ("token", t))
    for ch in CHARS:
        R(MAIN, frozenset((ord(ch),)), ("char", ord(ch)))
    R(MAIN, ("cat", ("+", DIGIT), ".", ("*", DIGIT)), ("float",))
    R(MAIN, ("cat", ".", ("*", DIGIT)), ("float",))
    R(MAIN, "-9223372036854775808", ("least",))
    R(MAIN, ("+", DIGIT), ("int",))
    R(MAIN, ("cat", '"', ("+", ALLB - chars('"\n\0')), '"'), ("quoted",))
    R(MAIN, ("cat", ALPHA, ("*", WORDCH)), ("ident",))
    R(MAIN, "'", ("open",))
    R(MAIN, ALLB, ("invalid",))
    R(STR, "''", ("quote",))
    R(STR, ("+", ALLB - chars("'\0")), ("chunk",))
    R(STR, "'", ("close",))
    R(STR, frozenset((0,)), ("invalid",))
    return n


class Spec:
    """the described transducer"""

    def __init__(self):
        self.n = describe()

    def begin(self, cond):
        return self.n.begin(cond)

    def step(self, s, b):
        return self.n.step(s, b) or None

    def accept(self, s):
        return self.n.accept(s)

    def eof(self, cond):
        return ("end",) if cond == MAIN else ("invalid",)

    def apply(self, act, lexeme, st):
        """(token or None, stop); st is the mutable [condition, buffer]"""
        k = act[0]
        if k == "skip":
            return None, False
        if k == "token":
            return act, False
        if k == "char":
            return act, False
        if k == "open":
            st[0], st[1] = MAIN and STR, b""
            return None, False
        if k == "quote":
            st[1] += b"'"
            return None, False
        if k == "chunk":
            st[1] += lexeme
            return None, False
        if k == "close":
            st[0] = MAIN
            return ("text", "STRING", st[1]), False
        if k == "quoted":
            return ("text", "IDENTIFIER", lexeme[1:-1]), False
        if k == "ident":
            return ("text", "IDENTIFIER", lexeme), False
        if k in ("float", "least", "int"):
            return (k, lexeme), False
        return (k,), True


# ---------------------------------------------------------------- the generated automaton
class Missing(Exception):
    pass


def const(e):
    while True:
        if "cv" in e:
            return int(e["cv"])
        if e.get("k") == "Int":
            return int(e["v"])
        if e.get("k") == "Un" and e.get("op") == "-":
            return -const(e["e"])
        if "e" in e:
            e = e["e"]
            continue
        raise Missing("constant")


class Tables:
    def __init__(self, prog):
        t = {}
        for v in prog.vars.values():
            if v.get("unit") == "parser/flex_lexer.cpp" and v["name"].startswith("yy_") and v.get("arr") is not None and v.get("init"):
                t[v["name"]] = [const(x) for x in v["init"]["c"]]
                t[v["name"]] += [0] * (int(v["arr"]) - len(t[v["name"]]))
        for n in ("yy_accept", "yy_ec", "yy_base", "yy_def", "yy_nxt", "yy_chk"):
            if n not in t:
                raise Missing("table " + n)
        self.t = t
        nul = find_fn(prog, "yy_try_NUL_trans")
        c = [v for v in find(nul["body"], "Var") if v["name"] == "yy_c" and v.get("init")]
        self.nul = const(c[0]["init"]) if c else t["yy_ec"][0]
        self.states = len(t["yy_accept"])
        self.jam = self.states - 1
        self.memo = {}

    def cls(self, b):
        return self.t["yy_ec"][b] if b else self.nul

    def step(self, s, b):
        c = self.cls(b)
        k = (s, c)
        if k not in self.memo:
            t = self.t
            n = 0
            while t["yy_chk"][t["yy_base"][s] + c] != s:
                s = t["yy_def"][s]
                if s >= self.states:
                    c = t["yy_meta"][c]
                n += 1
                if n > 10000:
                    raise Missing("transition")
            r = t["yy_nxt"][t["yy_base"][s] + c]
            self.memo[k] = None if r == self.jam else r
        return self.memo[k]

    def accept(self, s):
        return self.t["yy_accept"][s] or None


def find(n, kind, out=None):
    out = [] if out is None else out
    if isinstance(n, dict):
        if n.get("k") == kind:
            out.append(n)
        for v in n.values():
            find(v, kind, out)
    elif isinstance(n, list):
        for v in n:
            find(v, kind, out)
    return out


def find_fn(prog, qn):
    for f in prog.functions.values():
        if f["qn"] == qn and f.get("body"):
            return f
    raise Missing(qn)


# ---------------------------------------------------------------- the actions
class LexRun(Interp):
    """evaluates one action; the matched text is symbolic, or k symbolic characters long"""

    def __init__(self, prog):
        Interp.__init__(self, prog)
        self.k = None
        self.log = None
        self.summaries["strlen"] = self.strlen

    def strlen(self, it, st, e):
        if self.k is None:
            return None

        def run():
            for s, v in it.ev(e["c"][0], st):
                c = it.content(s, v)
                yield s, self.k if c == TEXT else len(c[1]) if c[0] == "str" else ("app", "strlen", c)
        return run()

    def load(self, st, loc, line=0):
        v = Interp.load(self, st, loc, line)
        if self.k is not None and loc[0] == "c" and isinstance(v, tuple) and v[:3] == ("app", "char", ("cs", TEXT)):
            i = v[3]
            if not isinstance(i, int) or i > self.k:
                raise Unsupported("character %s of the text" % (i,))
            if i == self.k:
                return 0
            self.assume_eq(st, v, 0, False)
        return v

    def store(self, st, loc, v, line=0):
        if self.log is not None:
            self.log.append(loc)
        Interp.store(self, st, loc, v, line)

    def loop(self, st, cond, body, inc, limit=12, first=True, line=0, measured=True):
        if self.k is None and self.log is None:
            probe = st.copy()
            before = len(probe.trace), len(probe.atoms)
            br = list(cond(probe))
            if len(br) > 1 and "yytext" in str(br[0][0].trace[before[0]:]) + str([a for a in br[0][0].atoms if a not in st.atoms]):
                # a loop over the text: what it writes is not known afterwards
                self.log = []
                for s2, b in br:
                    if b:
                        for s3, ctl in body(s2):
                            if ctl not in (None, ("continue",), ("break",)):
                                self.log = None
                                raise Unsupported("a loop over the text leaves the action")
                            list(inc(s3))
                log, self.log = self.log, None
                for l in log:
                    if l[0] != "f" or st.r(l[1]).kind != "frame" and st.r(l[1]).cls != self.loctype:
                        raise Unsupported("a loop over the text writes %s" % (l[0],))
                for l in log:
                    st.w(l[1]).f[l[2]] = ("sym", "after the loop over the text")
                return [(st, None)]
        return Interp.loop(self, st, cond, body, inc, limit, first, line, measured)


class Impl:
    """the implemented transducer"""

    def __init__(self, c):
        self.c = c
        self.prog = c.p.prog
        self.tab = Tables(self.prog)
        self.fn = find_fn(self.prog, "hsql_lex")
        vs = {v["name"]: v for v in find(self.fn["body"], "Var")}
        for n in ("yyg",):
            if n not in vs:
                raise Missing(n)
        self.locals = vs
        sw = [s for s in find(self.fn["body"], "Switch") if any(r["name"] == "yy_act" for r in find(s["cond"], "Ref"))]
        if len(sw) != 1:
            raise Missing("action switch")
        self.body = flatten_switch(sw[0]["body"])
        self.labels = {}
        for i, (labels, _) in enumerate(self.body):
            for l in labels:
                if l != "default":
                    for v in range(l[0], l[1] + 1):
                        self.labels[v] = i
        # the action of the end of the buffer: the first label after those of the states
        eob = [v for v in self.labels if self.is_eob(v)]
        if len(eob) != 1:
            raise Missing("end of buffer action")
        self.eob = eob[0]
        if any(m["name"] == "yy_at_bol" for m in find(self.fn["body"], "Member")):
            raise Missing("beginning-of-line states")
        self.tokens = {v: n[4:] for n, (e, v) in self.prog.enumconst.items() if n.startswith("SQL_") and v >= 258}
        g = c.p.grammar
        used = set()
        for r in g.rules:
            if r.useful:
                used |= set(r.rhs)
        self.usednum = {g.terminals[x]["tok"] for x in used if x in g.terminals}
        self.stringtokens = {g.terminals[x]["tok"] for x in g.terminals if g.terminals[x]["type"] == "sval"}
        self.toktype = {g.terminals[x]["tok"]: g.terminals[x]["type"] for x in g.terminals if g.terminals[x]["type"]}
        self.effects = {}

    def is_eob(self, v):
        return any(r["name"] == "yy_amount_of_matched_text" for r in find(self.body[self.labels[v]][1], "Var"))

    def begin(self, cond):
        return cond

    def step(self, s, b):
        return self.tab.step(s, b)

    def accept(self, s):
        a = self.tab.accept(s)
        return None if a == self.eob else a

    def run(self, act, cond, k=None):
        """paths of an action: (state, control, yyg, loc, val)"""
        it = LexRun(self.prog)
        it.k = k
        st = State()
        g = it.opaque_ptr(st, self.locals["yyg"]["t"], "yyg", "nonnull")
        val = it.opaque_ptr(st, self.fn["params"][0]["t"], "yylval", "nonnull")
        loc = it.opaque_ptr(st, self.fn["params"][1]["t"], "yylloc", "nonnull")
        it.loctype = st.r(loc[1]).cls
        o = st.w(g[1])
        o.f.update({"yytext_r": ("cs", TEXT), "yyleng_r": k if k is not None else ("app", "strlen", TEXT), "yylval_r": val,
                    "yylloc_r": loc, "yy_start": cond, "yy_c_buf_p": ("sym", "yy_c_buf_p")})
        frame = Obj("frame", "", "stack", "hsql_lex")
        fi = st.new(frame)
        for n, v in self.locals.items():
            st.w(fi).f[n] = g if n == "yyg" else act if n == "yy_act" else UNINIT
            st.env[v["id"]] = ("f", fi, n)
        for p, v in zip(self.fn["params"], (val, loc, g)):
            it.bind(st, p, v)
        out = [(s, ctl, g[1], loc[1], val[1]) for s, ctl in it.switch(st, act, self.body)]
        self.c.functions |= it.functions_seen
        return it, out

    def effect(self, act, cond):
        """[(condition trace, effect)] of an action"""
        key = (act, cond)
        if key not in self.effects:
            res = []
            it, out = self.run(act, cond)
            for s, ctl, g, loc, val in out:
                if s.undecided:
                    raise Unsupported(s.undecided)
                res.append((s, self.summary(it, s, ctl, g, val, cond)))
            self.effects[key] = res
        return self.effects[key]

    def summary(self, it, s, ctl, g, val, cond):
        og = s.r(g)
        for f in og.wr:
            if f not in ("yy_start", "yy_did_buffer_switch_on_eof"):
                raise Unsupported("the action writes " + f)
        if s.issues:
            pass
        nxt = og.f.get("yy_start")
        if not isinstance(nxt, int):
            raise Unsupported("start condition")
        bufs = {}
        for k, l in s.env.items():
            if isinstance(k, tuple) and k[0] == "g" and l[0] in ("o", "f"):
                o = s.r(l[1])
                if o.alloc == "static" and o.kind in ("stream", "string") and (o.label or "").startswith("static "):
                    bufs[o.label] = o.f.get("v", ("tok", o.label))
        # buffers kept by the scanner's extra data and the like are not followed
        if ctl is None or ctl == ("break",):
            tok = None
        elif ctl[0] == "ret":
            tok = it.known(s, ctl[1])
            if tok is None:
                tok = ctl[1]
        else:
            raise Unsupported("control %s" % (ctl,))
        vals = {}
        ov = s.r(val)
        for f in ov.wr:
            v = ov.f[f]
            vals[f] = content(it, s, v)
        return {"token": tok, "vals": vals, "next": nxt, "bufs": bufs, "held": [ov.f[f] for f in ov.wr]}


def content(it, s, v):
    if isinstance(v, tuple) and v[0] in ("ptr", "str", "cs", "cptr", "null"):
        if v[0] == "ptr" and s.r(v[1]).kind == "raw":
            return ("raw",)
        return norm(it.content(s, v))
    return norm(it.term(s, v)) if not isinstance(v, int) else v


def norm(t):
    """texts as (base, characters dropped in front, characters dropped behind)"""
    if not isinstance(t, tuple):
        return t
    if t == ("cs", TEXT):
        return TEXT
    if t[0] == "val":
        return norm(t[1])
    if t[0] == "cs":
        return norm(t[1])
    if t[0] == "cat":
        return ("cat", tuple(norm(x) for x in t[1]))
    if t[0] in ("sub", "nterm", "suffix"):
        b = norm(t[1])
        off = t[2]
        if t[0] == "nterm":
            return ("unterminated", b)
        if isinstance(off, int) and (t[0] == "suffix" or len(t) > 3):
            n = length(b)
            end = 0
            if t[0] == "sub":
                end = minus(n, off, t[3])
            if end is not None:
                if off == 0 and end == 0:
                    return b
                if b == TEXT and off >= 0 and end == 0:
                    return ("slice", b, off, 0)
                if b[0] == "slice":
                    return ("slice", b[1], b[2] + off, b[3] + end)
                return ("slice", b, off, end)
            elif t[0] == "sub" and isinstance(t[3], int):
                return ("first", b, off, t[3])
        return ("?", t)
    return t


def length(b):
    if b[0] == "slice":
        return linear(("app", "strlen", b[1]), -b[2] - b[3])
    return linear(("app", "strlen", b), 0)


def linear(t, d=0):
    """(atom, offset)"""
    if isinstance(t, int):
        return None, t + d
    if isinstance(t, tuple) and t[0] == "lin":
        return linear(t[1], t[2] + d)
    if isinstance(t, tuple) and t[:2] in (("app", "+"), ("app", "-")) and len(t) == 4:
        if isinstance(t[3], int):
            return linear(t[2], d + (t[3] if t[1] == "+" else -t[3]))
        if isinstance(t[2], int) and t[1] == "+":
            return linear(t[3], d + t[2])
    if isinstance(t, tuple) and t[:2] in (("app", "trunc"), ("app", "cast")) and not (t[1] == "trunc" and INTW.get(t[2], 32) < 32):
        return linear(t[-1], d)
    if isinstance(t, tuple) and t[:2] in (("app", "strlen"), ("app", "cstrlen")):
        return (t[0], t[1], norm(t[2])), d
    return t, d


def minus(n, off, ln):
    """characters left behind: n - off - ln"""
    a, x = n
    b, y = linear(ln)
    if a == b:
        return x - off - y
    if ln in (-1, 18446744073709551615):
        return 0
    return None


# ---------------------------------------------------------------- comparison
def atoms_about_text(it_state):
    return [x for x in it_state.trace if "yytext" in str(x)]


def feasible(s, firsts, lens):
    """False when no text of the rule satisfies the conditions of the path, None when that is not known"""
    unknown = False
    for x in s.trace:
        if "yytext" not in str(x):
            continue
        if x[0] in ("==", "!=") and x[1] == ("app", "char", ("cs", TEXT), 0) and isinstance(x[2], int):
            if x[0] == "==" and x[2] not in firsts:
                return False
            if x[0] == "!=" and firsts == {x[2]}:
                return False
            continue
        if x[0] in ("atom", "not") and isinstance(x[1], tuple) and x[1][0] == "overflow":
            continue
        if x[0] in ("atom", "not") and isinstance(x[1], tuple) and x[1][0] == "<":
            a, p = linear(x[1][1])
            b, q = linear(x[1][2])
            L = ("app", "strlen", TEXT)
            lo, hi = lens
            if a == L and b is None:      # len + p < q
                m = q - p - 1             # len <= m
                if x[0] == "atom" and lo > m or x[0] == "not" and hi is not None and hi <= m:
                    return False
                continue
            if b == L and a is None:      # p < len + q
                m = p - q + 1             # len >= m
                if x[0] == "atom" and hi is not None and hi < m or x[0] == "not" and lo >= m:
                    return False
                continue
        unknown = True
    return None if unknown else True


def overflow(s):
    for x in s.trace:
        if x[0] in ("atom", "not") and isinstance(x[1], tuple) and x[1][0] == "overflow":
            return x[0] == "atom"
    return None


class Judge:
    def __init__(self, c, impl):
        self.c, self.impl = c, impl
        self.num = {n: v for v, n in impl.tokens.items()}
        self.valtype = {}
        g = c.p.grammar
        for t, d in g.terminals.items():
            self.valtype[t] = d["type"]

    def is_invalid(self, tok):
        return isinstance(tok, int) and tok > 0 and tok not in self.impl.usednum

    def compare(self, eff, s, act, one, buf, hi=None):
        """None if the effect is that of `act`, else a description ('?...' if it is not understood)"""
        i = self.impl
        k = act[0]
        tok = eff["token"]
        vals = eff["vals"]
        b = eff["bufs"].get(buf, ("tok", buf)) if buf else None

        def texts(t):
            return TEXT if one and t == ("app", "char", ("cs", TEXT), 0) else t

        def show(t):
            if isinstance(t, tuple):
                return words(t)
            return "no token" if t is None else "the end of the text" if t == 0 else i.tokens.get(t, repr(chr(t)) if isinstance(t, int) and 0 < t < 256 else str(t))
        want = {"token": lambda: self.num.get(act[1]), "char": lambda: act[1], "float": lambda: self.num.get("FLOATVAL"),
                "int": lambda: self.num.get("INTVAL"), "least": lambda: self.num.get("INTVAL"), "quoted": lambda: self.num.get("IDENTIFIER"),
                "ident": lambda: self.num.get("IDENTIFIER"), "close": lambda: self.num.get("STRING")}
        if k == "invalid":
            return None if self.is_invalid(tok) else "yields %s instead of an invalid token" % show(tok)
        if k in ("skip", "open", "quote", "chunk"):
            if tok is not None:
                return "yields %s" % show(tok)
        elif k == "int" and overflow(s):
            return None if self.is_invalid(tok) else "an integer out of range is not rejected"
        else:
            w = want[k]()
            if w is None:
                return "?token %s" % (act,)
            if tok != w:
                if k == "char" and tok == ("app", "char", ("cs", TEXT), 0):
                    return None
                if not isinstance(tok, int) and tok is not None:
                    return "?token %s" % (tok,)
                return "yields %s instead of %s" % (show(tok), show(w))
        if k in ("quoted", "ident", "close"):
            v = texts(vals.get("sval", UNINIT))
            exp = ("slice", TEXT, 1, 1) if k == "quoted" else TEXT if k == "ident" else ("tok", buf)
            if v == exp:
                return None
            if v == UNINIT:
                return "leaves the text of the token indeterminate"
            if k == "quoted" and v == TEXT:
                return "keeps the quotes"
            if isinstance(v, tuple) and v[0] == "first":
                if hi is not None and v[3] >= hi - v[2]:
                    return "?text %s" % (v,)
                return "passes on at most %d characters of the text" % v[3]
            if isinstance(v, tuple) and v[0] in ("slice", "unterminated", "tok", "str", "cat"):
                return "passes on %s" % (words(v),)
            return "?text %s" % (v,)
        if k == "int":
            v = vals.get("ival", UNINIT)
            if overflow(s) is None:
                if v in (("app", "strtoll", TEXT, 10), ("app", "strtol", TEXT, 10), ("app", "atoll", TEXT)):
                    return "does not look whether the number fits"
            if v == ("app", "strtoll", TEXT, 10):
                return None
            if isinstance(v, tuple) and v[:3] in (("app", "strtoll", TEXT), ("app", "strtoull", TEXT)) or isinstance(v, tuple) and v[:2] in (("app", "atoi"), ("app", "atoll"), ("app", "trunc")):
                return "has the value %s" % (words(v),)
            if v == UNINIT:
                return "leaves the value of the token indeterminate"
            return "?value %s" % (v,)
        if k == "least":
            v = vals.get("ival", UNINIT)
            if v == -2 ** 63 or v == ("app", "strtoll", TEXT, 10):
                return None
            return "has the value %s" % (words(v),) if isinstance(v, int) or v == UNINIT else "?value %s" % (v,)
        if k == "float":
            v = vals.get("fval", UNINIT)
            if isinstance(v, tuple) and v[:3] in (("app", "atof", TEXT), ("app", "strtod", TEXT)):
                return None
            if v == UNINIT:
                return "leaves the value of the token indeterminate"
            if "'atoi'" in str(v) or "'strtoll'" in str(v) or "'atoll'" in str(v) or "'float'" in str(v) or "'strtof'" in str(v):
                return "has the value %s" % (words(v),)
            return "?value %s" % (v,)
        if k == "open":
            if b != ("str", ""):
                return "does not start with an empty string" if b == ("tok", buf) else "?string %s" % (b,)
        if k in ("quote", "chunk"):
            exp = ("cat", (("tok", buf), ("str", "'") if k == "quote" else TEXT))
            g = norm(b) if isinstance(b, tuple) else b
            if isinstance(g, tuple) and g[0] == "cat":
                g = ("cat", tuple(texts(x) for x in g[1]))
            if g != exp:
                if isinstance(g, tuple) and g[0] in ("cat", "tok", "str"):
                    return "the string becomes %s" % (words(g),)
                return "?string %s" % (g,)
        return None


def words(t):
    if t == TEXT:
        return "the text"
    if isinstance(t, tuple) and t:
        if t[0] == "slice":
            return "%s without %s leading and %s trailing characters" % (words(t[1]), t[2], t[3])
        if t[0] == "unterminated":
            return "a string that is not terminated"
        if t[0] == "tok":
            return "the string read so far"
        if t[0] == "cat":
            return " followed by ".join(words(x) for x in t[1])
        if t[:2] == ("app", "char"):
            return "character %s of the text" % (t[3],)
        if t[0] == "app":
            return "%s(%s)" % (t[1], ", ".join(words(x) for x in t[2:]))
        if t[0] == "str":
            return repr(t[1])
    return str(t)


def show(w):
    return "".join(chr(b) if 32 <= b < 127 else "\\n" if b == 10 else "\\t" if b == 9 else "\\x%02x" % b for b in w)


def partition(impl, spec):
    sets = sorted(spec.n.sets(), key=sorted)
    rep = {}
    for b in range(256):
        k = (impl.tab.cls(b),) + tuple(b in r for r in sets)
        rep.setdefault(k, []).append(b)
    # printable representatives first
    return [min(v, key=lambda b: (not 97 <= b < 123, not 32 < b < 127, b)) for v in rep.values()]


def cut(m, text, effect, cond, limit=400):
    """token sequence of the text for a transducer"""
    out, pos = [], 0
    st = [cond, b""]
    for _ in range(limit):
        if pos >= len(text):
            break
        s = m.begin(st[0])
        best = None
        for j in range(pos, len(text)):
            s = m.step(s, text[j])
            if s is None:
                break
            a = m.accept(s)
            if a is not None:
                best = (j + 1, a)
        if best is None:
            out.append(("no rule",))
            return out
        t, stop = effect(best[1], text[pos:best[0]], st)
        pos = best[0]
        if t is not None:
            out.append(t)
        if stop:
            return out
    t = m.eof(st[0])
    out.append(t)
    return out


class Product:
    def __init__(self, c):
        self.c = c
        self.spec = Spec()
        self.impl = Impl(c)
        self.judge = Judge(c, self.impl)
        self.buf = None
        self.unknown = {}
        self.start = self.initial()

    def initial(self):
        return 1

    def bufname(self):
        """the static string collecting a string's content"""
        for v in self.impl.prog.vars.values():
            if v.get("unit") == "parser/flex_lexer.cpp" and not v.get("const") and v.get("rec") in ("std::basic_stringstream", "std::basic_ostringstream", "std::basic_string"):
                yield "static " + v["name"]

    def explore(self):
        """pairs of an accepting state and a described action, with their shortest text"""
        reps = partition(self.impl, self.spec)
        pairs = {}
        conds = deque([((self.start, MAIN), b"")])
        seen_conds = {(self.start, MAIN)}
        mism = []
        npairs = 0
        self.ranges = {}
        while conds:
            (ci, cs), prefix = conds.popleft()
            seen = {}
            q = deque([(self.impl.begin(ci), self.spec.begin(cs), b"")])
            seen[(ci, self.spec.begin(cs))] = b""
            first = {}
            while q:
                si, ss, w = q.popleft()
                for b in reps:
                    ni = self.impl.step(si, b) if si is not None else None
                    ns = self.spec.step(ss, b) if ss is not None else None
                    if ni is None and ns is None:
                        continue
                    fb = first.setdefault((ni, ns), set())
                    src = {b} if not w else first.get((si, ss), set())
                    new = not src <= fb
                    fb |= src
                    if (ni, ns) in seen:
                        if new:
                            q.append((ni, ns, seen[(ni, ns)]))
                        continue
                    seen[(ni, ns)] = w + bytes([b])
                    q.append((ni, ns, w + bytes([b])))
            npairs += len(seen)
            inf = unbounded(self, seen, reps)
            for (si, ss), w in seen.items():
                if not w:
                    continue
                ai = self.impl.accept(si) if si is not None else None
                as_ = self.spec.accept(ss) if ss is not None else None
                if ai is None and as_ is None:
                    continue
                if ai is None or as_ is None:
                    mism.append((ci, cs, prefix, w, ai, as_))
                    continue
                key = (ci, cs, ai, as_)
                p = pairs.setdefault(key, {"word": w, "first": set(), "lo": len(w), "hi": 0, "prefix": prefix})
                p["first"] |= first[(si, ss)]
                if len(w) < len(p["word"]):
                    p["word"] = w
                p["lo"] = min(p["lo"], len(w))
                p["hi"] = None if p["hi"] is None or (si, ss) in inf else max(p["hi"], len(w))
                nc = {"open": STR, "close": MAIN, "invalid": None}.get(as_[0], cs)
                if nc is None:
                    continue
                for s, e in self.effect(ai, ci):
                    if isinstance(e["token"], int) and self.judge.is_invalid(e["token"]):
                        continue
                    k = (e["next"], nc)
                    if k not in seen_conds:
                        seen_conds.add(k)
                        conds.append((k, prefix + w))
        self.seen_conds = seen_conds
        self.c.count("pairs of lexer states", npairs)
        self.c.count("bytes per pair of states", len(reps))
        return pairs, mism

    def effect(self, act, cond):
        try:
            return self.impl.effect(act, cond)
        except Unsupported as x:
            self.unknown[act] = str(x)
            return []

    # what the implementation makes of a concrete text: used to compare different cuts only
    def apply(self, act, lexeme, st):
        effs = self.impl.effect(act, st[0])
        match = []
        for s, e in effs:
            if overflow(s):
                if not lexeme.lstrip(b"-").isdigit() or -2 ** 63 <= int(lexeme) < 2 ** 63:
                    continue
            elif overflow(s) is False and lexeme.lstrip(b"-").isdigit() and not -2 ** 63 <= int(lexeme) < 2 ** 63:
                continue
            if feasible(s, {lexeme[0]}, (len(lexeme), len(lexeme))) is False:
                continue
            match.append(e)
        if len(match) != 1:
            raise Unsupported("paths of an action")
        e = match[0]
        b = e["bufs"].get(self.buf, ("tok", self.buf))
        old = st[1]
        st[0] = e["next"]
        st[1] = concrete(b, lexeme, old, self.buf)
        tok = e["token"]
        if tok is None:
            return None, False
        if tok == ("app", "char", ("cs", TEXT), 0):
            tok = lexeme[0] if lexeme[0] < 128 else -1
        if not isinstance(tok, int):
            raise Unsupported("token")
        if tok <= 0:
            return ("end",), True
        if self.judge.is_invalid(tok):
            return ("invalid",), True
        n = self.impl.tokens.get(tok)
        v = e["vals"]
        if n in ("IDENTIFIER", "STRING"):
            return ("text", n, concrete(v.get("sval", ("?",)), lexeme, old, self.buf)), False
        if n == "INTVAL":
            return ("least" if lexeme[:1] == b"-" else "int", lexeme), False
        if n == "FLOATVAL":
            return ("float", lexeme), False
        return (("token", n) if n else ("char", tok)), False

    def eof_effect(self, cond):
        e = self.effect(self.impl.eob + (cond - 1) // 2 + 1, cond)
        return e

    def cut_impl(self, text):
        m = Cutter(self)
        return cut(m, text, self.apply, self.start)

    def cut_spec(self, text):
        return cut(self.spec, text, self.spec.apply, MAIN)


class Cutter:
    def __init__(self, p):
        self.p = p

    def begin(self, c):
        return self.p.impl.begin(c)

    def step(self, s, b):
        return self.p.impl.step(s, b)

    def accept(self, s):
        return self.p.impl.accept(s)

    def eof(self, cond):
        e = self.p.eof_effect(cond)
        if len(e) != 1:
            raise Unsupported("end of text")
        t = e[0][1]["token"]
        return ("end",) if t == 0 else ("invalid",) if self.p.judge.is_invalid(t) else ("?", t)


def concrete(t, lexeme, buf, name):
    if t == TEXT:
        return lexeme
    if t == ("tok", name):
        return buf
    if isinstance(t, tuple):
        if t[0] == "str":
            return t[1].encode("latin-1")
        if t[0] == "cat":
            return b"".join(concrete(norm(x), lexeme, buf, name) for x in t[1])
        if t[0] == "slice":
            b = concrete(t[1], lexeme, buf, name)
            return b[t[2]:len(b) - t[3]]
        if t == ("app", "char", ("cs", TEXT), 0):
            return lexeme[:1]
    raise Unsupported("text %s" % (t,))


def unbounded(p, seen, reps):
    """pairs reached by arbitrarily long texts"""
    succ = {}
    for (si, ss) in seen:
        out = set()
        for b in reps:
            ni = p.impl.step(si, b) if si is not None else None
            ns = p.spec.step(ss, b) if ss is not None else None
            if (ni, ns) in seen and (ni is not None or ns is not None):
                out.add((ni, ns))
        succ[(si, ss)] = out
    # strongly connected components with a cycle, and what they reach
    index, low, stack, on, cyc = {}, {}, [], set(), set()
    n = [0]
    for root in seen:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = n[0]
        n[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, itr = work[-1]
            for w in itr:
                if w not in index:
                    index[w] = low[w] = n[0]
                    n[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in succ[v]:
                        cyc.update(comp)
    work = list(cyc)
    while work:
        for w in succ[work.pop()]:
            if w not in cyc:
                cyc.add(w)
                work.append(w)
    return cyc


def product(c):
    if "_lex" not in c.p.__dict__:
        try:
            p = Product(c)
            bufs = list(p.bufname())
            p.buf = bufs[0] if len(bufs) == 1 else None
            p.pairs, p.mism = p.explore()
            c.p._lex = p, None
        except (Missing, Unsupported) as x:
            c.p._lex = None, "%s" % x
    return c.p._lex


def automaton(c, kinds=None):
    p, err = product(c)
    if p is None:
        c.undecide("lexer automaton", err)
        return
    where = "src/parser/flex_lexer.l"
    for act, why in p.unknown.items():
        c.undecide("lexer action %s" % act, why)
    for (ci, cs, ai, as_), d in sorted(p.pairs.items(), key=str):
        if ai in p.unknown or kinds and as_[0] not in kinds:
            continue
        w = show(d["prefix"] + d["word"])
        bad = False
        one = d["hi"] == 1
        for s, e in p.effect(ai, ci):
            f = feasible(s, d["first"], (d["lo"], d["hi"]))
            if f is False:
                continue
            m = p.judge.compare(e, s, as_, one, p.buf, d["hi"])
            if m is None:
                continue
            if m.startswith("?") or f is None:
                c.undecide("text %s" % w, m + ("" if f else " under %s" % (atoms_about_text(s),)))
                bad = True
                continue
            bad = True
            c.violation("lex|%s|%s" % (as_, m[:60]), "%s action %s" % (where, ai), "a text such as `%s` (%s) %s" % (w, kindname(as_), m), None)
        if not bad:
            c.ok("rules met by the automaton")
            c.sample({"text": w, "kind": kindname(as_)})
    n = 0
    for ci, cs, prefix, w, ai, as_ in p.mism:
        text = prefix + w
        if kinds and not (prefix == b"" and (w[:1].isdigit() or w[:1] in b".-")):
            continue
        try:
            for suffix in (b"", b" x", b"\nx", b"'", b"' x"):
                a, b = p.cut_impl(text + suffix), p.cut_spec(text + suffix)
                if a != b:
                    c.violation("lex|cut|%s|%s" % (as_ and as_[0], show(w)[:20]), where,
                                "the text `%s` is cut into %s instead of %s" % (show(text + suffix), seqname(a), seqname(b)))
                    n += 1
                    break
            else:
                c.ok("texts cut differently with the same tokens")
        except Unsupported as x:
            c.undecide("text %s" % show(text), str(x))
        if n > 8:
            break
    # end of the text
    for ci, cs in sorted(p.seen_conds if not kinds else (), key=str):
        exp = p.spec.eof(cs)[0]
        try:
            effs = p.impl.effect(p.impl.eob + (ci - 1) // 2 + 1, ci)
        except Unsupported as x:
            c.undecide("end of the text", str(x))
            continue
        for s, e in effs:
            t = e["token"]
            if exp == "end" and t == 0 or exp == "invalid" and p.judge.is_invalid(t):
                c.ok("end of text")
            elif t is not None and not isinstance(t, int):
                c.undecide("end of the text", str(t))
            elif exp == "end" and cs == MAIN and ci != p.start:
                c.undecide("end of the text", "further start condition")
            else:
                c.violation("lex|eof|%s" % cs, where, "at the end of the text %s the lexer %s" % (
                    "inside a string" if cs == STR else "", "reports the end" if t == 0 else "goes on" if t is None else "yields token %s" % t))


def kindname(a):
    return {"token": "keyword or symbol %s" % (a[1:] or [""])[0], "char": "single character", "skip": "white space or comment", "float": "floating point number",
            "int": "integer", "least": "least integer", "quoted": "quoted identifier", "ident": "identifier", "open": "opening quote", "quote": "doubled quote in a string",
            "chunk": "content of a string", "close": "closing quote", "invalid": "character that is not in the dialect"}[a[0]]


def seqname(l):
    out = []
    for t in l:
        if t[0] == "text":
            out.append("%s(%s)" % (t[1], show(t[2])))
        elif t[0] == "token":
            out.append(t[1])
        elif t[0] == "char":
            out.append(repr(chr(t[1])) if 0 <= t[1] < 256 else str(t[1]))
        elif t[0] in ("int", "float", "least"):
            out.append("%s(%s)" % (t[0], show(t[1])))
        else:
            out.append(t[0])
    return "[" + " ".join(out) + "]"


def counting(c, want, what):
    """every action counts all characters of the text it consumes, in the given fields of the location"""
    p, err = product(c)
    if p is None:
        c.undecide("lexer actions", err)
        return
    where = "src/parser/flex_lexer.l"
    acts = sorted({(ai, ci, d["lo"], d["hi"], as_[0]) for (ci, cs, ai, as_), d in p.pairs.items() if as_[0] != "invalid"})
    acts += sorted({(ai, ci, 1, None, "") for ci, cs, prefix, w, ai, as_ in p.mism if ai is not None} - {a[:2] + (1, None, "") for a in acts})
    done = {}
    rec = loctype(c.p.prog, p)
    for f in want:
        t = rec.get(f)
        w = INTW.get(strip(t or ""), 64)
        if t is not None and w < 32:
            c.violation("lex|narrow|%s" % f, "src/parser/parser_typedef.h", "%s are counted in %s of type %s, which wraps around in a long text" % (what, f, t))
    narrow = {}
    for ai, ci, lo, hi, kind in acts:
        if ai in p.unknown:
            continue
        for k in sorted({min(max(n, lo), hi or 99) for n in (1, 2, 3)}):
            if k > 6:
                k = 3 if kind != "least" else k
            if (ai, ci, k) in done:
                continue
            done[(ai, ci, k)] = 1
            if k > 12:
                c.ok("actions counted")
                continue
            try:
                it, out = p.impl.run(ai, ci, k)
            except Unsupported as x:
                c.undecide("counting of action %s" % ai, str(x))
                continue
            bad = False
            for t, line, how in it.narrow:
                if how == "count" or INTW.get(strip(t)) == 16:
                    narrow[t] = (line, ai)
            for s, ctl, g, loc, val in out:
                if ctl is not None and ctl[0] == "ret" and p.judge.is_invalid(it.known(s, ctl[1])):
                    continue
                exp = expected(it, s, k)
                if exp is None:
                    c.undecide("counting of action %s" % ai, "conditions on the text")
                    bad = True
                    break
                for f in want:
                    v = s.r(loc).f.get(f, ("sym", f))
                    lv = rel(it, s, v)
                    ev = exp[f]
                    if lv is None:
                        c.undecide("counting of action %s" % ai, "%s = %s" % (f, v))
                        bad = True
                    elif lv != ev:
                        bad = True
                        c.violation("lex|count|%s" % f, where, "action %s (%s) with a text of %d characters sets %s to %s instead of %s" % (
                            ai, kindname((kind, "")) if kind else "rule", k, f, relname(lv), relname(ev)))
                if bad:
                    break
            if not bad:
                c.ok("actions counted")
    for t, (line, ai) in sorted(narrow.items()):
        c.violation("lex|narrow|count", where, "action %s counts in an integer of type %s, which wraps around in a long text" % (ai, t))


def loctype(prog, p):
    """name -> type of the fields of the location"""
    t = strip(p.impl.fn["params"][1]["t"]).rstrip("* ").split(" ")[-1]
    for q, r in prog.records.items():
        n = r.get("qn", q) if isinstance(r, dict) else q
        if str(n).split("::")[-1] == t.split("::")[-1]:
            return {f["name"]: f["t"] for f in prog.all_fields(q)}
    return {}


def rel(it, s, v):
    """(base field or None, offset)"""
    a, d = linear(it.term(s, v) if not isinstance(v, int) else v)
    if a is None:
        return (None, d)
    if isinstance(a, tuple) and a[0] in ("sym", "tok"):
        return (str(a[1]).split(".")[-1].split("->")[-1], d)
    return None


def relname(r):
    return str(r[1]) if r[0] is None else "%s%+d" % r


def expected(it, s, k):
    col, line = ("last_column", 0), ("last_line", 0)
    for i in range(k):
        ch = ("app", "char", ("cs", TEXT), i)
        nl = None
        for x in s.trace:
            if x[:2] == ("==", ch) and x[2] == 10:
                nl = True
            if x[:2] == ("!=", ch) and x[2] == 10:
                nl = False
        if nl is None:
            kv = it.known(s, ch)
            if kv is None:
                return None
            nl = kv == 10
        if nl:
            line = (line[0], line[1] + 1)
            col = (None, 0)
        else:
            col = (col[0], col[1] + 1)
    return {"string_length": ("string_length", k), "total_column": ("total_column", k), "last_line": line, "last_column": col,
            "first_line": ("last_line", 0), "first_column": ("last_column", 0)}


def c09(c):
    c.rule("The scanner tables and lexer actions are the transducer that the dialect's lexical rules describe (complete product over all states and bytes).")
    automaton(c)
    c.rule("The scanner is given the whole text, whatever bytes it contains, by every entry point; tokenize yields the tokens in order up to the end.")
    entry_text(c)
    import buffers
    buffers.copies(c, ("value", "uninit", "oob"))


def whole_text(c, names):
    """the entry points give the scanner the whole text"""
    import entry
    for fn, it, outs, faults, err in entry.runs(c, names):
        if err or not outs or any((entry.whole_text(c, fn, "", st) or " ")[0] == "?" for st, v in outs):
            label = "%s(%s)" % (fn["qn"], ", ".join(p["t"] for p in fn["params"]))
            for t, what, line in entry.on_texts(c, fn):
                c.violation("%s|given" % label, entry.place(fn, line), "given the text %s, %s" % (entry.quoted(t), what))
                break
    for fn, label, it, outs, faults in entry.each(c, names):
        bad = False
        for st, v in outs:
            r = entry.whole_text(c, fn, label, st)
            if r is None:
                continue
            bad = True
            if r[0] == "?":
                c.undecide(label, r[1])
            else:
                c.violation("%s|text|%s" % (label, r[1][:50]), entry.place(fn, r[2]), r[1], entry.path(st))
        if not bad:
            c.ok("entry points given the whole text")


def entry_text(c):
    import entry
    whole_text(c, entry.PARSE + entry.TOKENIZE)
    for fn, label, it, outs, faults in entry.each(c, entry.TOKENIZE):
        bad = False
        for st, v in outs:
            r = sequence(it, st, fn, v)
            if r is None:
                continue
            bad = True
            if r[0] == "?":
                c.undecide(label, r[1])
            else:
                c.violation("%s|sequence|%s" % (label, r[1][:50]), entry.place(fn), r[1], entry.path(st))
            break
        if not bad:
            c.ok("token sequences")


def sequence(it, st, fn, v):
    toks = [x[1] for x in st.out if x[0] == "token"]
    if any(x[0] == "init failed" for x in st.out):
        return None
    if not any(x[0] == "scan" for x in st.out):
        return ("?", "no scan")
    vec = [o for o in st.heap.values() if o.kind == "vec" and o.label == "tokens"]
    if len(vec) != 1 or vec[0].pre not in (None, ()) and not vec[0].opq:
        return ("?", "token list")
    got = list(vec[0].items)
    if not any(x[0] == "eof" for x in st.out):
        return ("bad", "the tokenizer stops before the end of the text")
    if len(got) != len(toks):
        return ("bad", "the tokenizer reports %d of %d tokens" % (len(got), len(toks)))
    for a, b in zip(got, toks):
        a = a[-1] if isinstance(a, tuple) and a[0] == "app" and a[1] in ("trunc", "cast") else a
        ka, kb = it.known(st, a), it.known(st, b)
        if a != b and (ka is None or ka != kb):
            return ("bad", "the tokenizer reports %s for token %s" % (a, b))
    if isinstance(v, int) and v == 0:
        return ("bad", "the tokenizer reports failure for a text it has read completely")
    return None


def numbers(c):
    c.rule("Lexer: number texts are cut and converted (decimal, range checked) as the dialect says.")
    automaton(c, ("int", "least", "float"))


def memory(c, kinds):
    """the lexer actions as allocating code: everything allocated is handed over with the token"""
    p, err = product(c)
    if p is None:
        c.undecide("lexer actions", err)
        return
    for ai in sorted({ai for ci, cs, ai, as_ in p.pairs} - set(p.unknown)):
        for (act, cond), effs in sorted(p.impl.effects.items()):
            if act != ai:
                continue
            bad = False
            for s, e in effs:
                for k, msg, line in s.issues:
                    if k in kinds:
                        bad = True
                        c.violation("lex|%s|%s" % (k, msg[:60]), "src/parser/flex_lexer.l:%s" % line, msg)
                ty = p.impl.toktype.get(e["token"]) if isinstance(e["token"], int) else None
                if "uninit" in kinds and ty and e["vals"].get(ty, UNINIT) == UNINIT:
                    bad = True
                    c.violation("lex|uninit|%s" % ai, "src/parser/flex_lexer.l", "lexer action %s yields token %s without setting its value" % (ai, p.impl.tokens.get(e["token"])))
                if "uaf" in kinds and ty == "sval":
                    for v in e["held"]:
                        if isinstance(v, tuple) and v[0] == "ptr" and s.r(v[1]).status == "freed":
                            bad = True
                            c.violation("lex|uaf|%s" % ai, "src/parser/flex_lexer.l", "lexer action %s hands over a text it has released" % ai)
                if "leak" in kinds:
                    held = {v[1] for v in e["held"] if isinstance(v, tuple) and v[0] == "ptr"}
                    ok = isinstance(e["token"], int) and e["token"] in p.impl.stringtokens
                    for i, o in s.heap.items():
                        if o.status == "live" and o.alloc in ("malloc", "new") and not (i in held and ok):
                            bad = True
                            c.violation("lex|leak|%s" % ai, "src/parser/flex_lexer.l:%s" % o.line, "memory allocated by the lexer action is not handed over with a token that has a text")
            if not bad:
                c.ok("lexer actions")

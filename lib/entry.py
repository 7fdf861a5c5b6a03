"""The public entry points (SQLParser) and the setters of the result, evaluated against the generated scanner's protocol.

The scanner and parser functions are replaced by summaries: acquire and release of the scanner and its buffer, a parse
that succeeds or fails, a token stream of which every token kind may come at every place. All paths of the entry points
are followed."""
from absint import INTW, Infeasible, Interp, NULL, Obj, State, UNINIT, Unsupported, VOID, lengths
from memory import tracetext
from texts import Bytes

MAXTOK = 3
UPTO0 = ("app", "upto0", ("tok", "sql"))


class Entry(Interp):
    def __init__(self, c):
        Interp.__init__(self, c.p.prog)
        g = c.p.grammar
        self.g = g
        self.stored = None
        self.text_is_string = False
        self.strings = sorted(c.p.prog.enumconst["SQL_" + t][1] for t, d in g.terminals.items() if d["type"] == "sval")
        self.values = {c.p.prog.enumconst["SQL_" + t][1]: d["type"] for t, d in g.terminals.items() if d["type"] and d["type"] != "sval"}
        self.plain = sorted({v for n, (e, v) in c.p.prog.enumconst.items() if n.startswith("SQL_") and v > 257} - set(self.strings) - set(self.values)
                            ) + list(range(1, 128))
        self.limit = MAXTOK
        self.counts = set()
        for f in c.p.prog.functions.values():
            if f.get("cls") in ("hsql::SQLParserResult", "hsql::SQLParser"):
                self.counts |= lengths(c.p.prog, f, 5000)
        S = self.summaries
        S["hsql_lex_init"] = self.lex_init
        S["hsql_lex_init_extra"] = self.lex_init
        S["hsql__scan_bytes"] = S["hsql__scan_string"] = self.scan
        S["hsql__delete_buffer"] = self.delete_buffer
        S["hsql_lex_destroy"] = self.lex_destroy
        S["hsql_parse"] = self.parse
        S["hsql_lex"] = self.lex
        S["strlen"] = S["std::strlen"] = self.strlen

    def content(self, st, v):
        # a C string made from a std::string ends at its first null byte
        if v == ("cs", ("tok", "sql")) and self.text_is_string:
            return UPTO0
        return Interp.content(self, st, v)

    def strlen(self, it, st, e):
        def run():
            for s, v in it.evs(e["c"], st):
                c = it.content(s, v[0])
                yield s, len(c[1]) if c[0] == "str" else ("app", "cstrlen", c)
        return run()

    # resources are raw objects
    def res(self, st, what, line):
        o = Obj("raw", "void", "res", what, True, line)
        return ("ptr", st.new(o))

    def lex_init(self, it, st, e):
        def run():
            for s, vs in it.evs(e["c"], st):
                p = vs[-1]
                s2 = s.copy()
                s2.out.append(("init failed",))
                yield s2, 1
                r = it.res(s, "scanner", e.get("l", 0))
                it.put(s, p, r)
                s.out.append(("init", r[1]))
                yield s, 0
        return run()

    def put(self, st, p, v):
        """*p = v"""
        l = self.deref(st, p, 0, "")
        if l[0] == "o":
            st.w(l[1]).f["v"] = v
        else:
            self.store(st, l, v)

    def live(self, st, v, what, line):
        if not (isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).alloc == "res"):
            if v == UNINIT or v == NULL or v == 0:
                st.issue("uninit", "%s is used but was not set" % what, line)
                return None
            raise Unsupported("%s: %s" % (what, v))
        o = st.r(v[1])
        if o.status == "freed":
            st.issue("uaf", "the %s is used after its release" % o.label, line)
            return None
        return v[1]

    def scan(self, it, st, e):
        def run():
            for s, vs in it.evs(e["c"], st):
                line = e.get("l", 0)
                sc = it.live(s, vs[-1], "the scanner", line)
                r = it.res(s, "scan buffer", line)
                s.flags["buffer"] = r[1]
                n = vs[1] if len(vs) == 3 else ("strlen",)
                s.out.append(("scan", vs[0], n, line))
                yield s, r
        return run()

    def delete_buffer(self, it, st, e):
        def run():
            for s, vs in it.evs(e["c"], st):
                line = e.get("l", 0)
                b = it.live(s, vs[0], "the scan buffer", line)
                it.live(s, vs[1], "the scanner", line)
                if b is not None:
                    s.w(b).status = "freed"
                s.out.append(("delete", line))
                yield s, VOID
        return run()

    def lex_destroy(self, it, st, e):
        def run():
            for s, vs in it.evs(e["c"], st):
                sc = it.live(s, vs[0], "the scanner", e.get("l", 0))
                if sc is not None:
                    s.w(sc).status = "freed"
                b = s.flags.get("buffer")
                if b is not None:
                    s.w(b).status = "freed"     # the scanner releases its current buffer
                yield s, 0
        return run()

    def parse(self, it, st, e):
        def run():
            for s, vs in it.evs(e["c"], st):
                line = e.get("l", 0)
                it.live(s, vs[-1], "the scanner", line)
                b = s.flags.get("buffer")
                if b is None:
                    s.out.append(("parse without text", line))
                elif s.r(b).status == "freed":
                    s.issue("uaf", "the scan buffer is used after its release", line)
                s.out.append(("parse", vs[0], it.snapshot(s, vs[0]), line))
                for k, n in [(1, 0), (2, 0)] + [(0, n) for n in sorted({1, 2} | it.counts)]:
                    s2 = s.copy()
                    s2.out.append(("parsed", k))
                    s2.flags["ret"] = k
                    # what the parser leaves in the result
                    o = s2.w(vs[0][1])
                    o.f["isValid_"] = ("sym", "validity left by the parser")
                    s2.dom[("sym", "validity left by the parser")] = ("in", frozenset((0, 1)))
                    msg = Obj("cstr", "char", "outside", "error message", True)
                    msg.null = "null" if k == 0 else "nonnull"
                    o.f["errorMsg_"] = NULL if k == 0 else ("ptr", s2.new(msg))
                    o.f["errorLine_"] = -1 if k == 0 else ("sym", "error line")
                    o.f["errorColumn_"] = -1 if k == 0 else ("sym", "error column")
                    if k == 0:
                        for f in ("statements_", "parameters_"):
                            v = it.getfield(s2, vs[0][1], f)
                            w = s2.w(v[1])
                            w.items = list(w.items) + [("sym", "parsed %s %d" % (f, j)) for j in range(n)]
                    s2.flags["left"] = it.snapshot(s2, vs[0])
                    yield s2, k
        return run()

    def snapshot(self, st, rp):
        """what the result holds"""
        if not (isinstance(rp, tuple) and rp[0] == "ptr"):
            return None
        d = {}
        for f in self.prog.all_fields("hsql::SQLParserResult"):
            v = self.getfield(st, rp[1], f["name"])
            if isinstance(v, tuple) and v[0] == "obj":
                o = st.r(v[1])
                d[f["name"]] = ("list", o.pre is None or o.pre == () or o.opq is False, tuple(o.items))
                continue
            d[f["name"]] = v
        return d

    def lex(self, it, st, e):
        def run():
            for s, vs in it.evs(e["c"], st):
                line = e.get("l", 0)
                it.live(s, vs[-1], "the scanner", line)
                b = s.flags.get("buffer")
                if b is None:
                    s.out.append(("parse without text", line))
                elif s.r(b).status == "freed":
                    s.issue("uaf", "the scan buffer is used after its release", line)
                n = sum(1 for x in s.out if x[0] == "token")
                if s.flags.get("eof"):
                    s.out.append(("read after end", line))
                yv = self.target(s, vs[0])
                kinds = ["eof"]
                if n < it.limit:
                    kinds += ["string", "value", "plain"]
                for k in kinds:
                    x = s.copy()
                    if k == "eof":
                        x.flags["eof"] = True
                        x.out.append(("eof",))
                        yield x, 0
                        continue
                    ids = it.strings if k == "string" else sorted(it.values) if k == "value" else None
                    if ids is None:
                        v = ("sym", "token %d" % (n + 1))
                        x.dom[v] = ("in", frozenset(it.plain))
                        x.out.append(("token", v, None))
                        x.trace.append(("atom", ("sym", "token %d without a value" % (n + 1))))
                        yield x, v
                        continue
                    for j, t in enumerate(ids):
                        y = x.copy()
                        p = None
                        if k == "string":
                            p = it.opaque_ptr(y, "char *", "text of token %d" % (n + 1), "nonnull", alloc="malloc")
                            it.store(y, ("f", yv, "sval"), p)
                        else:
                            it.store(y, ("f", yv, it.values[t]), ("sym", "value of token %d" % (n + 1)))
                        y.out.append(("token", t, p and p[1]))
                        y.trace.append(("==", ("sym", "token %d" % (n + 1)), t))
                        yield y, t
        return run()

    def target(self, st, p):
        l = self.deref(st, p, 0, "")
        if l[0] != "o":
            raise Unsupported("lexer value")
        return l[1]


class Given(Bytes, Entry):
    """an entry point given a certain text: which bytes reach the scanner"""

    def __init__(self, c, text, full=False):
        Entry.__init__(self, c)
        self.bytewise()
        self.given = text
        self.full = full
        self.MAXSTEPS = 60000
        if not full:
            self.limit = 0
            self.counts = set()

    def content(self, st, v):
        if isinstance(v, tuple) and v[0] == "str":
            return ("str", v[1].split("\0")[0])    # a C string
        return Bytes.content(self, st, v)

    def strlen(self, it, st, e):
        def run():
            for s, v in it.evs(e["c"], st):
                yield s, len(it.string(s, it.pos(s, v[0]), e.get("l", 0)))
        return run()

    def scan(self, it, st, e):
        def run():
            for s, vs in it.evs(e["c"], st):
                line = e.get("l", 0)
                it.live(s, vs[-1], "the scanner", line)
                it.sync(s)
                p = it.pos(s, vs[0])
                if len(vs) == 3:
                    x = it.taken(s, vs[0], it.num(s, vs[1]), line)
                    if not all(isinstance(k, int) for k in x):
                        raise Unsupported("indeterminate text")
                    x = "".join(chr(k & 255) for k in x)
                else:
                    x = it.string(s, p, line)
                r = it.res(s, "scan buffer", line)
                s.flags["buffer"] = r[1]
                s.out.append(("scanned", x, line))
                yield s, r
        return run()

    def parse(self, it, st, e):
        if self.full:
            return Entry.parse(self, it, st, e)

        def run():
            for s, vs in it.evs(e["c"], st):
                yield s, 1
        return run()

    def given_arg(self, st, p):
        v = arg(self, st, p)
        if p["name"] == "sql":
            st.w(v[1]).f["v"] = ("str", self.given)
        return v


GIVEN = ("SELECT 1", "SELECT 1;\n", " \t SELECT 1", "SELECT 1 \n\n", "", " ", ";", "SELECT 'a  B'", "SELECT 1 --\nFROM t", "SELECT '--\n'",
         "SELECT '\r\n' , 2", "SELECT \\n, \"A\\'\"", "\xef\xbb\xbfSELECT 1", "SELECT '\xc3\xa4\xff'", "-- c", "(SELECT 1)", "'it''s'", "/* a */ SELECT 1",
         "SELECT 1; SELECT 2;", "select A from B", "{`[#@!$%^&*?:<>=+|~]}", "x" * 600, "SELECT  1  ,\t\t2\n\n;;", "SELECT 1;  ", "x" * 70000, "".join(map(chr, range(1, 256))))
NULLS = ("\0SELECT 1", "SELECT 1\0", "SELECT 'a\0b'", "SELECT 1;\0SELECT 2", "\0", "SELECT 1\0\0")


def trials(c):
    """texts to give to the entry points: these and what the code itself mentions"""
    w = []

    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "Str" and 0 < len(x.get("v", "")) < 40:
                w.extend([x["v"], "a" + x["v"] + "b", "a" + x["v"]])
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    for f in c.p.prog.functions.values():
        if f.get("body") and f.get("f", "").endswith("SQLParser.cpp"):
            go(f["body"])
    return list(GIVEN) + [x for x in w if "\0" not in x][:20]


def on_texts(c, fn):
    """(text, what happens to it, line) for a text that does not reach the scanner as it is, in an entry point that was not decided"""
    is_c = not any(p["name"] == "sql" and fn_class(c, p) for p in fn["params"])
    for t in trials(c) + ([] if is_c else list(NULLS)):
        it = Given(c, t)
        it.partial = False
        try:
            outs, _ = run(c, it, fn, lambda st: [it.given_arg(st, p) for p in fn["params"]])
        except (Unsupported, Infeasible):
            continue
        for st, v in outs:
            seen = [x for x in st.out if x[0] == "scanned"]
            for k, msg, line in st.issues:
                if k == "oob":
                    yield t, msg, line
            for x in seen:
                if x[1] != t:
                    yield t, "the scanner is given %s" % quoted(x[1]), x[2]
            if not seen and not any(x[0] == "init failed" for x in st.out):
                yield t, "the text is not given to the scanner", fn.get("line")


def fn_class(c, p):
    from absint import strip
    return "basic_string" in p["t"] or "std::string" in strip(p["t"])


def quoted(t):
    r = "'%s'" % "".join(ch if ch.isprintable() and ord(ch) < 127 else "\\x%02x" % ord(ch) for ch in t)
    return r if len(r) < 80 else r[:70] + "...'"


def run(c, it, fn, args, this=None):
    """outcomes (state, value) of a function; args(st) builds the values"""
    st = State()
    vs = args(st)
    c.functions.add(fn["qn"])
    it.faults = []
    out = list(it.invoke(fn, st, [], this(st) if this else None, {"l": fn.get("line", 0)}, values=vs))
    c.functions |= it.functions_seen
    return out, it.faults


def fns(c, qn):
    return [f for f in c.p.prog.functions.values() if f["qn"] == qn and f.get("body")]


def arg(it, st, p):
    t = p["t"].rstrip("&").strip()
    n = p["name"]
    from absint import pointee, strip
    if pointee(t) is not None:
        r = it.opaque_ptr(st, t, n, "nonnull")
        if n == "sql":
            st.w(r[1]).alloc = "outside"
        return r
    if it.class_kind(t):
        return ("obj", it.fresh(st, t, "outside", n, True))
    return it.opaque_scalar(st, t, n)


def place(fn, line=None):
    return "%s:%s (%s)" % (fn.get("file", "src/SQLParser.cpp"), line or fn.get("line", ""), fn["qn"])


def runs(c, names):
    cache = c.p.__dict__.setdefault("_entry", {})
    for qn in names:
        if qn not in cache:
            l = []
            for fn in fns(c, qn):
                it = Entry(c)
                it.partial = True
                it.text_is_string = any(p["name"] == "sql" and it.class_kind(p["t"].rstrip("&").strip()) for p in fn["params"])
                try:
                    r = run(c, it, fn, lambda st: [arg(it, st, p) for p in fn["params"]])
                    l.append((fn, it, r[0], r[1], it.reasons() or None))
                except Unsupported as x:
                    l.append((fn, it, [], [], str(x)))
                if l[-1][4]:
                    # paths for certain texts in place of those that were not followed
                    for t in ("SELECT 1 ;", "SELECT 1"):
                        it2 = Given(c, t, True)
                        try:
                            r = run(c, it2, fn, lambda st: [it2.given_arg(st, p) for p in fn["params"]])
                        except Unsupported:
                            continue
                        l[-1] = (fn, it, l[-1][2] + r[0], l[-1][3] + r[1], l[-1][4])
            cache[qn] = l
        c.need(cache[qn], "definition of " + qn)
        for x in cache[qn]:
            yield x


PARSE = ("hsql::SQLParser::parse", "hsql::SQLParser::parseSQLString")
TOKENIZE = ("hsql::SQLParser::tokenize",)


def each(c, names):
    for fn, it, outs, faults, err in runs(c, names):
        label = "%s(%s)" % (fn["qn"], ", ".join(p["t"] for p in fn["params"]))
        if err:
            c.undecide(label, err)
            if not outs:
                continue
        yield fn, label, it, outs, faults
        c.functions.add(fn["qn"])
        c.count("paths of the entry points", len(outs))


def resources(c, kinds=("leak",)):
    """scanner, buffer and tokens are released on all paths"""
    for fn, label, it, outs, faults in each(c, PARSE + TOKENIZE):
        bad = False
        for st, v in outs:
            for i, o in sorted(st.heap.items()):
                if o.status == "live" and (o.alloc == "res" and not (o.label == "scan buffer" and False) or o.alloc in ("malloc", "new")):
                    if o.label == "error message" or o.null == "null":
                        continue
                    bad = True
                    c.violation("%s|leak|%s" % (label, o.label and o.label.rstrip("0123456789 ")), place(fn, o.line or None),
                                "the %s is never released" % (o.label or o.kind), path(st))
        if not bad:
            c.ok("entry points")
            c.sample({"entry point": label, "paths": len(outs), "result": "scanner, buffer and token texts released on every path"})


def path(st):
    w = []
    for x in st.out:
        if x[0] == "token":
            w.append("token %s" % (x[1] if isinstance(x[1], int) else "without a value"))
        elif x[0] in ("eof",):
            w.append("end of text")
        elif x[0] == "parsed":
            w.append("hsql_parse returns %d" % x[1])
        elif x[0] == "init failed":
            w.append("hsql_lex_init fails")
    return "path: " + ", ".join(w)


def faults_of(c, names, kinds):
    for fn, label, it, outs, faults in each(c, names):
        bad = False
        for st in [s for s, v in outs] + list(faults):
            for k, msg, line in st.issues:
                if k in kinds:
                    bad = True
                    c.violation("%s|%s|%s" % (label, k, msg[:60]), place(fn, line), msg, path(st))
        if not bad:
            c.ok("entry points")


def tokenizer(c, kinds):
    faults_of(c, PARSE + TOKENIZE, kinds)


def whole_text(c, fn, label, st):
    """None when the scanner is given all of the text"""
    scans = [x for x in st.out if x[0] == "scan"]
    if not scans:
        return None if any(x[0] == "init failed" for x in st.out) or True else None
    for _, p, n, line in scans:
        src = textsource(st, p)
        if src is None:
            return ("?", "text given to the scanner: %s" % (p,), line)
        if src == "cut":
            return ("bad", "the scanner is given the text up to its first null byte only", line)
        if isinstance(src, tuple):
            return ("bad", "the scanner is given the text without its first %s characters" % src, line)
        if n == ("strlen",):
            if src == "std":
                return ("bad", "the scanner is given the text up to its first null byte only", line)
            continue
        size = sizesource(st, n)
        if size is None:
            return ("?", "length given to the scanner: %s" % (n,), line)
        if size is not True:
            return ("bad", "the scanner is given %s characters instead of the whole text" % (
                size if not size[0] in "+-" else "%s %s" % (size[1:], "too few" if size[0] == "-" else "too many")), line)
    return None


def textsource(st, p):
    if isinstance(p, tuple) and p[0] == "ptr" and st.r(p[1]).label == "sql":
        return "c"
    if isinstance(p, tuple) and p[0] in ("cs", "tok", "data"):
        return "cut" if p[-1] == UPTO0 else "std"
    if isinstance(p, tuple) and p[0] == "cptr" and isinstance(p[2], int):
        base = textsource(st, p[1])
        return base if p[2] == 0 or not isinstance(base, str) else (p[2],)
    return None


def sizesource(st, n):
    """True: the length of the text; a text: something else; None: not understood"""
    from lexing import linear
    if isinstance(n, int):
        return str(n)
    a, d = linear(n)
    if isinstance(a, tuple) and a[:2] == ("app", "trunc"):
        return "the last %s bits of the number of" % INTW.get(a[2], "few")
    if a == ("app", "strlen", ("tok", "sql")):
        return True if d == 0 else "%+d" % d
    if a == ("app", "cstrlen", ("tok", "sql")):
        return "the number of characters before the first null byte of"
    return None


def setters(c, kinds):
    import result
    result.operations(c, kinds)

"""Functions that copy a part of a text: evaluated byte by byte on texts of symbolic characters, for all small lengths and the lengths the function
compares anything with."""
from absint import Infeasible, Interp, NULL, Obj, State, UNINIT, Unsupported, lengths

FN = "hsql::substr"


class Bytes(Interp):
    """buffers are lists of characters; a pointer into one is an element of it"""

    def __init__(self, prog):
        Interp.__init__(self, prog)
        self.partial = True
        for n in ("malloc", "calloc", "memcpy", "memmove", "strncpy", "strcpy", "strlen", "strndup", "strdup", "memset", "snprintf", "strnlen"):
            self.summaries[n] = self.summaries["std::" + n] = self.libc(n)

    def buffer(self, st, items, label, alloc):
        o = Obj("vec", "std::vector<char>", alloc, label, False)
        o.elem = "char"
        o.items, o.pre = list(items), None
        return st.new(o)

    def place(self, v):
        if isinstance(v, tuple) and v[0] == "pl" and v[1][0] == "e":
            return v[1][1], v[1][2]
        raise Unsupported("pointer to something else than a buffer")

    def at(self, st, oid, i, line, write=False):
        n = len(st.r(oid).items)
        if not 0 <= i < n:
            st.issue("oob", "%s is %s at position %d, it has %d bytes" % (self.describe(st, oid), "written" if write else "read", i, n), line)
            self.dead(st)
            raise Infeasible("out of bounds")

    def load(self, st, loc, line=0):
        if loc[0] == "e":
            self.at(st, loc[1], loc[2], line)
            v = st.r(loc[1]).items[loc[2]]
            if v == UNINIT:
                st.issue("uninit", "byte %d of %s is read before it is set" % (loc[2], self.describe(st, loc[1])), line)
                self.dead(st)
                raise Infeasible("indeterminate")
            return v
        return Interp.load(self, st, loc, line)

    def store(self, st, loc, v, line=0):
        if loc[0] == "e":
            self.at(st, loc[1], loc[2], line, True)
        Interp.store(self, st, loc, v, line)

    def describe(self, st, oid):
        return st.r(oid).label or "the buffer"

    def length(self, st, p, line):
        oid, i = self.place(p)
        n = 0
        while True:
            v = self.load(st, ("e", oid, i + n), line)
            if v == 0:
                return n
            if not (isinstance(v, tuple) and v[0] == "sym") and not isinstance(v, int):
                raise Unsupported("end of a text")
            n += 1

    def copy(self, st, d, s, n, line, text):
        do, di = self.place(d)
        so, si = self.place(s)
        ended = False
        vals = []
        for k in range(n):
            v = 0 if ended else self.load(st, ("e", so, si + k), line)
            ended = ended or text and v == 0
            vals.append(v)
        for k, v in enumerate(vals):
            self.store(st, ("e", do, di + k), v, line)

    def libc(self, name):
        def hook(it, st, e):
            def run():
                for s, vs in it.evs(e["c"], st):
                    line = e.get("l", 0)
                    try:
                        yield from call(it, s, vs, line)
                    except Infeasible:
                        continue

            def call(it, s, vs, line):
                def number(v):
                    k = it.known(s, v) if not isinstance(v, int) else v
                    if k is None:
                        raise Unsupported(name + " of unknown length")
                    if not 0 <= k < 1 << 31:
                        s.issue("oob", "%s of %d bytes" % (name, k), line)
                        it.dead(s)
                        raise Infeasible("size")
                    return k
                if name in ("malloc", "calloc"):
                    n = number(vs[0]) * (number(vs[1]) if name == "calloc" else 1)
                    yield s, ("pl", ("e", it.buffer(s, [0 if name == "calloc" else UNINIT] * n, "the allocated buffer", "malloc"), 0))
                elif name in ("memcpy", "memmove", "strncpy"):
                    it.copy(s, vs[0], vs[1], number(vs[2]), line, name == "strncpy")
                    yield s, vs[0]
                elif name == "strcpy":
                    it.copy(s, vs[0], vs[1], it.length(s, vs[1], line) + 1, line, True)
                    yield s, vs[0]
                elif name == "memset":
                    o, i = it.place(vs[0])
                    for k in range(number(vs[2])):
                        it.store(s, ("e", o, i + k), vs[1], line)
                    yield s, vs[0]
                elif name == "strlen":
                    yield s, it.length(s, vs[0], line)
                elif name == "strnlen":
                    n = number(vs[1])
                    o, i = it.place(vs[0])
                    k = 0
                    while k < n and it.load(s, ("e", o, i + k), line) != 0:
                        k += 1
                    yield s, k
                elif name in ("strndup", "strdup"):
                    o, i = it.place(vs[0])
                    n = number(vs[1]) if name == "strndup" else None
                    el = []
                    while n is None or len(el) < n:
                        v = it.load(s, ("e", o, i + len(el)), line)
                        if v == 0:
                            break
                        el.append(v)
                    yield s, ("pl", ("e", it.buffer(s, el + [0], "the allocated buffer", "malloc"), 0))
                elif name == "snprintf":
                    n = number(vs[1])
                    f = vs[2]
                    if f != ("str", "%s") and not (f == ("str", "%.*s") and len(vs) == 5):
                        raise Unsupported("snprintf with another format")
                    m = it.length(s, vs[-1], line) if f == ("str", "%s") else min(number(vs[3]), it.length(s, vs[-1], line))
                    if n:
                        k = min(m, n - 1)
                        it.copy(s, vs[0], vs[-1], k, line, False)
                        o, i = it.place(vs[0])
                        it.store(s, ("e", o, i + k), 0, line)
                    yield s, m
                else:
                    raise Unsupported(name)
            return run()
        return hook


def copies(c, kinds):
    """hsql::substr(text, from, to) returns the characters [from, to) of the text, terminated, in a buffer of its own"""
    fl = [f for f in c.p.prog.functions.values() if f["qn"] == FN and f.get("body") and len(f["params"]) == 3]
    for fn in fl:
        n = 0
        bad = False
        why = None

        def report(kind, msg, line=None):
            nonlocal bad
            if kind in kinds and not bad:
                bad = True
                c.violation("substr|%s" % kind, "src/sql/Expr.cpp:%s (%s)" % (line or fn.get("line", ""), FN), msg)
        for size in sorted({0, 1, 2, 3, 5} | lengths(c.p.prog, fn, 70000)):
            for first in (0, 1, 2):
                it = Bytes(c.p.prog)
                it.MAXSTEPS = 200000
                st = State()
                chars = [("sym", "text[%d]" % k) for k in range(first + size + 1)]
                for x in chars:
                    st.dom[x] = ("in", frozenset(set(range(-128, 128)) - {0}))
                src = it.buffer(st, chars + [0], "the text", "outside")
                try:
                    outs = list(it.invoke(fn, st, [], None, {"l": fn.get("line", 0)}, values=[("pl", ("e", src, 0)), first, first + size]))
                    why = why or it.reasons()
                except Infeasible:
                    outs = []
                except Unsupported as x:
                    why = why or str(x)
                    outs = []
                for s in [x for x, _ in outs] + it.faults:
                    for k, msg, line in s.issues:
                        report(k, "%s when %d characters are copied" % (msg, size), line)
                for s, v in outs:
                    n += 1
                    try:
                        o, i = it.place(v)
                    except Unsupported:
                        why = why or "value of the function"
                        continue
                    b = s.r(o)
                    if b.status == "freed":
                        report("uaf", "the returned text is released")
                        continue
                    if o == src or b.alloc != "malloc" or i != 0:
                        report("badfree", "the returned text is not a buffer of its own from malloc")
                        continue
                    want = chars[first:first + size] + [0]
                    have = b.items[:size + 1]
                    have = [it.known(s, x) if it.known(s, x) is not None else x for x in have]
                    want = [it.known(s, x) if it.known(s, x) is not None else x for x in want]
                    if have != want:
                        k = next((k for k in range(size + 1) if k >= len(have) or have[k] != want[k]))
                        if k < len(have) and have[k] == UNINIT:
                            report("uninit", "byte %d of a copy of %d characters is never set" % (k, size))
                        report("value", "a copy of %d characters differs from the text at position %d%s" % (
                            size, k, "" if k < size else ": it does not end there"))
        if why and not bad:
            c.undecide(FN, why)
        elif not bad:
            c.ok("copies of texts")
            c.count("paths of the copies", n)
        c.functions.add(FN)

"""Phrases on concrete texts.

Where an action (or what it calls) works on the characters of a text in a way the symbolic evaluation does not follow, the phrase is evaluated again with
its strings bound to given texts, byte by byte, and judged as always. A deviation found like that is one for a certain text; that no deviation is found
leaves the phrase undecided.
"""
from absint import Infeasible, Interp, NULL, Obj, UNINIT, Unsupported, pointee, strip
from actions import Actions
import models

LIBC = ("strchr", "strrchr", "strstr", "snprintf", "sprintf", "strcpy", "strncpy", "strcat", "strncat", "memcpy", "memmove", "memset", "strndup", "strnlen",
        "transform")


class Bytes(Interp):
    """texts as bytes"""

    def bytewise(self):
        for n in LIBC:
            self.summaries[n] = self.summaries["std::" + n] = self.libc(n)

    def term(self, st, v, depth=0):
        if isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).kind == "cstr" and st.r(v[1]).null != "null" and "v" in st.r(v[1]).f:
            return st.r(v[1]).f["v"]
        return Interp.term(self, st, v, depth)

    def content(self, st, v):
        if st.flags.get("letters"):
            self.sync(st)
        if isinstance(v, tuple) and v[0] == "cptr":
            pl = self.place(st, v)
            if pl is not None:
                return ("str", self.string(st, pl))
        if isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).kind == "cstr" and "raw" in st.r(v[1]).f:
            return ("str", self.string(st, (v[1], 0)))
        return Interp.content(self, st, v)

    def place(self, st, v):
        """(object or text, position) of a pointer to characters"""
        n = 0
        while isinstance(v, tuple) and v[0] == "cptr":
            if not isinstance(v[2], int):
                return None
            n += v[2]
            v = v[1]
        if isinstance(v, tuple) and v[0] == "cs":
            v = v[1]
        if isinstance(v, tuple) and v[0] == "str":
            return v[1], n
        if isinstance(v, tuple) and v[0] == "pl" and v[1][0] == "e" and isinstance(v[1][2], int):
            x = st.r(v[1][1]).items
            if st.r(v[1][1]).elem in ("char", "unsigned char", None) and x and all(isinstance(k, int) for k in x):
                return "".join(chr(k & 255) for k in x), n + v[1][2]
        if isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).kind in ("cstr", "raw"):
            return v[1], n
        return None

    def bytes(self, st, oid):
        if isinstance(oid, str):
            return tuple(map(ord, oid)) + (0,)
        o = st.r(oid)
        if "raw" in o.f:
            return o.f["raw"]
        if o.kind == "cstr" and isinstance(o.f.get("v"), tuple) and o.f["v"][0] == "str":
            return tuple(map(ord, o.f["v"][1])) + (0,)
        if "v" not in o.f and isinstance(o.tag, int) and 0 <= o.tag < 1 << 16 and not o.opq:
            return ((0 if o.f.get("zeroed") else None),) * o.tag
        raise Unsupported("bytes of " + o.kind)

    def string(self, st, pl, line=0):
        b = self.bytes(st, pl[0])
        if not 0 <= pl[1] < len(b):
            self.beyond(st, line)
        try:
            e = b.index(0, pl[1])
        except ValueError:
            self.beyond(st, line)
        if None in b[pl[1]:e]:
            raise Unsupported("indeterminate text")
        return "".join(map(chr, b[pl[1]:e]))

    # the iterators of a string are those of a list of its characters, which is written back
    def letters(self, st, oid):
        self.sync(st)
        c = st.r(oid).f["v"]
        made = st.flags.get("letters", {})
        for i, (o, t) in made.items():
            if o == oid and t == c:
                return i
        i = Interp.characters(self, st, oid)
        st.flags["letters"] = dict(made)
        st.flags["letters"][i] = (oid, c)
        return i

    def characters(self, st, oid):
        return self.letters(st, oid)

    def sync(self, st):
        for i, (o, t) in st.flags.get("letters", {}).items():
            x = st.r(i).items
            # characters that were moved keep their value
            x = [ord(t[1][j]) if k == UNINIT and j < len(t[1]) else k for j, k in enumerate(x)]
            if not all(isinstance(k, int) for k in x):
                raise Unsupported("unknown character")
            x = ("str", "".join(chr(k & 255) for k in x))
            if x == t:
                continue
            if st.r(o).f["v"] != t:
                raise Unsupported("text changed in two ways")
            st.w(o).f["v"] = x
            st.w(o).wr["v"] = 1
            st.flags["letters"] = dict(st.flags["letters"])
            st.flags["letters"][i] = (o, x)

    def character(self, st, oid, c, n):
        if c[0] == "str" and isinstance(n, int) and 0 <= n < len(c[1]) <= 700:
            return ("e", self.letters(st, oid), n)
        return Interp.character(self, st, oid, c, n)

    def whole(self, st, oid, v):
        if isinstance(v, tuple) and v[0] == "it" and v[1] in st.flags.get("letters", {}):
            o, t = st.flags["letters"][v[1]]
            if o == oid and st.r(oid).f["v"] == t:
                p = list(self.it_pos(st, v))
                if len(p) == 1 and not (isinstance(v[2], tuple) and v[2][0] == "rev"):
                    return p[0][1]
        return Interp.whole(self, st, oid, v)

    def between(self, st, a, b):
        if isinstance(b, tuple) and b[0] == "it" and b[1] == a[1]:
            r = list(self.it_range(st, a, b))
            if len(r) == 1 and all(isinstance(st.r(a[1]).items[j], int) for j in r[0][1]):
                return ("str", "".join(chr(st.r(a[1]).items[j] & 255) for j in r[0][1]))
        return Interp.between(self, st, a, b)

    def beyond(self, st, line):
        st.issue("oob", "access beyond the end of a text", line)
        self.dead(st)
        raise Infeasible("out of bounds")

    def poke(self, st, pl, vals, line=0):
        if isinstance(pl[0], str):
            raise Unsupported("store to a constant")
        b = list(self.bytes(st, pl[0]))
        if st.r(pl[0]).status == "freed":
            st.issue("uaf", "a text is written after its release", line)
        if pl[1] < 0 or pl[1] + len(vals) > len(b):
            self.beyond(st, line)
        if not all(x is None or isinstance(x, int) for x in vals):
            raise Unsupported("unknown character")
        b[pl[1]:pl[1] + len(vals)] = vals
        w = st.w(pl[0])
        w.kind = "cstr"
        w.cls = "char"
        w.f["raw"] = tuple(b)
        if 0 in b:
            w.f["v"] = ("str", "".join(chr(x) if x is not None else "?" for x in b[:b.index(0)]))
        else:
            w.f["v"] = ("nterm", ("str", "?"), 0, len(b))
        if w.opq:
            w.wr["v"] = line
            if w.f.get("orig") == w.f["v"][1]:
                w.wr.pop("v")

    # ---------------------------------------------------------------- characters
    def load(self, st, loc, line=0):
        if loc[0] == "c" and isinstance(loc[2], int):
            pl = self.place(st, ("cptr", loc[1], loc[2]))
            if pl is not None:
                if not isinstance(pl[0], str) and st.r(pl[0]).status == "freed":
                    st.issue("uaf", "a text is read after its release", line)
                b = self.bytes(st, pl[0])
                if not 0 <= pl[1] < len(b):
                    self.beyond(st, line)
                return b[pl[1]] if b[pl[1]] is not None else UNINIT
        return Interp.load(self, st, loc, line)

    def store(self, st, loc, v, line=0):
        if loc[0] == "c" and isinstance(loc[2], int):
            pl = self.place(st, ("cptr", loc[1], loc[2]))
            if pl is not None:
                self.poke(st, pl, [v], line)
                return
        Interp.store(self, st, loc, v, line)

    def deref(self, st, v, *rest):
        if isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).kind == "cstr":
            return ("c", v, 0)
        return Interp.deref(self, st, v, *rest)

    def index(self, st, a, b, e):
        if isinstance(b, int) and self.place(st, a) is not None:
            return ("c", a, b)
        return Interp.index(self, st, a, b, e)

    def _compare(self, st, op, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and "cptr" in (a[0], b[0]):
            x, y = self.place(st, a), self.place(st, b)
            if x is not None and y is not None and not isinstance(x[0], str) and not isinstance(y[0], str):
                if x[0] == y[0]:
                    yield from Interp._compare(self, st, op, x[1], y[1])
                    return
        yield from Interp._compare(self, st, op, a, b)

    def arith(self, st, op, a, b):
        if op == "-" and isinstance(a, tuple) and isinstance(b, tuple):
            x, y = self.place(st, a), self.place(st, b)
            if x is not None and y is not None and x[0] == y[0]:
                return x[1] - y[1]
        return Interp.arith(self, st, op, a, b)

    # ---------------------------------------------------------------- library
    def libc(self, name):
        def hook(it, st, e):
            if name == "transform" and not any(str(a.get("t", "")).rstrip().endswith("*") for a in e["c"][:1]):
                return None
            if name in ("transform", "memcpy", "memmove", "memset", "strncpy", "strcpy") and not any(
                    "char" in str(a.get("t", "")) or "void" in str(a.get("t", "")) for a in e["c"][:1]):
                return None

            def run():
                for s, vs in it.evs(e["c"], st):
                    try:
                        yield from it.lib(name, s, vs, e)
                    except Infeasible:
                        continue
            return run()
        return hook

    def pos(self, st, v):
        p = self.place(st, v)
        if p is None:
            raise Unsupported("place of a text")
        return p

    def num(self, st, v):
        k = v if isinstance(v, int) else self.known(st, v)
        if not isinstance(k, int) or not 0 <= k < 1 << 20:
            raise Unsupported("count of characters")
        return k

    def taken(self, st, v, n, line):
        p = self.pos(st, v)
        b = self.bytes(st, p[0])
        if p[1] < 0 or p[1] + n > len(b):
            self.beyond(st, line)
        return list(b[p[1]:p[1] + n])

    def lib(self, name, s, vs, e):
        line = e.get("l", 0)
        if name in ("strchr", "strrchr", "strstr"):
            h = self.string(s, self.pos(s, vs[0]), line)
            if name == "strstr":
                i = h.find(self.string(s, self.pos(s, vs[1]), line))
            else:
                c = chr(self.num(s, vs[1]))
                i = (h + "\0").find(c) if name == "strchr" else (h + "\0").rfind(c)
            yield s, NULL if i < 0 else ("cptr", vs[0], i) if i else vs[0]
        elif name in ("memcpy", "memmove"):
            self.poke(s, self.pos(s, vs[0]), self.taken(s, vs[1], self.num(s, vs[2]), line), line)
            yield s, vs[0]
        elif name == "memset":
            self.poke(s, self.pos(s, vs[0]), [self.num(s, vs[1])] * self.num(s, vs[2]), line)
            yield s, vs[0]
        elif name in ("strcpy", "strncpy"):
            t = [ord(c) for c in self.string(s, self.pos(s, vs[1]), line)] + [0]
            if name == "strncpy":
                n = self.num(s, vs[2])
                t = (t + [0] * n)[:n]
            self.poke(s, self.pos(s, vs[0]), t, line)
            yield s, vs[0]
        elif name in ("strcat", "strncat"):
            p = self.pos(s, vs[0])
            d = self.string(s, p, line)
            t = self.string(s, self.pos(s, vs[1]), line)
            if name == "strncat":
                t = t[:self.num(s, vs[2])]
            self.poke(s, (p[0], p[1] + len(d)), [ord(c) for c in t] + [0], line)
            yield s, vs[0]
        elif name == "strndup":
            t = self.string(s, self.pos(s, vs[0]), line)[:self.num(s, vs[1])]
            o = Obj("cstr", "char", "malloc", None, False, line)
            o.f["v"] = ("str", t)
            yield s, ("ptr", s.new(o))
        elif name == "strnlen":
            yield s, min(self.num(s, vs[1]), len(self.string(s, self.pos(s, vs[0]), line)))
        elif name in ("snprintf", "sprintf"):
            n = self.num(s, vs[1]) if name == "snprintf" else None
            rest = vs[2:] if n is not None else vs[1:]
            if not (isinstance(rest[0], tuple) and rest[0][0] == "str"):
                raise Unsupported("format")
            import re
            out, args = "", list(rest[1:])
            for m in re.finditer(r"%%|%([-0]*)(\d*)(\.\d+|\.\*)?(?:l|ll|h|hh|z)?([dsuic])|[^%]+|%", rest[0][1]):
                if m.group(0) == "%%":
                    out += "%"
                elif m.group(4):
                    if m.group(3) == ".*":
                        w = self.num(s, args.pop(0))
                    else:
                        w = int(m.group(3)[1:]) if m.group(3) else None
                    v = args.pop(0)
                    if m.group(4) == "s":
                        x = self.string(s, self.pos(s, v), line)[:w]
                    else:
                        k = v if isinstance(v, int) else self.known(s, v)
                        if not isinstance(k, int) or w is not None:
                            raise Unsupported("number in a format")
                        x = chr(k) if m.group(4) == "c" else str(k)
                    fill = int(m.group(2) or 0)
                    out += x.ljust(fill) if "-" in m.group(1) else x.zfill(fill) if "0" in m.group(1) else x.rjust(fill)
                elif m.group(0) == "%":
                    raise Unsupported("format")
                else:
                    out += m.group(0)
            t = [ord(c) for c in out]
            if n is None or n > 0:
                self.poke(s, self.pos(s, vs[0]), (t if n is None else t[:n - 1]) + [0], line)
            yield s, len(t)
        elif name == "transform":
            a, b, d = self.pos(s, vs[0]), self.pos(s, vs[1]), self.pos(s, vs[2])
            if len(vs) != 4 or a[0] != b[0]:
                raise Unsupported("transform")
            work = [s]
            for k in range(b[1] - a[1]):
                nxt = []
                for x in work:
                    c = self.taken(x, vs[0], k + 1, line)[k]
                    node = {"k": "Value", "v": c}
                    for y, r in models.call_with(self, x, vs[3], [c], e):
                        self.poke(y, (d[0], d[1] + k), [r], line)
                        nxt.append(y)
                work = nxt
            for x in work:
                yield x, ("cptr", vs[2], b[1] - a[1])
        else:
            raise Unsupported(name)


class Texts(Bytes, Actions):
    def __init__(self, acts, text):
        self.__dict__.update(acts.__dict__)
        self.summaries = dict(acts.summaries)
        self.bytewise()
        self.text = text
        self.faults = []
        self.MAXSTEPS = 60000

    # ---------------------------------------------------------------- the strings of the phrase
    def opaque_ptr(self, st, t, label, null="maybe", cands=None, parent=None, alloc="outside", elemcands=None):
        p = Actions.opaque_ptr(self, st, t, label, null, cands, parent, alloc, elemcands)
        o = st.w(p[1])
        if o.kind == "cstr" and strip(pointee(t)) == "char":
            x = self.text(label)
            o.f["v"] = ("str", x)
            o.f["orig"] = x
        return p


BASE = (" a b ", "aB_1", "x\\ny", "%d%s", "a.b", "2020-13-40", "n" * 70, "_", "N" * 300, "tab\there", "l" * 1100)
STRINGS = ("", "it's", 'a "b"', "x\ny", "")


def words(prog):
    """texts and characters the hand-written code mentions"""
    out = {}

    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "Str" and 0 < len(x.get("v", "")) < 40:
                out[x["v"]] = 1
                out["a" + x["v"] + "b"] = 1
            elif x.get("char"):
                c = x.get("v", "")
                c = chr(int(c)) if str(c).lstrip("-").isdigit() and 0 < int(c) < 127 else None
                if c:
                    out["a" + c + "b" + c] = 1
                    out[c + "a"] = 1
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    for f in prog.functions.values():
        if f.get("body") and "/sql/" in "/" + f.get("f", ""):
            go(f["body"])
    return list(out)


def texts(c):
    if not hasattr(c.p, "_texts"):
        c.p._texts = [w for w in words(c.p.prog) if w.isprintable() and '"' not in w][:30] + list(BASE)
    return c.p._texts


def trials(c, form):
    """(description, text of a string by its label) to evaluate a phrase with"""
    strings = {"$%d" % (i + 1) for i, s in enumerate(form) if s == "STRING"}
    for t in texts(c):
        yield t, lambda label, t=t: t
        yield t, lambda label, t=t: t + "_" + label.replace("$", "").replace("*", "")[-6:]
    if strings:
        for t in STRINGS:
            yield t, lambda label, t=t: t if label in strings else "abc"

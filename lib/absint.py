"""Path-sensitive abstract interpreter over the facts of ../tool/facts.cpp.

It evaluates a function (or one grammar action) on symbolic arguments: objects that come from outside are opaque and are
materialised field by field when they are looked at, every undetermined condition forks the state, and the conditions
taken are remembered as facts. Nothing of the analysed program is executed. Heap objects carry a life-cycle status, so
that double release, use after release, mismatched release, null dereference, reads of indeterminate values and losses
of the last reference show up as issues of the path they occur on.

What the interpreter does not understand raises Unsupported; the path concerned is then undecided and nothing is
reported for it.
"""
import re
import sys
import time

sys.setrecursionlimit(20000)

NULL = ("null",)
UNINIT = ("uninit",)
VOID = ("void",)


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Clock:
    """the time a check may use for evaluations; what is left afterwards stays undecided"""
    end = None
    ticks = 0
    over = False

    @classmethod
    def start(cls, seconds):
        cls.end, cls.over = time.monotonic() + seconds, False

    @classmethod
    def tick(cls):
        cls.ticks += 1
        if cls.ticks & 255 == 0 and cls.end is not None and time.monotonic() > cls.end:
            cls.over = True
        if cls.over:
            raise Unsupported("no time left")


class Obj:
    __slots__ = ("kind", "cls", "f", "wr", "items", "pre", "status", "alloc", "label", "null", "opq", "own", "line", "cands",
                 "parent", "orphan", "elem", "tag", "born", "elemcands", "ft")

    def __init__(self, kind, cls="", alloc="stack", label=None, opq=False, line=0):
        self.kind = kind
        self.cls = cls
        self.f = {}
        self.wr = {}
        self.items = []
        self.pre = None
        self.status = "live"
        self.alloc = alloc
        self.label = label
        self.null = "nonnull"
        self.opq = opq
        self.own = None
        self.line = line
        self.cands = None
        self.parent = None
        self.orphan = False
        self.elem = None
        self.tag = None
        self.born = 0
        self.elemcands = None
        self.ft = {}

    def clone(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.f = dict(self.f)
        o.wr = dict(self.wr)
        o.items = list(self.items)
        o.ft = dict(self.ft)
        return o


class State:
    _n = 0

    def __init__(self):
        State._n += 1
        self.id = State._n
        self.heap = {}
        self.dom = {}
        self.atoms = {}
        self.issues = []
        self.out = []
        self.env = {}
        self.next = 1
        self.undecided = None
        self.trace = []
        self.steps = 0
        self.depth = 0
        self.calls = ()
        self.infn = None
        self.flags = {}
        self.origin = {}
        self.soft = False

    def copy(self):
        s = State.__new__(State)
        State._n += 1
        s.id = State._n
        s.heap = dict(self.heap)
        s.dom = dict(self.dom)
        s.atoms = dict(self.atoms)
        s.issues = list(self.issues)
        s.out = list(self.out)
        s.env = dict(self.env)
        s.next = self.next
        s.undecided = self.undecided
        s.trace = list(self.trace)
        s.steps = self.steps
        s.depth = self.depth
        s.calls = self.calls
        s.infn = self.infn
        s.flags = dict(self.flags)
        s.origin = dict(self.origin)
        s.soft = self.soft
        # objects may now be shared: writes must clone
        State._n += 1
        self.id = State._n
        return s

    def r(self, i):
        return self.heap[i]

    def w(self, i):
        o = self.heap[i]
        if o.own != self.id:
            o = o.clone()
            o.own = self.id
            self.heap[i] = o
        return o

    def new(self, o):
        i = self.next
        self.next += 1
        o.own = self.id
        o.born = i
        self.heap[i] = o
        return i

    def issue(self, kind, msg, line=0, obj=None):
        self.issues.append((kind, msg, line))


def strip(t):
    t = t.strip()
    while True:
        n = t
        for p in ("const ", "volatile ", "struct ", "class ", "enum "):
            if n.startswith(p):
                n = n[len(p):]
        for p in (" const", "&", "&&"):
            if n.endswith(p):
                n = n[:-len(p)].strip()
        if n == t:
            return t
        t = n


def pointee(t):
    t = strip(t)
    if t.endswith("*"):
        return strip(t[:-1])
    if t.endswith("*const"):
        return strip(t[:-6])
    return None


def targ(t, n=0):
    """n-th template argument of a type string"""
    i = t.find("<")
    if i < 0:
        return ""
    depth, cur, args = 0, "", []
    for c in t[i:]:
        if c == "<":
            depth += 1
            if depth == 1:
                continue
        if c == ">":
            depth -= 1
            if depth == 0:
                args.append(cur)
                break
        if c == "," and depth == 1:
            args.append(cur)
            cur = ""
            continue
        cur += c
    return strip(args[n]) if n < len(args) else ""


def targs(t):
    out = []
    while True:
        a = targ(t, len(out))
        if not a:
            return out
        out.append(a)


INTW = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32,
        "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "__int128": 128}


def kindof(t):
    t = strip(t)
    if t.endswith(("*", "*const")):
        return None
    if t.startswith("std::vector<") or t.startswith("std::list<") or t.startswith("std::deque<") or t.startswith("std::initializer_list<") or t.startswith("std::array<"):
        return "vec"
    if t.startswith(("std::unordered_set<", "std::set<")):
        return "set"
    if t.startswith(("std::unordered_map<", "std::map<")):
        return "map"
    if t.startswith("std::basic_string<") or t.startswith("std::basic_string_view<"):
        return "string"
    if t.startswith(("std::basic_stringstream", "std::basic_ostringstream", "std::basic_ostream", "std::basic_istringstream",
                     "std::basic_ios")):
        return "stream"
    if t.startswith(("std::unique_ptr<",)):
        return "uptr"
    if t.startswith("std::pair<"):
        return "struct"
    if t in ("char",):
        return "cstr"
    if t == "void":
        return "raw"
    return None


class Interp:
    K = 2              # elements an opaque list is expanded to
    partial = False    # give up single paths rather than the whole evaluation; why is noted in lost
    fixlen = None      # ... when no other lengths are to be tried
    MAXPATHS = 4000
    MAXSTEPS = 20000
    ROUNDS = 700
    MAXDEPTH = 60

    def __init__(self, prog):
        self.prog = prog
        self.stored = None        # class -> set of shapes (children of opaque objects)
        self.residual = {}        # class -> fields its destructor does not release
        self.summaries = {}       # qn -> hook(interp, st, node, argvals) -> iterable or None
        self.mergeifs = False
        self.unk = 0
        self.lib_used = set()
        self.stringlits = {}
        self.functions_seen = set()
        self.paths = 0
        self.globs = {}
        self.strict_null = True
        self.labelfields = {}
        self.faults = []
        self.narrow = []          # (type, line): counters narrower than int
        self.lost = []            # why paths were given up

    def reasons(self):
        """why paths were given up since the last call"""
        r = sorted(set(self.lost))
        self.lost = []
        return "; ".join(r[:3])

    # ---------------------------------------------------------------- types and objects
    def enum_values(self, t):
        t = strip(t)
        e = self.prog.enums.get(t)
        if e is not None:
            return sorted(set(e.values()))
        if t == "bool":
            return [0, 1]
        return None

    def is_record(self, t):
        return strip(t) in self.prog.records

    def class_kind(self, t):
        t = strip(t)
        k = kindof(t)
        if k and k not in ("cstr", "raw"):
            return k
        if t in self.prog.records:
            return "struct"
        if t.startswith("(lambda"):
            return None
        return None

    def fresh(self, st, t, alloc="stack", label=None, opq=False, line=0):
        """a fresh object of class type t without running a constructor"""
        t = strip(t)
        k = self.class_kind(t)
        if k is None:
            raise Unsupported("object of type " + t)
        o = Obj(k, t, alloc, label, opq, line)
        if k in ("vec", "set", "map"):
            o.elem = targ(t, 0)
            if opq:
                o.pre = 0
        if k == "string":
            o.f["v"] = ("tok", label) if opq else ("str", "")
        if k == "stream":
            o.f["v"] = ("tok", label) if opq else ("str", "")
            o.f["clean"] = 0 if opq else 1
        if k == "uptr":
            o.f["p"] = NULL
        return st.new(o)

    def opaque_ptr(self, st, t, label, null="maybe", cands=None, parent=None, alloc="outside", elemcands=None):
        """pointer of type t to an opaque object"""
        pt = pointee(t)
        if pt is None:
            raise Unsupported("opaque pointer of type " + t)
        k = kindof(pt)
        if pt in self.prog.records:
            k = "struct"
        if k is None and (pt.endswith("*") or pt in INTW or pt in ("float", "double") or pt in self.prog.enums):
            o = Obj("box", pt, alloc, label, True)
        elif k == "cstr":
            o = Obj("cstr", "char", alloc, label, True)
        elif k == "raw" or pt in ("_IO_FILE", "FILE"):
            o = Obj("raw", "void", alloc, label, True)
        elif k is None:
            raise Unsupported("opaque pointer to " + pt)
        else:
            i = self.fresh(st, pt, alloc, label, True)
            o = st.w(i)
            o.null = null
            o.cands = cands
            o.parent = parent
            o.elemcands = elemcands
            return ("ptr", i)
        o.null = null
        o.parent = parent
        return ("ptr", st.new(o))

    def opaque_scalar(self, st, t, label, origin=None, dom=None):
        v = ("sym", label)
        vals = self.enum_values(t)
        if dom is not None:
            if len(dom) == 1:
                pass
            st.dom.setdefault(v, ("in", frozenset(dom)))
        elif vals is not None and len(vals) < 64:
            st.dom.setdefault(v, ("in", frozenset(vals)))
        if origin:
            st.origin[v] = origin
        return v

    def fieldtype(self, cls, name):
        if cls.startswith("std::pair<"):
            return {"first": targ(cls, 0), "second": targ(cls, 1)}[name]
        for f in self.prog.all_fields(cls):
            if f["name"] == name:
                return f["t"]
        for sub in self.allsubs(cls):
            for f in self.prog.all_fields(sub):
                if f["name"] == name:
                    return f["t"]
        raise Unsupported("field %s of %s" % (name, cls))

    def allsubs(self, cls):
        out = []
        for s in sorted(self.prog.subclasses.get(cls, ())):
            out.append(s)
            out += self.allsubs(s)
        return out

    def shape_child(self, t):
        """candidate shapes for an opaque child object of pointee type t"""
        if self.stored is None:
            return None
        pt = pointee(t) or strip(t)
        if pt in self.prog.records:
            r = []
            for c in [pt] + self.allsubs(pt):
                r += list(self.stored.get(c, ()))
            if not r:
                raise Infeasible("no %s exists yet" % pt)
            return r
        return None

    def getfield(self, st, oid, name, line=0):
        """value of a field; materialises fields of opaque objects"""
        o = st.r(oid)
        if name in o.f:
            return o.f[name]
        if not o.opq:
            t = o.ft.get(name) or self.fieldtype(o.cls, name)
            if self.class_kind(t):
                i = self.fresh(st, t)
                st.w(oid).f[name] = ("obj", i)
                return ("obj", i)
            return UNINIT
        t = self.fieldtype(o.cls, name)
        label = "%s.%s" % (o.label, name)
        stat = None
        if o.cands is not None:
            stat = {dict(c).get(name, "any") for c in o.cands}
        if pointee(t) is not None:
            if stat == {"null"}:
                v = NULL
            else:
                if stat is None:
                    nul = "maybe"
                elif stat == {"uninit"} or "uninit" in stat:
                    nul = "maybe"
                    st.issue("uninit", "indeterminate pointer %s is read" % label, line)
                elif stat <= {"nn"}:
                    nul = "nonnull"
                else:
                    nul = "maybe"
                v = self.opaque_ptr(st, t, label, nul, self.shape_child(t), (oid, name))
                if o.cands is not None and kindof(pointee(t)) == "vec":
                    empty = {dict(c).get("#" + name) == "empty" for c in o.cands if dict(c).get(name) != "null"}
                    if True in empty:
                        st.w(v[1]).pre = [0] if empty == {True} else [0, -1]
        elif self.class_kind(t):
            i = self.fresh(st, t, "sub", label, True)
            v = ("obj", i)
            st.w(i).parent = (oid, name)
        else:
            dom = None
            if stat is not None:
                if "uninit" in stat:
                    st.issue("uninit", "indeterminate value %s is read" % label, line)
                if all(isinstance(x, tuple) for x in stat):
                    dom = [x[1] for x in stat]
            v = self.opaque_scalar(st, t, label, (oid, name), dom)
        st.w(oid).f[name] = v
        return v

    def filter_cands(self, st, oid, name, pred):
        o = st.r(oid)
        if o.cands is None:
            return
        c = [x for x in o.cands if pred(dict(x).get(name, "any"))]
        if not c:
            raise Infeasible(o.label + "." + name)
        if len(c) != len(o.cands):
            st.w(oid).cands = c
            self.propagate(st, oid)

    def propagate(self, st, oid):
        """narrow materialised, undecided fields after the candidate shapes of an object were narrowed"""
        o = st.r(oid)
        for name, v in list(o.f.items()):
            if name in o.wr or o.cands is None:
                continue
            stat = {dict(c).get(name, "any") for c in o.cands}
            if v[0] == "ptr" and v[1] in st.heap:
                ch = st.r(v[1])
                if ch.opq and ch.null == "maybe" and ch.parent == (oid, name):
                    if stat <= {"null"}:
                        st.w(v[1]).null = "null"
                    elif stat <= {"nn"}:
                        st.w(v[1]).null = "nonnull"
            elif v[0] == "sym" and all(isinstance(x, tuple) for x in stat):
                d = st.dom.get(v)
                vals = frozenset(x[1] for x in stat)
                if d is None:
                    st.dom[v] = ("in", vals)
                elif d[0] == "in":
                    n = d[1] & vals
                    if not n:
                        raise Infeasible(str(v))
                    st.dom[v] = ("in", n)

    def set_null(self, st, oid, isnull):
        o = st.w(oid)
        o.null = "null" if isnull else "nonnull"
        st.trace.append(("null" if isnull else "nonnull", o.label))
        if o.parent and o.parent[0] in st.heap:
            p, name = o.parent
            po = st.r(p)
            if po.f.get(name) == ("ptr", oid) and name not in po.wr:
                self.filter_cands(st, p, name, (lambda s: s in ("null", "maybe", "any", "uninit")) if isnull else (lambda s: s in ("nn", "maybe", "any", "uninit")))

    # ---------------------------------------------------------------- scalars
    def dom_of(self, st, v):
        return st.dom.get(v)

    def known(self, st, v):
        """the constant a value is known to be, or None"""
        if isinstance(v, int):
            return v
        d = st.dom.get(v)
        if d and d[0] == "in" and len(d[1]) == 1:
            return next(iter(d[1]))
        return None

    def assume_eq(self, st, v, c, eq):
        """assume v == c or v != c; raises Infeasible"""
        if isinstance(v, int):
            if (v == c) != eq:
                raise Infeasible()
            return
        d = st.dom.get(v)
        if d is None:
            n = ("in", frozenset([c])) if eq else ("out", frozenset([c]))
        elif d[0] == "in":
            s = d[1] & {c} if eq else d[1] - {c}
            if not s:
                raise Infeasible()
            n = ("in", frozenset(s))
        else:
            if eq:
                if c in d[1]:
                    raise Infeasible()
                n = ("in", frozenset([c]))
            else:
                n = ("out", d[1] | {c})
        if n != d:
            st.dom[v] = n
            st.trace.append(("==" if eq else "!=", v, c))
            # string comparison: a subject equals at most one constant
            if v[0] == "scmp" and eq and c == 0:
                for w in list(st.dom):
                    if w[0] == "scmp" and w != v and w[1] == v[1]:
                        same = w[2].lower() == v[2].lower() if (w[3] or v[3]) else w[2] == v[2]
                        if not same:
                            self.assume_eq(st, w, 0, False)
                        elif w[3]:
                            self.assume_eq(st, w, 0, True)
            if v in st.origin:
                oid, name = st.origin[v]
                if oid in st.heap and st.r(oid).f.get(name) == v and name not in st.r(oid).wr:
                    k = n[1] if n[0] == "in" else None
                    o = n[1] if n[0] == "out" else ()
                    self.filter_cands(st, oid, name, lambda s: not isinstance(s, tuple) or ((s[1] in k) if k is not None else s[1] not in o))

    def scmp_known(self, st, v):
        """('scmp', subject, const, ci): decided by what is known of the subject?"""
        for w, d in st.dom.items():
            if w[0] == "scmp" and w[1] == v[1] and d == ("in", frozenset([0])):
                if w[3] and not v[3]:
                    if w[2].lower() != v[2].lower():
                        return 1
                    continue
                if v[3]:
                    return 0 if w[2].lower() == v[2].lower() else 1
                return 0 if w[2] == v[2] else 1
        return None

    def eq(self, st, v, c):
        """fork on v == c (c an int)"""
        if isinstance(v, int):
            yield st, v == c
            return
        if v[0] == "scmp":
            k = self.scmp_known(st, v)
            if k is not None:
                if c == 0:
                    yield st, k == 0
                    return
        if v[0] == "lin":
            yield from self.eq(st, v[1], c - v[2])
            return
        if c == 0 and v[0] == "app" and len(v) == 4 and v[1] in ("-", "^") and not any(is_ptr(x) for x in v[2:]):
            # a - b and a ^ b are 0 exactly for equal operands
            for s, q in self._compare(st, "==", v[2], v[3]):
                yield s, bool(q)
            return
        st2 = st.copy()
        try:
            self.assume_eq(st, v, c, True)
            yield st, True
        except Infeasible:
            pass
        try:
            self.assume_eq(st2, v, c, False)
            yield st2, False
        except Infeasible:
            pass

    def atom(self, st, a):
        if a in st.atoms:
            yield st, st.atoms[a]
            return
        st2 = st.copy()
        st.atoms[a] = True
        st.trace.append(("atom", a))
        yield st, True
        st2.atoms[a] = False
        st2.trace.append(("not", a))
        yield st2, False

    def truth(self, st, v, line=0):
        if isinstance(v, bool):
            yield st, v
        elif isinstance(v, int):
            yield st, v != 0
        elif v == NULL:
            yield st, False
        elif v == UNINIT:
            st.issue("uninit", "condition depends on an indeterminate value", line)
            yield st, True
        elif v[0] == "ptr":
            yield from self.notnull(st, v)
        elif v[0] in ("str", "pl", "lam", "fn", "cs", "it", "cptr"):
            yield st, True
        elif v[0] == "not":
            for s, b in self.truth(st, v[1], line):
                yield s, not b
        elif v[0] == "cond":
            yield from self.atom(st, v[1])
        elif v[0] == "size":
            for s, n in self.force(st, v):
                yield s, n != 0
        else:
            for s, b in self.eq(st, v, 0):
                yield s, not b

    def notnull(self, st, v):
        if v == NULL:
            yield st, False
            return
        if v[0] != "ptr":
            yield st, True
            return
        o = st.r(v[1])
        if o.null == "nonnull":
            yield st, True
        elif o.null == "null":
            yield st, False
        else:
            st2 = st.copy()
            try:
                self.set_null(st, v[1], False)
                yield st, True
            except Infeasible:
                pass
            try:
                self.set_null(st2, v[1], True)
                yield st2, False
            except Infeasible:
                pass

    def force(self, st, v):
        """resolve a ('size', ...) value to an int by expanding the list"""
        if isinstance(v, tuple) and v[0] == "size":
            for s in self.expand(st, v[1]):
                o = s.r(v[1])
                yield s, o.tag + v[2]
        elif isinstance(v, tuple) and v[0] == "lin" and isinstance(v[1], tuple) and v[1][0] == "size":
            for s, n in self.force(st, v[1]):
                yield s, n + v[2]
        else:
            yield st, v

    def expand(self, st, oid):
        """make the elements of an opaque list explicit"""
        o = st.r(oid)
        if o.pre is None:
            yield st
            return
        if o.kind == "set" and self.enum_values(o.elem):
            yield from self.expand_enum_set(st, oid)
            return
        if self.fixlen is not None:
            usual = [self.fixlen]
        else:
            usual = [self.K] + sorted(n for n in lengths(self.prog, st.infn) if n != self.K)
        lens = usual
        if isinstance(o.pre, (list, tuple)):
            lens = []
            for n in o.pre:
                lens += usual if n == -1 else [n]      # -1: any number of elements but none
        # which of the possible shapes of the owner the list belongs to depends on whether it is empty
        which = isinstance(o.pre, list) and -1 in o.pre and o.parent is not None
        for j, n in enumerate(lens):
            s = st.copy() if j + 1 < len(lens) else st
            if which:
                try:
                    self.filter_cands(s, o.parent[0], "#" + o.parent[1], (lambda x: x == "empty") if n == 0 else (lambda x: x != "empty"))
                except Infeasible:
                    continue
            o = s.w(oid)
            o.pre = None
            o.tag = n
            el = []
            for i in range(n):
                lab = "%s[%d]" % (o.label, i)
                if pointee(o.elem) is not None:
                    c = list(o.elemcands) if o.elemcands is not None else self.shape_child(o.elem)
                    p = self.opaque_ptr(s, o.elem, lab, "nonnull", c, (oid, i))
                    el.append(p)
                elif self.class_kind(o.elem):
                    el.append(("obj", self.fresh(s, o.elem, "sub", lab, True)))
                else:
                    el.append(self.opaque_scalar(s, o.elem, lab))
            o = s.w(oid)
            o.items = el + o.items
            yield s

    def not_empty(self, st, oid):
        """settle that a list has elements, where it can have none"""
        o = st.r(oid)
        if isinstance(o.pre, list) and -1 in o.pre:
            if o.parent is not None:
                self.filter_cands(st, o.parent[0], "#" + o.parent[1], lambda x: x != "empty")
            st.w(oid).pre = 0

    def expand_enum_set(self, st, oid):
        """fork over the content of an opaque set of enumerators"""
        o = st.r(oid)
        states = [(st, [])]
        for k in sorted(self.enum_values(o.elem)):
            if k in o.items:
                continue
            nxt = []
            for s, have in states:
                for s2, q in self.atom(s, ("in", o.label, k)):
                    nxt.append((s2, have + [k] if q else have))
            states = nxt
        for s, have in states:
            orders = [have] if len(have) < 2 else [have, have[::-1]]
            for j, h in enumerate(orders):
                x = s.copy() if j + 1 < len(orders) else s
                w = x.w(oid)
                w.pre = None
                w.tag = len(h)
                w.items = h + w.items
                yield x

    # ---------------------------------------------------------------- locations
    def load(self, st, loc, line=0):
        k = loc[0]
        if k == "f":
            o = st.r(loc[1])
            if o.status == "freed":
                st.issue("uaf", "%s is read after its release" % self.describe(st, loc[1]), line)
            if o.kind == "frame":
                return o.f.get(loc[2], UNINIT)
            return self.getfield(st, loc[1], loc[2], line)
        if k == "o":
            o = st.r(loc[1])
            if o.kind == "box":
                if o.status == "freed":
                    st.issue("uaf", "%s is read after its release" % self.describe(st, loc[1]), line)
                if "v" not in o.f:
                    if o.opq:
                        t = o.cls
                        st.w(loc[1]).f["v"] = self.opaque_ptr(st, t, "*" + o.label) if pointee(t) else self.opaque_scalar(st, t, "*" + o.label)
                    else:
                        return UNINIT
                return st.r(loc[1]).f["v"]
            return ("obj", loc[1])
        if k == "e":
            o = st.r(loc[1])
            if o.status == "freed":
                st.issue("uaf", "%s is read after its release" % self.describe(st, loc[1]), line)
            if loc[2] >= len(o.items) or loc[2] < 0:
                st.issue("oob", "access beyond the elements of %s" % self.describe(st, loc[1]), line)
                raise Unsupported("out of bounds")
            return o.items[loc[2]]
        if k == "c":  # a character: ('c', pointer value, index)
            base = loc[1][1] if isinstance(loc[1], tuple) and loc[1][0] == "cptr" else loc[1]
            if base == NULL:
                st.issue("null", "a character of a null string is read", line)
                raise Unsupported("null string")
            if isinstance(base, tuple) and base[0] == "ptr" and st.r(base[1]).kind == "cstr":
                self.use_cstr(st, base, {"l": line})
            known, i = loc[1], loc[2]
            if isinstance(known, tuple) and known[0] == "cptr" and isinstance(i, int) and isinstance(known[2], int):
                known, i = known[1], known[2] + i
            if isinstance(known, tuple) and known[0] == "cs":
                known = known[1]
            if isinstance(known, tuple) and known[0] == "str" and isinstance(i, int) and 0 <= i <= len(known[1]):
                return ord((known[1] + "\0")[i])
            return ("app", "char", self.term(st, loc[1]), loc[2])
        if k == "const":
            return loc[1]
        raise Unsupported("load " + str(loc))

    def store(self, st, loc, v, line=0):
        k = loc[0]
        if k == "const":
            raise Unsupported("store to a constant")
        if k == "o":
            o = st.r(loc[1])
            if o.kind == "box":
                st.w(loc[1]).f["v"] = v
                return
            if v[0] == "obj":
                self.assign_obj(st, loc[1], v[1], line)
                return
            raise Unsupported("store to object")
        if k == "c":
            p = loc[1]
            if isinstance(p, tuple) and p[0] == "ptr" and st.r(p[1]).kind == "cstr" and v == 0:
                w = st.w(p[1])
                c = w.f.get("v")
                if isinstance(c, tuple) and c[0] == "nterm" and self.term(st, loc[2]) == c[3]:
                    w.f["v"] = ("sub",) + c[1:]
                    return
                if isinstance(c, tuple) and c[0] == "sub" and len(c) == 4 and self.term(st, loc[2]) == c[3]:
                    return
                if isinstance(c, tuple) and c[0] == "nterm":
                    x, y = self.term(st, loc[2]), c[3]
                    bx, dx = (x[1], x[2]) if isinstance(x, tuple) and x[0] == "lin" else (None, x) if isinstance(x, int) else (x, 0)
                    by, dy = (y[1], y[2]) if isinstance(y, tuple) and y[0] == "lin" else (None, y) if isinstance(y, int) else (y, 0)
                    if bx == by and dx < dy:
                        w.f["v"] = ("sub", c[1], c[2], x)
                        return
                    if bx == by and dx > dy:
                        st.issue("uninit", "%d characters in front of the end of the copied text are never set" % (dx - dy), line)
                        w.f["v"] = ("sub", c[1], c[2], y)
                        return
            if isinstance(p, tuple) and p[0] == "cptr" and isinstance(loc[2], int) and isinstance(p[2], int):
                p = p[1]
            if isinstance(p, tuple) and p[0] == "ptr" and st.r(p[1]).kind == "cstr" and st.r(p[1]).opq:
                # a text that was handed over is changed
                if self.load(st, loc, line) != v:
                    w = st.w(p[1])
                    if w.status == "freed":
                        st.issue("uaf", "%s is written after its release" % self.describe(st, p[1]), line)
                    w.f["v"] = ("edited", self.content(st, p), self.term(st, loc[2]), self.term(st, v))
                    w.wr["v"] = line
                return
            raise Unsupported("store to a character")
        o = st.r(loc[1])
        if o.status == "freed":
            st.issue("uaf", "%s is written after its release" % self.describe(st, loc[1]), line)
        if k == "e":
            if loc[2] >= len(o.items) or loc[2] < 0:
                st.issue("oob", "access beyond the elements of %s" % self.describe(st, loc[1]), line)
                raise Unsupported("out of bounds")
            w = st.w(loc[1])
            if w.items[loc[2]] != v:
                w.items[loc[2]] = v
                w.wr["#"] = line
            return
        if o.kind == "frame":
            st.w(loc[1]).f[loc[2]] = v
            return
        name = loc[2]
        old = o.f.get(name)
        if o.opq and name not in o.f:
            t = self.fieldtype(o.cls, name)
            if pointee(t) is not None:
                n = len(st.issues)
                old = self.getfield(st, loc[1], name, line)
                del st.issues[n:]
        if old is not None and old[0] == "ptr" if isinstance(old, tuple) else False:
            ch = st.r(old[1])
            if ch.parent == (loc[1], name) and v != old:
                st.w(old[1]).orphan = line or 1
        if old is not None and isinstance(old, tuple) and old[0] == "obj" and isinstance(v, tuple) and v[0] == "obj":
            self.assign_obj(st, old[1], v[1], line)
            st.w(loc[1]).wr[name] = line
            return
        w = st.w(loc[1])
        w.f[name] = v
        w.wr[name] = line

    def assign_obj(self, st, dst, src, line=0):
        """copy the value of one class object over another"""
        if dst == src:
            return
        for n, v in self.copied(st, src).items():
            o = st.w(dst)
            if n == "#items":
                o.items = v[0]
                o.pre = v[1]
                o.tag = v[2]
                o.label = v[3]
                o.opq = v[4]
                continue
            t = v
            if isinstance(v, tuple) and v[0] == "obj":
                t = ("obj", self.copy_obj(st, v[1]))
            st.w(dst).f[n] = t
            st.w(dst).wr[n] = line

    def copied(self, st, src):
        o = st.r(src)
        if o.kind in ("vec", "set", "map"):
            return {"#items": (list(o.items), o.pre, o.tag, o.label, o.opq)}
        if o.kind == "struct":
            names = [f["name"] for f in self.prog.all_fields(o.cls)] if o.cls in self.prog.records else ["first", "second"]
            return {n: self.getfield(st, src, n) for n in names}
        return dict(o.f)

    def copy_obj(self, st, src, alloc="stack"):
        o = st.r(src)
        n = self.fresh(st, o.cls, alloc) if self.class_kind(o.cls) else None
        if n is None:
            raise Unsupported("copy of " + o.cls)
        if o.kind == "struct" and o.opq and o.cands is not None:
            st.w(n).cands = None
        self.assign_obj(st, n, src)
        st.w(n).wr = {}
        return n

    def describe(self, st, oid):
        o = st.r(oid)
        if o.label:
            return o.label
        return "%s allocated at line %s" % (o.cls or o.kind, o.line)

    # pointer -> location of the pointee
    def deref(self, st, v, line=0, what=""):
        if v == NULL:
            st.issue("null", "null pointer is dereferenced %s" % what, line)
            raise Infeasible("null deref")
        if v == UNINIT:
            st.issue("uninit", "indeterminate pointer is dereferenced %s" % what, line)
            raise Infeasible("uninit deref")
        if v[0] == "ptr":
            o = st.r(v[1])
            if o.null == "null":
                st.issue("null", "null pointer %s is dereferenced" % (o.label or ""), line)
                raise Infeasible("null deref")
            if o.null == "maybe":
                if self.strict_null:
                    s2 = st.copy()
                    try:
                        self.set_null(s2, v[1], True)
                        st.issue("null", "%s is dereferenced although it can be null" % o.label, line)
                    except Infeasible:
                        pass
                self.set_null(st, v[1], False)
            if o.status == "freed":
                st.issue("uaf", "%s is used after its release" % self.describe(st, v[1]), line)
            return ("o", v[1])
        if v[0] == "pl":
            return v[1]
        if v[0] in ("str", "cs", "cptr"):
            return ("c", v, 0)
        raise Unsupported("deref of " + str(v)[:80])

    # ---------------------------------------------------------------- terms
    def term(self, st, v, depth=0):
        """canonical form of a value, without object identities"""
        if isinstance(v, int):
            return v
        if not isinstance(v, tuple):
            return v
        if v[0] in ("ptr", "obj"):
            o = st.r(v[1])
            if v[0] == "ptr" and o.null == "null":
                return NULL
            if o.kind == "cstr":
                if o.opq:
                    return ("tok", o.label)
                return ("cstr", o.f.get("v"))
            if o.kind == "string":
                return ("string", o.f["v"])
            if o.opq and not o.wr:
                return ("tok", o.label)
            if depth > 6:
                return ("...",)
            if o.kind == "struct":
                return (o.cls, o.label if o.opq else None, tuple(sorted((n, self.term(st, x, depth + 1)) for n, x in o.f.items())))
            return (o.kind, o.label if o.opq else None, tuple(self.term(st, x, depth + 1) for x in o.items))
        if v[0] == "size":
            o = st.r(v[1])
            return ("size", o.label, v[2])
        if v[0] == "lin" and isinstance(v[1], tuple):
            return ("lin", self.term(st, v[1], depth), v[2])
        return v

    def content(self, st, v):
        """content of a C string or std::string as a term"""
        if v == NULL:
            return NULL
        if v[0] == "str":
            return v
        if v[0] == "cs":
            return v[1]
        if v[0] == "cptr":
            return ("suffix", self.content(st, v[1]), v[2])
        if v[0] in ("ptr", "obj"):
            o = st.r(v[1])
            if v[0] == "ptr" and o.null == "null":
                return NULL
            if o.kind == "cstr":
                return o.f["v"] if "v" in o.f else ("tok", o.label)
            if o.kind in ("string", "stream"):
                return o.f["v"]
        return v

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        """yields (state, value) for an rvalue"""
        st.steps += 1
        if st.steps > self.MAXSTEPS:
            raise Unsupported("too many steps")
        Clock.tick()
        k = e["k"]
        if "cv" in e and k not in ("Call", "Assign", "CAssign") and not (k == "Cast" and e["ck"] == "LValueToRValue" and False):
            if kindconst(e):
                yield st, int(e["cv"])
                return
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k + " " + e.get("cls", ""))
        yield from m(e, st)

    def e_Int(self, e, st):
        yield st, int(e["v"])

    def e_Bool(self, e, st):
        yield st, 1 if e["v"] else 0

    def e_Float(self, e, st):
        yield st, ("flt", e["v"])

    def e_Str(self, e, st):
        yield st, ("str", e.get("v", ""))

    def e_Nullptr(self, e, st):
        yield st, NULL

    def e_ZeroInit(self, e, st):
        t = e["t"]
        if pointee(t) is not None:
            yield st, NULL
        elif self.class_kind(t):
            i = self.fresh(st, t)
            self.zero(st, i)
            yield st, ("obj", i)
        else:
            yield st, 0

    def zero(self, st, oid):
        o = st.r(oid)
        if o.kind == "struct":
            fs = self.prog.all_fields(o.cls) if o.cls in self.prog.records else [{"name": "first", "t": targ(o.cls, 0)}, {"name": "second", "t": targ(o.cls, 1)}]
            for f in fs:
                st.w(oid).f[f["name"]] = self.zeroval(st, f["t"])

    def zeroval(self, st, t):
        if pointee(t) is not None:
            return NULL
        if self.class_kind(t):
            i = self.fresh(st, t)
            self.zero(st, i)
            return ("obj", i)
        if strip(t) in ("double", "float"):
            return ("flt", "0")
        return 0

    def e_SizeOf(self, e, st):
        yield st, int(e["cv"]) if "cv" in e else ("sym", "sizeof")

    def e_This(self, e, st):
        yield st, ("ptr", st.env["this"])

    def e_Other(self, e, st):
        raise Unsupported("expression " + e.get("cls", "?"))

    def e_Lambda(self, e, st):
        env = dict(st.env)
        states = [(st, env)]
        for c in e.get("caps", []):
            if not c.get("id"):
                continue
            if c.get("init") is not None:
                nxt = []
                for s, env in states:
                    for s2, v in (((x, ("loc", l)) for x, l in self.lv(c["init"], s)) if c.get("byref") else self.ev(c["init"], s)):
                        env2 = dict(env)
                        env2[c["id"]] = self.held(s2, v)
                        nxt.append((s2, env2))
                states = nxt
            elif not c.get("byref"):
                for s, env in states:
                    l = env.get(c["id"])
                    if l is None:
                        continue
                    v = ("obj", l[1]) if l[0] == "o" else self.load(s, l)
                    if v == UNINIT:
                        continue
                    if isinstance(v, tuple) and v[0] == "obj":
                        v = ("obj", self.copy_obj(s, v[1]))
                    env[c["id"]] = self.held(s, v)
        for s, env in states:
            yield s, ("lam", id(e), self._keep(e, env))

    def held(self, st, v):
        """location of a variable with a value of its own"""
        if isinstance(v, tuple) and v[0] == "loc":
            return v[1]
        if isinstance(v, tuple) and v[0] == "obj":
            return ("o", v[1])
        o = Obj("frame", "", "stack", "captured")
        o.f["v"] = v
        return ("f", st.new(o), "v")

    def _keep(self, node, env):
        self.globs.setdefault("#lam", []).append((node, env))
        return len(self.globs["#lam"]) - 1

    def e_Ref(self, e, st):
        if e["dk"] == "enum":
            yield st, int(e["v"])
        elif e["dk"] == "fn":
            yield st, ("fn", e["usr"], e.get("name"))
        else:
            for s, l in self.lv(e, st):
                yield s, self.load(s, l, e.get("l", 0))

    def e_Member(self, e, st):
        for s, l in self.lv(e, st):
            yield s, self.load(s, l, e.get("l", 0))

    e_Index = e_Member

    # ---- lvalues
    def lv(self, e, st):
        k = e["k"]
        st.steps += 1
        m = getattr(self, "l_" + k, None)
        if m is None:
            # a prvalue used as glvalue: temporary
            for s, v in self.ev(e, st):
                yield s, self.tmploc(s, v, e.get("t", ""))
            return
        yield from m(e, st)

    def tmploc(self, st, v, t=""):
        if isinstance(v, tuple) and v[0] == "obj":
            return ("o", v[1])
        if isinstance(v, tuple) and v[0] == "loc":
            return v[1]
        o = Obj("frame", "", "stack", "tmp")
        o.f["v"] = v
        return ("f", st.new(o), "v")

    def l_Ref(self, e, st):
        if e["dk"] == "binding" or e["dk"] == "var" or e["dk"] == "Binding" or e["dk"] == "Var" or e["dk"] == "Decomposition":
            h = self.special_ref(e, st)
            if h is not None:
                yield st, h
                return
            if e.get("glob"):
                for s, l in self.global_loc(e, st):
                    yield s, l
                return
            key = e["id"]
            if key not in st.env:
                raise Unsupported("variable " + e["name"])
            yield st, st.env[key]
        elif e["dk"] == "enum":
            yield st, ("const", int(e["v"]))
        elif e["dk"] == "fn":
            yield st, ("const", ("fn", e["usr"], e.get("name")))
        else:
            raise Unsupported("reference to " + e["dk"])

    def special_ref(self, e, st):
        return None

    def global_loc(self, e, st):
        gu = e.get("gu")
        key = ("g", gu)
        if key in st.env:
            yield st, st.env[key]
            return
        v = self.prog.vars.get(gu)
        name = e.get("qn", e["name"])
        if name in ("std::cout", "std::cerr", "std::clog", "std::endl"):
            o = Obj("stream", "std::basic_ostream<char>", "static", name, True)
            o.f["v"] = ("str", "")
            o.f["clean"] = 1
            st.env[key] = ("o", st.new(o))
            yield st, st.env[key]
            return
        if name in ("stderr", "stdout", "stdin"):
            yield st, ("const", ("sym", name))
            return
        if v is None:
            raise Unsupported("global " + name)
        if "init" in v and (v.get("const") or v.get("static") or True):
            base = st
            t = v["t"]
            if v.get("arr") is not None and v["init"]["k"] == "Str":
                yield st, ("const", ("str", v["init"].get("v", "")))
                return
            mutable = not v.get("const") or pointee(t) and v["init"].get("k") in ("New", "Call", "Cast") and not str(pointee(t)).startswith("const ")
            if mutable:
                # a mutable static: its value is that of earlier calls
                if self.class_kind(t):
                    i = self.fresh(st, t, "static", "static " + v["name"], True)
                    st.env[key] = ("o", i)
                else:
                    fo = Obj("frame", "", "static", "static " + v["name"])
                    fo.f["v"] = self.opaque_ptr(st, t, "static " + v["name"]) if pointee(t) else self.opaque_scalar(st, t, "static " + v["name"])
                    st.env[key] = ("f", st.new(fo), "v")
                yield st, st.env[key]
                return
            for s, val in self.init(v["init"], base, t):
                if isinstance(val, tuple) and val[0] == "obj":
                    s.env[key] = ("o", val[1])
                else:
                    fo = Obj("frame", "", "static", name)
                    fo.f["v"] = val
                    s.env[key] = ("f", s.new(fo), "v")
                yield s, s.env[key]
            return
        t = v["t"]
        if self.class_kind(t):
            st.env[key] = ("o", self.fresh(st, t, "static", "static " + v["name"], True))
        else:
            fo = Obj("frame", "", "static", "static " + v["name"])
            fo.f["v"] = self.opaque_ptr(st, t, "static " + v["name"]) if pointee(t) else self.opaque_scalar(st, t, "static " + v["name"])
            st.env[key] = ("f", st.new(fo), "v")
        yield st, st.env[key]

    def l_Member(self, e, st):
        if not e.get("field"):
            if e.get("dk") == "var":
                yield from self.l_Ref(e, st)
                return
            raise Unsupported("member " + e["name"])
        h = self.special_member(e, st)
        if h is not None:
            yield from h
            return
        name = e["name"]
        if e["arrow"]:
            for s, v in self.ev(e["b"], st):
                try:
                    if isinstance(v, tuple) and v[0] == "it":
                        for s2, l in self.it_loc(s, v):
                            yield s2, self.member_of(s2, l, name, e)
                        continue
                    l = self.deref(s, v, e.get("l", 0), "for " + name)
                    r = self.member_of(s, l, name, e)
                except Infeasible:
                    self.dead(s)
                    continue
                yield s, r
        else:
            for s, l in self.lv(e["b"], st):
                yield s, self.member_of(s, l, name, e)

    def special_member(self, e, st):
        return None

    def dead(self, st):
        """a path that ends in a fault: its issues still count"""
        if st.issues:
            self.faults.append(st)

    def member_of(self, st, loc, name, e):
        if loc[0] in ("f", "e"):
            v = self.load(st, loc, e.get("l", 0))
            if isinstance(v, tuple) and v[0] == "obj":
                loc = ("o", v[1])
            else:
                raise Unsupported("member %s of %s" % (name, str(v)[:60]))
        if loc[0] != "o":
            raise Unsupported("member %s of %s" % (name, str(loc)[:60]))
        o = st.r(loc[1])
        if o.kind == "raw":
            par = e.get("parent")
            if par in self.prog.records:
                w = st.w(loc[1])
                w.kind, w.cls = "struct", par
                o = w
        if o.kind != "struct":
            raise Unsupported("member %s of a %s" % (name, o.kind))
        if o.status == "freed":
            st.issue("uaf", "%s.%s is used after the release of its object" % (self.describe(st, loc[1]), name), e.get("l", 0))
        v = o.f.get(name)
        if v is None:
            t = e["t"]
            if self.class_kind(t):
                v = self.getfield(st, loc[1], name, e.get("l", 0))
        if isinstance(v, tuple) and v[0] == "obj":
            return ("o", v[1])
        return ("f", loc[1], name)

    def l_Index(self, e, st):
        for s, a in self.ev(e["a"], st):
            for s2, b in self.ev(e["b"], s):
                if a == NULL or isinstance(a, tuple) and a[0] == "ptr" and s2.r(a[1]).null == "null":
                    s2.issue("null", "an element of a null pointer is used", e.get("l", 0))
                    self.dead(s2)
                    continue
                yield s2, self.index(s2, a, b, e)

    def index(self, st, a, b, e):
        if isinstance(a, tuple) and a[0] == "ptr":
            o = st.r(a[1])
            if o.kind == "cstr":
                if o.status == "freed":
                    st.issue("uaf", "%s is read after its release" % self.describe(st, a[1]), e.get("l", 0))
                if o.opq or "v" in o.f:
                    return ("c", a, b)
            if o.kind in ("arr", "vec") and isinstance(b, int):
                return ("e", a[1], b)
            raise Unsupported("index of " + o.kind)
        if isinstance(a, tuple) and a[0] in ("str", "cs", "cptr"):
            return ("c", a, b)
        if isinstance(a, tuple) and a[0] == "pl" and a[1][0] == "e" and isinstance(b, int):
            return ("e", a[1][1], a[1][2] + b)
        raise Unsupported("index of %s" % (str(a)[:60],))

    def l_Un(self, e, st):
        op = e["op"]
        if op == "*":
            for s, v in self.ev(e["e"], st):
                try:
                    if isinstance(v, tuple) and v[0] == "it":
                        yield from self.it_loc(s, v)
                        continue
                    l = self.deref(s, v, e.get("l", 0))
                except Infeasible:
                    self.dead(s)
                    continue
                yield s, l
        elif op in ("++", "--"):
            for s, l in self.lv(e["e"], st):
                for s2, v in self.incr(s, l, 1 if op == "++" else -1, e):
                    yield s2, l
        else:
            for s, v in self.ev(e, st):
                yield s, self.tmploc(s, v)

    def incr(self, st, l, d, e):
        v = self.load(st, l, e.get("l", 0))
        if isinstance(v, tuple) and v[0] == "it":
            n = self.add(v, d)
        elif isinstance(v, tuple) and v[0] == "cptr":
            n = ("cptr", v[1], v[2] + d)
        elif isinstance(v, tuple) and v[0] in ("ptr", "str", "cs"):
            n = ("cptr", v, d)
        elif isinstance(v, tuple) and v[0] == "pl" and v[1][0] == "e":
            n = ("pl", ("e", v[1][1], v[1][2] + d))
        else:
            for s, n in self.wrapped(st, self.narrowed(st, self.add(v, d), e.get("t", ""), e), e.get("t", "")):
                self.store(s, l, n, e.get("l", 0))
                yield s, n
            return
        self.store(st, l, n, e.get("l", 0))
        yield st, n

    def narrowed(self, st, v, t, e):
        """a value stored in an integer narrower than int by ++ or a compound assignment"""
        t = strip(t)
        if 1 < INTW.get(t, 64) < 32:
            self.narrow.append((t, e.get("l", 0), "count"))
            if isinstance(v, int) or isinstance(v, tuple) and v[0] in ("sym", "app", "size"):
                return self.intcast(st, v, "int", t)
        return v

    def l_Assign(self, e, st):
        for s, l in self.lv(e["a"], st):
            for s2, v in self.ev(e["b"], s):
                self.check_value(s2, v, e)
                self.store(s2, l, v, e.get("l", 0))
                yield s2, l

    def e_Assign(self, e, st):
        # right operand first (C++17)
        for s, v in self.ev(e["b"], st):
            for s2, l in self.lv(e["a"], s):
                self.check_value(s2, v, e)
                self.store(s2, l, v, e.get("l", 0))
                yield s2, v

    def check_value(self, st, v, e):
        pass

    def l_CAssign(self, e, st):
        for s, v in self.ev(e["b"], st):
            for s2, l in self.lv(e["a"], s):
                old = self.load(s2, l, e.get("l", 0))
                op = e["op"][:-1]
                for s3, n in self.wrapped(s2, self.narrowed(s2, self.arith(s2, op, old, v), e.get("t", ""), e), e.get("t", "")):
                    self.store(s3, l, n, e.get("l", 0))
                    yield s3, l

    def e_CAssign(self, e, st):
        for s, l in self.l_CAssign(e, st):
            yield s, self.load(s, l)

    def l_Cond(self, e, st):
        for s, b in self.cond(e["cond"], st):
            yield from self.lv(e["a"] if b else e["b"], s)

    def l_Cast(self, e, st):
        ck = e["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion",
                  "LValueBitCast"):
            yield from self.lv(e["e"], st)
        elif ck == "Dynamic":
            raise Unsupported("dynamic_cast to a reference")
        else:
            for s, v in self.ev(e, st):
                yield s, self.tmploc(s, v)

    def l_Call(self, e, st):
        for s, v in self.call(e, st):
            yield s, self.tmploc(s, v)

    def l_Bin(self, e, st):
        if e["op"] == ",":
            for s, _ in self.ev(e["a"], st):
                yield from self.lv(e["b"], s)
            return
        for s, v in self.ev(e, st):
            yield s, self.tmploc(s, v)

    def l_Str(self, e, st):
        yield st, ("const", ("str", e.get("v", "")))

    # ---- operators
    def cond(self, e, st):
        """yields (state, bool)"""
        for s, v in self.ev(e, st):
            yield from self.truth(s, v, e.get("l", 0))

    def e_Bin(self, e, st):
        op = e["op"]
        if op == "&&":
            for s, b in self.cond(e["a"], st):
                if not b:
                    yield s, 0
                else:
                    for s2, c in self.cond(e["b"], s):
                        yield s2, 1 if c else 0
            return
        if op == "||":
            for s, b in self.cond(e["a"], st):
                if b:
                    yield s, 1
                else:
                    for s2, c in self.cond(e["b"], s):
                        yield s2, 1 if c else 0
            return
        if op == ",":
            for s, _ in self.ev(e["a"], st):
                yield from self.ev(e["b"], s)
            return
        for s, a in self.ev(e["a"], st):
            for s2, b in self.ev(e["b"], s):
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    yield from self.compare(s2, op, a, b, e)
                else:
                    yield from self.wrapped(s2, self.arith(s2, op, a, b), e.get("t", ""))

    def wrapped(self, st, v, t):
        """the result of arithmetic on unsigned numbers"""
        t = strip(t)
        if t not in INTW or not t.startswith("unsigned"):
            yield st, v
            return
        if isinstance(v, tuple) and v[0] == "size" and v[2] < len(st.r(v[1]).items):
            gen = self.force(st, v)
        else:
            gen = [(st, v)]
        for s, n in gen:
            yield s, n % (1 << INTW[t]) if isinstance(n, int) and n < 0 else n

    def compare(self, st, op, a, b, e=None):
        line = (e or {}).get("l", 0)
        if a == UNINIT or b == UNINIT:
            st.issue("uninit", "comparison with an indeterminate value", line)
            a = ("sym", "uninit") if a == UNINIT else a
            b = ("sym", "uninit2") if b == UNINIT else b
        for s, a1 in self.force(st, a):
            for s2, b1 in self.force(s, b):
                yield from self._compare(s2, op, a1, b1)

    def _compare(self, st, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            r = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            yield st, 1 if r else 0
            return
        if op in ("==", "!="):
            if is_ptr(a) or is_ptr(b):
                if b == NULL or b == 0:
                    for s, nn in self.truth(st, a):
                        yield s, int(nn == (op == "!="))
                    return
                if a == NULL or a == 0:
                    for s, nn in self.truth(st, b):
                        yield s, int(nn == (op == "!="))
                    return
                if a[0] == "it" and b[0] == "it":
                    for s, x in self.it_pos(st, a):
                        for s2, y in self.it_pos(s, b):
                            yield s2, int((x == y) == (op == "=="))
                    return
                if a[0] == "ptr" and b[0] == "ptr":
                    yield st, int((a[1] == b[1]) == (op == "=="))
                    return
                yield st, int((a == b) == (op == "=="))
                return
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                for s, q in self.eq(st, a, b):
                    yield s, int(q == (op == "=="))
                return
            ka, kb = self.known(st, a), self.known(st, b)
            if ka is not None and kb is not None:
                yield st, int((ka == kb) == (op == "=="))
                return
            if a == b:
                yield st, int(op == "==")
                return
            x, y = sorted([self.term(st, a), self.term(st, b)], key=str)
            for s, q in self.atom(st, ("==", x, y)):
                yield s, int(q == (op == "=="))
            return
        ka, kb = self.known(st, a), self.known(st, b)
        if ka is not None and kb is not None:
            yield from self._compare(st, op, ka, kb)
            return
        a, b = self.term(st, a), self.term(st, b)
        # canonical: only '<'
        if op == ">":
            a, b, neg = b, a, False
        elif op == "<=":
            a, b, neg = b, a, True
        elif op == ">=":
            neg = True
        else:
            neg = False
        for s, q in self.atom(st, ("<", a, b)):
            yield s, int(q != neg)

    def add(self, v, d):
        if isinstance(v, int):
            return v + d
        if v[0] == "size":
            return ("size", v[1], v[2] + d)
        if v[0] == "lin":
            return ("lin", v[1], v[2] + d) if v[2] + d else v[1]
        if v[0] == "it" and isinstance(v[2], tuple) and v[2][0] == "rev":
            return ("it", v[1], ("rev", v[2][1], v[2][2] + d))
        if v[0] == "it":
            return ("it", v[1], v[2] + d) if isinstance(v[2], int) else ("it", v[1], ("end", (v[2][1] if isinstance(v[2], tuple) else 0) + d))
        return ("lin", v, d) if d else v

    def arith(self, st, op, a, b):
        if a == UNINIT or b == UNINIT:
            st.issue("uninit", "arithmetic on an indeterminate value")
            raise Unsupported("indeterminate arithmetic")
        if isinstance(a, int) and isinstance(b, int):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/" and b:
                return int(a / b)
            if op == "%" and b:
                return a - int(a / b) * b
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
            if op == "<<":
                return a << b
            if op == ">>":
                return a >> b
        if op == "+":
            if isinstance(b, int):
                if is_cs(st, a):
                    return ("cptr", a, b) if a[0] != "cptr" else ("cptr", a[1], self.add(a[2], b))
                if a[0] == "pl" and a[1][0] == "e":
                    return ("pl", ("e", a[1][1], a[1][2] + b))
                return self.add(a, b)
            if isinstance(a, int):
                return self.arith(st, op, b, a)
            if is_cs(st, a):
                return ("cptr", a, b) if a[0] != "cptr" else ("cptr", a[1], ("app", "+", a[2], b))
            if is_cs(st, b):
                return self.arith(st, op, b, a)
        if op == "-" and isinstance(b, int):
            return self.add(a, -b) if not is_cs(st, a) else ("cptr", a, -b)
        if op == "-" and isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "it" and b[0] == "it" and isinstance(a[2], int) and isinstance(b[2], int):
                return a[2] - b[2]
            if a == b:
                return 0
            if a[0] == "lin" and a[1] == b:
                return a[2]
        return ("app", op, self.term(st, a), self.term(st, b))

    def e_Un(self, e, st):
        op = e["op"]
        if op == "!":
            for s, b in self.cond(e["e"], st):
                yield s, 0 if b else 1
        elif op == "&":
            for s, l in self.lv(e["e"], st):
                if l[0] == "o":
                    yield s, ("ptr", l[1])
                elif l[0] == "const":
                    yield s, l[1]
                elif l[0] == "c":
                    yield s, ("cptr", l[1], l[2])
                else:
                    yield s, ("pl", l)
        elif op == "*":
            for s, l in self.l_Un(e, st):
                yield s, self.load(s, l, e.get("l", 0))
        elif op in ("++", "--"):
            for s, l in self.lv(e["e"], st):
                old = self.load(s, l, e.get("l", 0))
                for s2, n in self.incr(s, l, 1 if op == "++" else -1, e):
                    yield s2, old if e.get("post") else n
        elif op == "-":
            for s, v in self.ev(e["e"], st):
                yield s, -v if isinstance(v, int) else ("app", "neg", self.term(s, v))
        elif op == "+":
            yield from self.ev(e["e"], st)
        elif op == "~":
            for s, v in self.ev(e["e"], st):
                yield s, ~v if isinstance(v, int) else ("app", "~", self.term(s, v))
        else:
            raise Unsupported("unary " + op)

    def e_Cond(self, e, st):
        for s, b in self.cond(e["cond"], st):
            yield from self.ev(e["a"] if b else e["b"], s)

    def e_Elvis(self, e, st):
        for s, v in self.ev(e["a"], st):
            for s2, b in self.truth(s, v):
                if b:
                    yield s2, v
                else:
                    yield from self.ev(e["b"], s2)

    def e_Cast(self, e, st):
        ck = e["ck"]
        sub = e["e"]
        if ck == "LValueToRValue":
            for s, l in self.lv(sub, st):
                yield s, self.load(s, l, e.get("l", 0))
        elif ck in ("NullToPointer",):
            yield st, NULL
        elif ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
            for s, v in self.ev(sub, st):
                for s2, b in self.truth(s, v, e.get("l", 0)):
                    yield s2, 1 if b else 0
        elif ck == "IntegralCast":
            for s, v in self.ev(sub, st):
                yield s, self.intcast(s, v, strip(sub.get("t", "")), strip(e["t"]))
        elif ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            for s, v in self.ev(sub, st):
                if ck == "FloatingCast" and strip(e["t"]) == "double":
                    yield s, v
                else:
                    yield s, ("app", ck, strip(e["t"]), self.term(s, v))
        elif ck == "ArrayToPointerDecay":
            if sub["k"] == "Str":
                yield st, ("str", sub.get("v", ""))
                return
            for s, l in self.lv(sub, st):
                v = self.load(s, l, e.get("l", 0)) if l[0] != "o" else ("obj", l[1])
                if isinstance(v, tuple) and v[0] == "obj":
                    o = s.r(v[1])
                    if o.kind == "arr":
                        if strip(pointee(e["t"]) or "") == "char":
                            yield s, ("ptr", v[1])
                        else:
                            yield s, ("pl", ("e", v[1], 0))
                    else:
                        yield s, ("ptr", v[1])
                elif isinstance(v, tuple) and v[0] == "str":
                    yield s, v
                else:
                    raise Unsupported("array decay")
        elif ck == "FunctionToPointerDecay":
            yield from self.ev(sub, st)
        elif ck == "ToVoid":
            for s, _ in self.ev(sub, st):
                yield s, VOID
        elif ck == "Dynamic":
            target = pointee(e["t"])
            for s, v in self.ev(sub, st):
                if v == NULL:
                    yield s, NULL
                    continue
                if v[0] != "ptr":
                    raise Unsupported("dynamic_cast")
                for s2, nn in self.notnull(s, v):
                    if not nn:
                        yield s2, NULL
                        continue
                    if s2.r(v[1]).status == "freed":
                        s2.issue("uaf", "%s is used after its release" % self.describe(s2, v[1]), e.get("l", 0))
                    for s3, c in self.dynclass(s2, v[1]):
                        yield s3, v if self.prog.isa(c, target) else NULL
        elif ck in ("BitCast", "BaseToDerived", "DerivedToBase", "UncheckedDerivedToBase"):
            for s, v in self.ev(sub, st):
                if isinstance(v, tuple) and v[0] == "ptr":
                    o = s.r(v[1])
                    pt = pointee(e["t"]) or ""
                    if o.kind == "raw" and pt in self.prog.records:
                        w = s.w(v[1])
                        w.kind, w.cls = "struct", pt
                        if self.stored is not None and w.opq:
                            w.cands = self.raw_cands(pt)
                    elif o.opq and o.kind == "struct" and ck == "BaseToDerived" and self.prog.isa(pt, o.cls) and pt != o.cls:
                        w = s.w(v[1])
                        w.cls = pt
                        if w.cands is not None:
                            c = [x for x in w.cands if self.prog.isa(dict(x).get("__cls", pt), pt)]
                            if not c:
                                s.issue("cast", "%s is cast to %s, which it never is" % (o.label, pt), e.get("l", 0))
                                self.dead(s)
                                continue
                            bad = [x for x in w.cands if not self.prog.isa(dict(x).get("__cls", pt), pt)]
                            if bad:
                                s.issue("cast", "%s is cast to %s although it can be a %s" % (o.label, pt, dict(bad[0]).get("__cls")), e.get("l", 0))
                            w.cands = c
                    elif not o.opq and o.kind == "struct" and ck == "BaseToDerived" and not self.prog.isa(o.cls, pt):
                        s.issue("cast", "a %s is cast to %s" % (o.cls, pt), e.get("l", 0))
                yield s, v
        elif ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion"):
            if sub.get("lv") and not e.get("lv") and self.class_kind(sub["t"]) is None:
                yield from self.ev(sub, st)
            else:
                yield from self.ev(sub, st)
        elif ck == "IntegralToPointer":
            for s, v in self.ev(sub, st):
                yield s, NULL if v == 0 else v
        elif ck in ("PointerToIntegral",):
            yield from self.ev(sub, st)
        else:
            raise Unsupported("cast " + ck)

    def raw_cands(self, pt):
        return self.shape_child(pt)

    def intcast(self, st, v, ft, tt):
        if tt in self.prog.enums or ft in self.prog.enums:
            if isinstance(v, int) or tt not in INTW:
                return v
            ft = "int" if ft in self.prog.enums else ft
        fw, tw = INTW.get(ft), INTW.get(tt)
        if isinstance(v, int):
            if tw is None:
                return v
            if tt == "bool":
                return 1 if v else 0
            v &= (1 << tw) - 1
            if not tt.startswith("unsigned") and v >> (tw - 1):
                v -= 1 << tw
            return v
        if v in (UNINIT, NULL):
            return v
        if fw is None or tw is None or tw >= fw:
            return v
        if 1 < tw < 32:
            self.narrow.append((tt, 0, "cast"))
        k = self.known(st, v)
        if k is not None:
            return self.intcast(st, k, ft, tt)
        d = st.dom.get(v)
        if d and d[0] == "in" and all(-(1 << (tw - 1)) <= x < (1 << (tw - 1)) for x in d[1]):
            return v
        if v[0] in ("size",):
            return v
        return ("app", "trunc", tt, self.term(st, v))

    def dynclass(self, st, oid):
        """fork over the dynamic class of an object"""
        o = st.r(oid)
        if o.kind == "raw":
            raise Unsupported("dynamic class of void")
        if not o.opq:
            yield st, o.cls
            return
        if o.cands is not None:
            cs = sorted({dict(c).get("__cls", o.cls) for c in o.cands})
        else:
            cs = [o.cls] + self.allsubs(o.cls)
            cs = [c for c in cs if not self.abstract(c)]
        if len(cs) == 1:
            if o.cls != cs[0]:
                st.w(oid).cls = cs[0]
            yield st, cs[0]
            return
        for j, c in enumerate(cs):
            s = st.copy() if j + 1 < len(cs) else st
            w = s.w(oid)
            w.cls = c
            if w.cands is not None:
                w.cands = [x for x in w.cands if dict(x).get("__cls", c) == c]
            s.trace.append(("class", o.label, c))
            yield s, c

    def abstract(self, c):
        return False

    # ---- initialisation and construction
    def init(self, e, st, t):
        """value of an initialiser for a variable or member of type t"""
        if e["k"] == "InitList" and not self.class_kind(t):
            if e["c"] and "[" not in strip(t):
                yield from self.ev(e["c"][0], st)
                return
            if "[" in strip(t):
                yield from self.arr_init(e, st, t)
                return
            yield st, self.zeroval(st, t)
            return
        yield from self.ev(e, st)

    def arr_init(self, e, st, t):
        m = re.match(r"(.*)\[(\d+)\]$", strip(t))
        states = [(st, [])]
        for c in e["c"]:
            nxt = []
            for s, l in states:
                for s2, v in self.ev(c, s):
                    nxt.append((s2, l + [v]))
            states = nxt
        for s, l in states:
            o = Obj("arr", m.group(1).strip() if m else "", "stack")
            n = int(m.group(2)) if m else len(l)
            o.items = l + [0] * (n - len(l)) if n <= 4096 else l
            yield s, ("obj", s.new(o))

    def e_InitList(self, e, st):
        t = e["t"]
        if "[" in strip(t) and strip(t).endswith("]"):
            yield from self.arr_init(e, st, t)
            return
        if e.get("fields") is not None and strip(e.get("cls", "")) in self.prog.records or kindof(t) == "struct":
            i = self.fresh(st, t, line=e.get("l", 0))
            self.zero(st, i)
            yield from self.fill(st, i, e.get("fields") or [], e["c"], e)
            return
        if "[" in strip(t):
            yield from self.arr_init(e, st, t)
            return
        # std::initializer_list or a scalar in braces
        if kindof(t) == "vec":
            i = self.fresh(st, t)
            yield from self.fill_items(st, i, e["c"])
            return
        if len(e["c"]) == 1:
            yield from self.ev(e["c"][0], st)
            return
        if not e["c"]:
            yield st, self.zeroval(st, t)
            return
        raise Unsupported("initializer list for " + t)

    def fill(self, st, i, names, exprs, e):
        if not exprs:
            yield st, ("obj", i)
            return
        for s, v in self.ev(exprs[0], st):
            s.w(i).f[names[0]] = v
            yield from self.fill(s, i, names[1:], exprs[1:], e)

    def fill_items(self, st, i, exprs):
        if not exprs:
            yield st, ("obj", i)
            return
        for s, v in self.ev(exprs[0], st):
            s.w(i).items.append(v)
            yield from self.fill_items(s, i, exprs[1:])

    def evs(self, exprs, st, byref=None):
        """evaluate a list of argument expressions"""
        if not exprs:
            yield st, []
            return
        head, rest = exprs[0], exprs[1:]
        ref = byref is not None and byref and byref[0]
        gen = ((s, ("loc", l)) for s, l in self.lv(head, st)) if ref else self.ev(head, st)
        for s, v in gen:
            for s2, vs in self.evs(rest, s, byref[1:] if byref else None):
                yield s2, [v] + vs

    def e_Construct(self, e, st):
        cls = e["cls"]
        t = strip(e["t"])
        if e.get("own") or cls in self.prog.records:
            yield from self.construct_own(e, st, t)
            return
        k = self.class_kind(t)
        if k is None:
            if cls in ("std::allocator", "std::less", "std::hash", "std::equal_to"):
                yield st, ("unit", cls)
                return
            if "iterator" in cls:
                for s, vs in self.evs(e["c"], st):
                    yield s, vs[0]
                return
            if cls.startswith("(lambda") or e["t"].startswith("(lambda") or cls == "" or "lambda" in t:
                for s, vs in self.evs(e["c"], st):
                    yield s, vs[0]
                return
            if cls == "std::function":
                for s, vs in self.evs(e["c"], st):
                    yield s, vs[0]
                return
            raise Unsupported("construct " + t)
        args = [a for a in e["c"] if not (a["k"] == "Construct" and a.get("cls") in ("std::allocator", "std::less", "std::hash", "std::equal_to"))]
        if e.get("copy") or e.get("move"):
            for s, l in self.lv(args[0], st):
                src = self.objof(s, l)
                if e.get("move") and k == "uptr":
                    i = self.fresh(s, t)
                    s.w(i).f["p"] = s.r(src).f["p"]
                    if s.r(src).f.get("d") is not None:
                        s.w(i).f["d"] = s.r(src).f["d"]
                    s.w(src).f["p"] = NULL
                    yield s, ("obj", i)
                    continue
                if k == "vec" and not e.get("move") and self.unread(s, src):
                    # every element is copied: the elements become explicit
                    for s2 in self.expand(s, src):
                        yield s2, ("obj", self.copy_obj(s2, src))
                    continue
                i = self.copy_obj(s, src)
                if e.get("move") and k in ("vec", "set", "map"):
                    w = s.w(src)
                    w.items, w.pre = [], None
                yield s, ("obj", i)
            return
        for s, vs in self.evs(args, st):
            i = self.fresh(s, t, line=e.get("l", 0))
            yield from self.construct_std(s, i, k, t, vs, e, args)

    def characters(self, st, oid):
        """a list of the characters of a string whose content is known"""
        c = st.r(oid).f["v"]
        if c[0] != "str" or len(c[1]) > 700:
            raise Unsupported("loop over a string")
        i = self.fresh(st, "std::vector<char>")
        st.w(i).items = [ord(x) if ord(x) < 128 else ord(x) - 256 for x in c[1]]
        return i

    def sync(self, st):
        """texts changed through their characters"""

    def character(self, st, oid, c, n):
        """the place of a character of a string"""
        return ("c", c if c[0] == "str" else ("cs", c), n)

    def letters(self, st, oid):
        """a list for the iterators of a string"""
        raise Unsupported("string iterator")

    def whole(self, st, oid, v):
        """the position in a string"""
        if isinstance(v, int):
            return v
        raise Unsupported("position in a string")

    def between(self, st, a, b):
        raise Unsupported("string from iterators")

    def unread(self, st, oid):
        """a list of pointers whose elements are not explicit"""
        o = st.r(oid)
        return o.kind == "vec" and o.pre is not None and bool(o.label) and pointee(o.elem or "") is not None

    def objof(self, st, loc):
        if loc[0] == "o":
            return loc[1]
        v = self.load(st, loc)
        if isinstance(v, tuple) and v[0] == "obj":
            return v[1]
        raise Unsupported("object expected")

    def construct_std(self, st, i, k, t, vs, e, args=()):
        o = st.w(i)
        if k == "string":
            keep = [n for n, v in enumerate(vs) if not (isinstance(v, tuple) and v[0] == "unit")]
            args = [args[n] for n in keep] if len(args) == len(vs) else []
        if k == "vec" or k == "set" or k == "map":
            vs = [v for v in vs if not (isinstance(v, tuple) and v[0] == "unit")]
            if not vs:
                pass
            elif isinstance(vs[0], tuple) and vs[0][0] == "obj" and st.r(vs[0][1]).kind in ("vec", "arr"):
                if k == "vec" and self.unread(st, vs[0][1]):
                    for s in self.expand(st, vs[0][1]):
                        s.w(i).items = list(s.r(vs[0][1]).items)
                        yield s, ("obj", i)
                    return
                src = st.r(vs[0][1])
                o.items = list(src.items)
                o.pre, o.tag = src.pre, src.tag
                if k == "map":
                    o.items = first_keys(st, o.items)
                if k == "set":
                    if len(o.items) > 1 and not all(isinstance(v, int) for v in o.items):
                        ts = [self.content(st, v) for v in o.items]
                        if not all(isinstance(t, tuple) and t[0] == "str" for t in ts):
                            raise Unsupported("set of values that may be equal")
                        o.items = [v for n, v in enumerate(o.items) if ts[n] not in ts[:n]]
                    else:
                        o.items = list(dict.fromkeys(o.items))
            elif isinstance(vs[0], int) and len(vs) <= 2 and k == "vec":
                if vs[0] > 700:
                    raise Unsupported("vector of size %d" % vs[0])
                fill = vs[1] if len(vs) > 1 else None
                o.items = [models_elem(self, st, fill) if fill is not None else self.zeroval(st, o.elem) for _ in range(vs[0])]
            elif len(vs) >= 2 and isinstance(vs[0], tuple) and vs[0][0] == "it":
                for s in self.expand(st, vs[0][1]):
                    src = s.r(vs[0][1])
                    for s3, l in self.it_range(s, vs[0], vs[1]):
                        src = s3.r(vs[0][1]).items
                        s3.w(i).items = [src[x] for x in l if 0 <= x < len(src)]
                        yield s3, ("obj", i)
                return
            else:
                raise Unsupported("constructor of " + t)
            yield st, ("obj", i)
        elif k == "string":
            vs = [v for v in vs if not (isinstance(v, tuple) and v[0] == "unit")]
            if not vs:
                pass
            elif len(vs) == 1:
                if vs[0] == NULL:
                    st.issue("null", "string made from a null pointer", e.get("l", 0))
                elif isinstance(vs[0], tuple) and vs[0][0] == "ptr" and st.r(vs[0][1]).kind == "cstr":
                    self.use_cstr(st, vs[0], e)
                elif isinstance(vs[0], tuple) and vs[0][0] == "obj" and st.r(vs[0][1]).kind not in ("string", "stream"):
                    raise Unsupported("string constructor")
                st.w(i).f["v"] = self.content(st, vs[0])
            elif len(vs) == 2:
                import models
                st.w(i).f["v"] = models.piece(self, st, vs, args)
            else:
                raise Unsupported("string constructor")
            yield st, ("obj", i)
        elif k == "stream":
            if vs and isinstance(vs[0], tuple) and vs[0][0] == "obj":
                st.w(i).f["v"] = self.content(st, vs[0])
                st.w(i).f["preset"] = int(st.r(i).f["v"] != ("str", ""))
            yield st, ("obj", i)
        elif k == "uptr":
            if vs:
                o.f["p"] = vs[0]
            if len(vs) > 1:
                o.f["d"] = vs[1]
            yield st, ("obj", i)
        elif k == "struct":  # std::pair
            if len(vs) == 2:
                o.f["first"], o.f["second"] = vs
                o.wr["first"] = o.wr["second"] = e.get("l", 0)
            elif not vs:
                self.zero(st, i)
            else:
                raise Unsupported("pair constructor")
            yield st, ("obj", i)
        else:
            raise Unsupported("constructor of " + t)

    def use_cstr(self, st, v, e):
        o = st.r(v[1])
        if o.status == "freed":
            st.issue("uaf", "%s is read after its release" % self.describe(st, v[1]), e.get("l", 0))
        if o.null == "null":
            st.issue("null", "null string %s is read" % (o.label or ""), e.get("l", 0))
        elif o.null == "maybe":
            st.issue("null", "%s is read although it can be null" % o.label, e.get("l", 0))
            self.set_null(st, v[1], False)
        if not o.opq and "v" not in o.f and o.alloc != "static":
            st.issue("uninit", "a string without content is read", e.get("l", 0))

    def find_fn(self, usr):
        return self.prog.functions.get(usr)

    def construct_own(self, e, st, t, into=None):
        fn = self.find_fn(e["usr"])
        cls = e["cls"]
        if fn is None or (e.get("implicit") and (e.get("copy") or e.get("move"))):
            if e.get("copy") or e.get("move"):
                for s, l in self.lv(e["c"][0], st):
                    v = self.load(s, l, e.get("l", 0)) if l[0] != "o" else None
                    if isinstance(v, tuple) and v[0] == "lam":
                        yield s, v
                        continue
                    src = self.objof(s, l)
                    i = self.copy_obj(s, src)
                    yield s, ("obj", i)
                return
            if e.get("deflt"):
                i = self.fresh(st, t, line=e.get("l", 0))
                if e.get("zero"):
                    self.zero(st, i)
                yield from self.default_members(st, i, cls)
                return
            raise Unsupported("constructor of " + cls)
        i = self.fresh(st, t, line=e.get("l", 0))
        if e.get("zero"):
            self.zero(st, i)
        for s, _ in self.invoke(fn, st, e["c"], i, e):
            yield s, ("obj", i)

    def default_members(self, st, i, cls):
        """default-initialise the members of a class without a constructor body"""
        states = [st]
        for f in self.prog.all_fields(cls):
            nxt = []
            for s in states:
                if "init" in f:
                    s.env = dict(s.env)
                    old = s.env.get("this")
                    s.env["this"] = i
                    for s2, v in self.init(f["init"], s, f["t"]):
                        s2.w(i).f[f["name"]] = v
                        if old is not None:
                            s2.env["this"] = old
                        nxt.append(s2)
                elif self.class_kind(f["t"]):
                    j = self.fresh(s, f["t"])
                    s.w(i).f[f["name"]] = ("obj", j)
                    if strip(f["t"]) in self.prog.records:
                        for s2, _ in self.default_members(s, j, strip(f["t"])):
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                else:
                    nxt.append(s)
            states = nxt
        for s in states:
            yield s, ("obj", i)

    def e_New(self, e, st):
        if e.get("placement"):
            raise Unsupported("placement new")
        t = strip(e["at"])
        line = e.get("l", 0)
        if e.get("array"):
            o = Obj("arr", t, "new[]", None, False, line)
            yield st, ("ptr", st.new(o))
            return
        if self.class_kind(t) is None:
            o = Obj("box", t, "new", None, False, line)
            if e.get("init"):
                for s, v in self.init(e["init"], st, t):
                    i = s.new(o.clone())
                    s.w(i).f["v"] = v
                    yield s, ("ptr", i)
            else:
                yield st, ("ptr", st.new(o))
            return
        if e.get("init"):
            for s, v in self.ev(e["init"], st):
                if not (isinstance(v, tuple) and v[0] == "obj"):
                    raise Unsupported("new " + t)
                w = s.w(v[1])
                w.alloc = "new"
                w.line = line
                yield s, ("ptr", v[1])
        else:
            i = self.fresh(st, t, "new", line=line)
            for s, v in self.default_members(st, i, t):
                s.w(i).alloc = "new"
                yield s, ("ptr", i)

    def e_Delete(self, e, st):
        for s, v in self.ev(e["e"], st):
            for s2 in self.delete(s, v, e.get("arec", ""), e.get("l", 0), e.get("array", False), strip(e.get("at", ""))):
                yield s2, VOID

    def delete(self, st, v, arec, line, array=False, at=""):
        if v == NULL:
            yield st
            return
        if v == UNINIT:
            st.issue("uninit", "an indeterminate pointer is deleted", line)
            self.dead(st)
            return
        if v[0] in ("str", "cs", "cptr", "pl"):
            st.issue("badfree", "delete of memory that was not allocated by new", line)
            yield st
            return
        if v[0] != "ptr":
            raise Unsupported("delete of " + str(v)[:60])
        o = st.r(v[1])
        if o.null == "null":
            yield st
            return
        if o.status == "freed":
            if o.null == "maybe":
                st.issue("double", "%s is released twice" % self.describe(st, v[1]), line)
            else:
                st.issue("double", "%s is released twice" % self.describe(st, v[1]), line)
            yield st
            return
        if o.alloc in ("malloc",) or (o.opq and o.kind == "cstr"):
            st.issue("badfree", "%s comes from malloc but is released with delete" % self.describe(st, v[1]), line)
        if (o.label or "").startswith("static "):
            st.issue("badfree", "%s is kept for later calls but is deleted" % self.describe(st, v[1]), line)
        elif o.alloc in ("stack", "static", "sub") and o.alloc != "new":
            st.issue("badfree", "%s is not on the heap but is deleted" % self.describe(st, v[1]), line)
        if array != (o.alloc == "new[]"):
            st.issue("badfree", "%s is released with the wrong form of delete" % self.describe(st, v[1]), line)
        yield from self.destroy(st, v[1], arec, line, at)

    def touched(self, st, oid):
        o = st.r(oid)
        if o.wr:
            return True
        if o.kind in ("vec", "set", "map"):
            return o.pre is None or bool(o.items)
        for n, v in o.f.items():
            if isinstance(v, tuple) and v[0] in ("ptr",):
                return True
            if isinstance(v, tuple) and v[0] == "obj" and self.touched(st, v[1]):
                return True
        return False

    def destroy(self, st, oid, arec, line, at=""):
        """run the destructor of an object that is deleted through a pointer of static class arec"""
        o = st.r(oid)
        if o.kind in ("box", "raw", "arr", "cstr"):
            if o.kind == "raw" and o.opq and at in self.prog.records:
                pass
            st.w(oid).status = "freed"
            yield st
            return
        if o.kind != "struct":
            for s in self.destroy_std(st, oid, line):
                s.w(oid).status = "freed"
                yield s
            return
        if o.opq and not self.touched(st, oid):
            # an unchanged object from outside: its class's destructor releases its parts (a separate obligation),
            # except for the fields which that destructor leaves alone
            for f in sorted(self.residual_of(st, oid)):
                t = self.fieldtype(o.cls, f)
                n = len(st.issues)
                old = self.getfield(st, oid, f)
                del st.issues[n:]
                if isinstance(old, tuple) and old[0] == "ptr":
                    st.w(old[1]).orphan = line or 1
            st.w(oid).status = "freed"
            yield st
            return
        for s, c in self.dynclass(st, oid):
            r = self.prog.records.get(strip(arec)) if arec else None
            if r is not None and strip(arec) != c and not r.get("dtor_virtual"):
                s.issue("badfree", "a %s is deleted through a %s, whose destructor is not virtual" % (c, arec), line)
                c = strip(arec)
            if s.r(oid).opq:
                for f in sorted(self.residual_of(s, oid)):
                    n = len(s.issues)
                    old = self.getfield(s, oid, f)
                    del s.issues[n:]
                    if f not in s.r(oid).wr and isinstance(old, tuple) and old[0] == "ptr":
                        s.w(old[1]).orphan = line or 1
            for s2 in self.run_dtor(s, oid, c, line):
                s2.w(oid).status = "freed"
                yield s2

    def residual_of(self, st, oid):
        o = st.r(oid)
        if o.cls not in self.residual:
            out = ()
            if o.cls.startswith("std::pair<"):
                out = tuple(n for n in ("first", "second") if pointee(self.fieldtype(o.cls, n)) is not None)
            elif o.cls in self.prog.records:
                up, todo = set(), [o.cls]
                while todo:
                    c = todo.pop()
                    if c in self.prog.records and c not in up:
                        up.add(c)
                        todo += self.prog.records[c]["bases"]
                if not any(self.prog.records[c].get("dtor_user") for c in up):
                    out = tuple(f["name"] for f in self.prog.all_fields(o.cls) if pointee(f["t"]) is not None)
            self.residual[o.cls] = out
        return self.residual[o.cls]

    def run_dtor(self, st, oid, cls, line):
        r = self.prog.records.get(cls)
        if r is None:  # std::pair
            yield st
            return
        states = [st]
        fn = self.find_fn(r.get("dtor", "")) if r.get("dtor") else None
        if fn is not None and fn.get("body"):
            nxt = []
            for s in states:
                for s2, _ in self.invoke(fn, s, [], oid, {"l": line}, values=[]):
                    nxt.append(s2)
            states = nxt
        # members
        for f in reversed(r["fields"]):
            if self.class_kind(f["t"]):
                nxt = []
                for s in states:
                    v = s.r(oid).f.get(f["name"])
                    if isinstance(v, tuple) and v[0] == "obj":
                        nxt += list(self.destroy_value(s, v[1], line))
                    else:
                        nxt.append(s)
                states = nxt
        for b in r["bases"]:
            nxt = []
            for s in states:
                nxt += list(self.run_dtor(s, oid, b, line))
            states = nxt
        yield from states

    def destroy_value(self, st, oid, line):
        """end of life of a class object held by value"""
        o = st.r(oid)
        if o.kind == "uptr":
            import models
            yield from models.let_go(self, st, o.cls, o.f.get("p", NULL), o.f.get("d"), line)
        elif o.kind == "struct" and o.cls in self.prog.records:
            if self.prog.records[o.cls].get("dtor_user") or any(self.class_kind(f["t"]) == "uptr" for f in self.prog.all_fields(o.cls)):
                yield from self.run_dtor(st, oid, o.cls, line)
            else:
                yield st
        elif o.kind in ("vec", "set", "map"):
            yield from self.destroy_std(st, oid, line)
        else:
            yield st

    def destroy_std(self, st, oid, line):
        o = st.r(oid)
        if o.kind == "uptr":
            import models
            yield from models.let_go(self, st, o.cls, o.f.get("p", NULL), o.f.get("d"), line)
            return
        if o.kind in ("vec", "set", "map"):
            if o.pre is not None and pointee(o.elem or "") is not None and o.alloc not in ("sub", "static") and o.label:
                if o.alloc in ("new", "outside", "token"):
                    # elements never looked at: they are lost
                    if o.elemcands is None or True:
                        st.w(oid).tag = "lost"
                        st.flags.setdefault("lost", ())
                        st.flags["lost"] = st.flags["lost"] + ((o.label, line, o.null),)
            states = [st]
            for v in list(o.items):
                if isinstance(v, tuple) and v[0] == "obj":
                    nxt = []
                    for s in states:
                        nxt += list(self.destroy_value(s, v[1], line))
                    states = nxt
            yield from states
            return
        yield st

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        for s, v in self.call(e, st):
            if isinstance(v, tuple) and v[0] == "loc":
                v = self.load(s, v[1], e.get("l", 0))
            yield s, v

    def call(self, e, st):
        """yields (state, value); a value ('loc', l) denotes a glvalue"""
        if e.get("usr") is None:
            # call through a value
            for s, f in self.ev(e["callee"], st):
                yield from self.call_value(s, f, e["c"], e)
            return
        qn = e.get("qn", "")
        h = self.summaries.get(qn)
        if h is not None:
            r = h(self, st, e)
            if r is not None:
                yield from r
                return
        fn = self.find_fn(e["usr"])
        if fn is not None and fn.get("body") and e.get("own"):
            if "obj" in e and not e.get("smeth"):
                for s, oid in self.callee_obj(e, st):
                    target = fn
                    if e.get("virtual") and s.r(oid).kind == "struct":
                        for s2, c in self.dynclass(s, oid):
                            target = self.override(c, fn) or fn
                            yield from self.invoke(target, s2, e["c"], oid, e)
                        continue
                    yield from self.invoke(target, s, e["c"], oid, e)
            elif e.get("opmem"):
                for s, l in self.lv(e["c"][0], st):
                    oid = self.objof(s, l)
                    yield from self.invoke(fn, s, e["c"][1:], oid, e)
            else:
                yield from self.invoke(fn, st, e["c"], None, e)
            return
        import models
        yield from models.call(self, st, e)

    def override(self, cls, fn):
        c = cls
        while c:
            for g in self.prog.functions.values():
                if g.get("cls") == c and g["name"] == fn["name"] and len(g["params"]) == len(fn["params"]):
                    return g
            b = self.prog.records.get(c, {}).get("bases") or [None]
            c = b[0]
        return None

    def callee_obj(self, e, st):
        if e.get("arrow"):
            for s, v in self.ev(e["obj"], st):
                try:
                    if isinstance(v, tuple) and v[0] == "obj" and s.r(v[1]).kind == "uptr":
                        v = s.r(v[1]).f["p"]
                    if isinstance(v, tuple) and v[0] == "it":
                        for s2, l in self.it_loc(s, v):
                            yield s2, self.objof(s2, l)
                        continue
                    l = self.deref(s, v, e.get("l", 0), "for " + e.get("fn", ""))
                except Infeasible:
                    self.dead(s)
                    continue
                if l[0] == "o":
                    yield s, l[1]
                else:
                    yield s, self.objof(s, l)
        else:
            for s, l in self.lv(e["obj"], st):
                yield s, self.objof(s, l)

    def callee_obj_any(self, e, st):
        """receiver of a library member function as (state, (value, location))"""
        if e.get("arrow"):
            for s, v in self.ev(e["obj"], st):
                try:
                    if isinstance(v, tuple) and v[0] == "it":
                        for s2, l in self.it_loc(s, v):
                            yield s2, (self.load(s2, l) if l[0] != "o" else ("obj", l[1]), l)
                        continue
                    l = self.deref(s, v, e.get("l", 0), "for " + e.get("fn", ""))
                except Infeasible:
                    self.dead(s)
                    continue
                yield s, (("obj", l[1]) if l[0] == "o" else self.load(s, l), l)
        else:
            for s, l in self.lv(e["obj"], st):
                yield s, (("obj", l[1]) if l[0] == "o" else self.load(s, l), l)

    def call_value(self, st, f, args, e):
        if isinstance(f, tuple) and f[0] == "lam":
            node, env = self.globs["#lam"][f[2]]
            for s, vs in self.evs(args, st, [p.get("ref") for p in node["params"]]):
                yield from self.run_body(node, s, vs, env)
            return
        if isinstance(f, tuple) and f[0] == "fn":
            fn = self.find_fn(f[1])
            if fn and fn.get("body"):
                yield from self.invoke(fn, st, args, None, e)
                return
            import models
            yield from models.call_named(self, st, f[2], args, e)
            return
        raise Unsupported("call through a value")

    def run_body(self, node, st, vs, env):
        saved = st.env
        st.env = dict(env)
        # captured variables live in the defining environment; globals are shared
        for k, v in saved.items():
            if isinstance(k, tuple):
                st.env.setdefault(k, v)
            elif k not in st.env:
                st.env[k] = v
        for p, v in zip(node["params"], vs):
            self.bind(st, p, v)
        for s, ctl in self.exec(node["body"], st):
            s.env = dict(saved)
            if ctl is None:
                yield s, VOID
            elif ctl[0] == "ret":
                yield s, ctl[1]
            else:
                raise Unsupported("control leaves a lambda")

    def bind(self, st, p, v):
        if isinstance(v, tuple) and v[0] == "loc":
            st.env[p["id"]] = v[1]
        elif isinstance(v, tuple) and v[0] == "obj":
            st.env[p["id"]] = ("o", v[1])
        else:
            o = Obj("frame", "", "stack", p["name"])
            o.f["v"] = v
            st.env[p["id"]] = ("f", st.new(o), "v")

    def invoke(self, fn, st, args, this, e, values=None):
        if st.depth >= self.MAXDEPTH:
            raise Unsupported("call depth")
        self.functions_seen.add(fn["qn"])
        if values is None:
            gen = self.evs(args, st, [p.get("ref") for p in fn["params"]])
        else:
            gen = [(st, values)]
        for s, vs in gen:
            saved, depth, calls, infn = s.env, s.depth, s.calls, s.infn
            if fn["usr"] in recursive(self.prog):
                me = (fn["usr"], this, tuple(vs), self.picture(s))
                if any(x[:3] == me[:3] and self.unchanged(me[3], x[3]) for x in calls):
                    s.issue("endless", "%s calls itself again with nothing changed" % fn["qn"], e.get("l", 0))
                    self.endless(s, e.get("l", 0), "%s calls itself again with nothing changed" % fn["qn"])
                    self.dead(s)
                    continue
                s.calls = calls + (me,)
            s.infn = fn
            s.env = {k: v for k, v in saved.items() if isinstance(k, tuple)}
            s.depth = depth + 1
            if this is not None:
                s.env["this"] = this
                if s.r(this).status == "freed":
                    s.issue("uaf", "a method of %s is called after its release" % self.describe(s, this), e.get("l", 0))
            for p, v in zip(fn["params"], vs):
                self.bind(s, p, v)
            pre = s
            starts = [s]
            if fn.get("kind") == "ctor":
                starts = list(self.ctor_inits(fn, s, this))
            for s1 in starts:
                for s2, ctl in self.exec(fn["body"], s1):
                    genv = {k: v for k, v in s2.env.items() if isinstance(k, tuple)}
                    s2.env = dict(saved)
                    for k, v in genv.items():
                        s2.env.setdefault(k, v)
                    s2.depth = depth
                    s2.calls, s2.infn = calls, infn
                    if ctl is None:
                        yield s2, VOID
                    elif ctl[0] == "ret":
                        yield s2, ctl[1]
                    elif ctl[0] == "undecided":
                        raise Unsupported(ctl[1])
                    else:
                        raise Unsupported("control leaves %s: %s" % (fn["qn"], ctl))

    def ctor_inits(self, fn, st, this):
        cls = fn["cls"]
        states = [st]
        for it in fn["inits"]:
            nxt = []
            for s in states:
                ini = it["init"]
                if "field" in it:
                    ft = self.fieldtype(cls, it["field"])
                    if ini is None:
                        nxt.append(s)
                        continue
                    if ini["k"] == "Construct" and ini.get("deflt") and not it.get("written") and not ini.get("own") and not self.class_kind(ft):
                        nxt.append(s)
                        continue
                    if not it.get("written") and ini["k"] == "ZeroInit" and False:
                        nxt.append(s)
                        continue
                    for s2, v in self.init(ini, s, ft):
                        if isinstance(v, tuple) and v[0] == "loc":
                            v = self.load(s2, v[1])
                        s2.w(this).f[it["field"]] = v
                        if it.get("written"):
                            s2.w(this).wr[it["field"]] = it.get("l", 0)
                        nxt.append(s2)
                elif "base" in it:
                    if ini["k"] == "Construct":
                        bf = self.find_fn(ini["usr"])
                        if bf is None or ini.get("implicit") and (ini.get("copy") or ini.get("move")):
                            if ini.get("copy") or ini.get("move"):
                                raise Unsupported("copy of a base class")
                            if ini.get("zero"):
                                self.zero(s, this)
                            bf = None
                            for s2, _ in self.default_members(s, this, ini["cls"]):
                                nxt.append(s2)
                            continue
                        for s2, _ in self.invoke(bf, s, ini["c"], this, it):
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                else:  # delegating
                    bf = self.find_fn(ini["usr"])
                    if bf is None:
                        raise Unsupported("delegating constructor")
                    for s2, _ in self.invoke(bf, s, ini["c"], this, it):
                        nxt.append(s2)
            states = nxt
        return states

    # ---- iterators
    def it_pos(self, st, it):
        for s in self.expand(st, it[1]):
            n = it[2]
            o = s.r(it[1])
            if n == "end":
                n = len(o.items)
            elif isinstance(n, tuple) and n[0] == "rev":
                n = (-1 if n[1] else len(o.items) - 1) - n[2]
            elif isinstance(n, tuple):
                n = len(o.items) + n[1]
            yield s, n

    def it_range(self, st, a, b):
        """the positions between two iterators, in order"""
        for s, x in self.it_pos(st, a):
            for s2, y in self.it_pos(s, b):
                yield s2, list(range(x, y, -1) if isinstance(a[2], tuple) and a[2][0] == "rev" else range(x, y))

    def it_loc(self, st, it):
        for s, n in self.it_pos(st, it):
            o = s.r(it[1])
            if n >= len(o.items) or n < 0:
                s.issue("oob", "an iterator is dereferenced beyond the elements of %s" % self.describe(s, it[1]))
                self.dead(s)
                continue
            v = o.items[n]
            if isinstance(v, tuple) and v[0] == "obj":
                yield s, ("o", v[1])
            else:
                yield s, ("e", it[1], n)

    # ---------------------------------------------------------------- statements
    def exec(self, n, st):
        """returns a list of (state, control)"""
        if n is None:
            return [(st, None)]
        st.steps += 1
        if st.steps > self.MAXSTEPS:
            raise Unsupported("too many steps")
        Clock.tick()
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        out = []
        try:
            if m is not None:
                return m(n, st)
            for s, _ in self.ev(n, st):
                out.append((s, None))
                if len(out) > self.MAXPATHS:
                    raise Unsupported("too many paths")
        except Infeasible:
            if m is not None:
                raise
        except Unsupported as x:
            if not self.partial or len(self.lost) > 200:
                raise
            self.lost.append(str(x))
        except (TypeError, KeyError, IndexError, AttributeError, ValueError) as x:
            # a construct the interpreter has no notion of
            if not self.partial or len(self.lost) > 200:
                raise Unsupported("%s: %s" % (type(x).__name__, x))
            self.lost.append("%s: %s" % (type(x).__name__, x))
        return out

    def seq(self, stmts, st):
        states = [st]
        done = []
        labels = {n["label"]: j for j, n in enumerate(stmts) if n["k"] == "Label" and n.get("label")}
        later = {}
        for j, n in enumerate(stmts):
            nxt = []
            for s in states + later.pop(j, []):
                for s2, ctl in self.exec(n, s):
                    if ctl is None:
                        nxt.append(s2)
                    elif ctl[0] == "goto" and labels.get(ctl[1], -1) > j:
                        later.setdefault(labels[ctl[1]], []).append(s2)
                    else:
                        done.append((s2, ctl))
            states = nxt
            if len(states) + len(done) > self.MAXPATHS:
                raise Unsupported("too many paths")
            if not states and not later:
                break
        return [(s, None) for s in states] + done

    def s_Block(self, n, st):
        vars_ = []
        for c in n["c"]:
            if c["k"] == "Decl":
                for v in c["c"]:
                    if not v.get("ref") and not v.get("gu") and self.class_kind(v["t"]):
                        vars_.append(v["id"])
        res = self.seq(n["c"], st)
        if not vars_:
            return res
        out = []
        for s, ctl in res:
            keep = None
            if ctl and ctl[0] == "ret" and isinstance(ctl[1], tuple):
                if ctl[1][0] == "obj":
                    keep = ctl[1][1]
            states = [s]
            for vid in reversed(vars_):
                nxt = []
                for x in states:
                    l = x.env.get(vid)
                    if l and l[0] == "o" and l[1] != keep and x.r(l[1]).alloc == "stack" and x.r(l[1]).status == "live":
                        for y in self.destroy_value(x, l[1], n.get("el", 0)):
                            y.w(l[1]).status = "freed"
                            nxt.append(y)
                    else:
                        nxt.append(x)
                states = nxt
            out += [(x, ctl) for x in states]
        return out

    def s_Null(self, n, st):
        return [(st, None)]

    def s_Decl(self, n, st):
        states = [st]
        for v in n["c"]:
            nxt = []
            for s in states:
                nxt += self.declare(v, s)
            states = nxt
        return [(s, None) for s in states]

    def declare(self, v, st):
        out = []
        if v.get("gu"):   # static local: evaluated on use
            return [st]
        if v.get("arr") is not None and not v.get("ref"):
            if "init" in v and v["init"]["k"] in ("InitList",):
                for s, val in self.arr_init(v["init"], st, v["t"]):
                    s.env[v["id"]] = ("o", val[1])
                    out.append(s)
                return out
            if "init" in v and v["init"]["k"] == "Str":
                o = Obj("cstr", "char", "stack", None)
                o.f["v"] = ("str", v["init"].get("v", ""))
                st.env[v["id"]] = ("o", st.new(o))
                return [st]
            isch = strip(v.get("elt", "")) == "char"
            o = Obj("cstr" if isch else "arr", strip(v.get("elt", "")), "stack", None, False, v.get("l", 0))
            if not isch:
                o.items = [UNINIT] * min(v["arr"], 256)
            o.tag = v["arr"]
            st.env[v["id"]] = ("o", st.new(o))
            return [st]
        if "init" not in v:
            if self.class_kind(v["t"]):
                i = self.fresh(st, v["t"])
                st.env[v["id"]] = ("o", i)
                return [st]
            o = Obj("frame", "", "stack", v["name"])
            o.f["v"] = UNINIT
            st.env[v["id"]] = ("f", st.new(o), "v")
            return [st]
        if v.get("ref"):
            for s, l in self.lv(v["init"], st):
                s.env[v["id"]] = l
                self.bindings(v, s, l)
                out.append(s)
            return out
        for s, val in self.init(v["init"], st, v["t"]):
            if isinstance(val, tuple) and val[0] == "loc":
                val = self.load(s, val[1])
            if isinstance(val, tuple) and val[0] == "obj":
                if self.class_kind(v["t"]) == "stream" and s.r(val[1]).kind != "stream":
                    raise Unsupported("stream")
                s.env[v["id"]] = ("o", val[1])
                self.bindings(v, s, ("o", val[1]))
            else:
                o = Obj("frame", "", "stack", v["name"])
                o.f["v"] = val
                s.env[v["id"]] = ("f", s.new(o), "v")
            out.append(s)
        return out

    def bindings(self, v, st, loc):
        if "bindings" in v:
            oid = self.objof(st, loc)
            o = st.r(oid)
            names = [f["name"] for f in self.prog.all_fields(o.cls)] if o.cls in self.prog.records else ["first", "second"]
            for b, nme in zip(v["bindings"], names):
                st.env[b["id"]] = ("f", oid, nme)
                if "var" in b:
                    st.env[b["var"]["id"]] = ("f", oid, nme)

    def s_If(self, n, st):
        out = []
        states = [st]
        if n.get("init"):
            states = [s for s, c in self.exec(n["init"], st)]
        if n.get("var"):
            nxt = []
            for s in states:
                nxt += self.declare(n["var"], s)
            states = nxt
        for s in states:
            pre = s.copy() if self.mergeifs else None
            res = []
            try:
                for s2, b in self.cond(n["cond"], s):
                    if b:
                        res += self.exec(n["then"], s2)
                    elif n.get("else"):
                        res += self.exec(n["else"], s2)
                    else:
                        res.append((s2, None))
                    if len(res) > self.MAXPATHS:
                        raise Unsupported("too many paths")
            except Infeasible:
                pass
            if self.mergeifs and len(res) > 1:
                res = self.merge(pre, res, n.get("l", 0))
            out += res
        return out

    def s_Switch(self, n, st):
        out = []
        body = flatten_switch(n["body"])
        states = [st]
        if n.get("init"):
            states = [s for s, c in self.exec(n["init"], st)]
        if n.get("var"):
            nxt = []
            for s in states:
                nxt += self.declare(n["var"], s)
            states = nxt
        for s0 in states:
            pre = s0.copy() if self.mergeifs else None
            res = []
            for s, v in self.ev(n["cond"], s0):
                if v == UNINIT:
                    s.issue("uninit", "switch on an indeterminate value", n.get("l", 0))
                    self.dead(s)
                    continue
                res += self.switch(s, v, body)
            if self.mergeifs and len(res) > 1:
                res = self.merge(pre, res, n.get("l", 0))
            out += res
        return out

    def switch(self, st, v, body):
        out = []
        cases = []
        default = None
        for i, (labels, _) in enumerate(body):
            for l in labels:
                if l == "default":
                    default = i
                else:
                    cases.append((l, i))
        if isinstance(v, int):
            for (lo, hi), i in cases:
                if lo <= v <= hi:
                    return self.run_from(st, body, i)
            return self.run_from(st, body, default) if default is not None else [(st, None)]
        rest = st
        alive = True
        for (lo, hi), i in cases:
            if hi - lo > 300:
                raise Unsupported("case range")
            for c in range(lo, hi + 1):
                s = rest.copy()
                try:
                    self.assume_eq(s, v, c, True)
                    out += self.run_from(s, body, i)
                except Infeasible:
                    pass
                try:
                    self.assume_eq(rest, v, c, False)
                except Infeasible:
                    alive = False
                    break
            if not alive:
                break
        if alive:
            out += self.run_from(rest, body, default) if default is not None else [(rest, None)]
        return out

    def run_from(self, st, body, i):
        res = self.seq([s for _, s in body[i:]], st)
        return [(s, None if c == ("break",) else c) for s, c in res]

    def s_Break(self, n, st):
        return [(st, ("break",))]

    def s_Continue(self, n, st):
        return [(st, ("continue",))]

    def s_Goto(self, n, st):
        return [(st, ("goto", n["label"]))]

    def s_Label(self, n, st):
        return self.exec(n.get("sub"), st)

    def s_Case(self, n, st):
        return self.exec(n.get("sub"), st)

    s_Default = s_Case

    def s_Return(self, n, st):
        if not n.get("e"):
            return [(st, ("ret", VOID))]
        out = []
        try:
            if n["e"].get("lv"):
                for s, l in self.lv(n["e"], st):
                    out.append((s, ("ret", ("loc", l))))
            else:
                for s, v in self.ev(n["e"], st):
                    out.append((s, ("ret", v)))
        except Infeasible:
            pass
        return out

    def s_Try(self, n, st):
        return self.exec(n["body"], st)

    @staticmethod
    def picture(st):
        # later writes clone the objects in the picture
        State._n += 1
        st.id = State._n
        return dict(st.heap), len(st.trace), len(st.out), dict(st.flags)

    @staticmethod
    def unchanged(now, then, grown=None):
        """same contents of all objects of then, and nothing decided or done in between; output and, with grown, appending do not count"""
        if now[1] != then[1] or now[3] != then[3] or grown is None and now[2] != then[2]:
            return False
        for k, o in then[0].items():
            n = now[0].get(k)
            if n is o or alike(n, o):
                continue
            if grown is None or n is None or o.kind not in ("vec", "string", "stream") or len(n.items) <= len(o.items) or n.items[:len(o.items)] != o.items or not alike(n, o, True):
                return False
            grown.add(k)
        return True

    def endless(self, st, line, msg):
        f = st.infn
        where = "src/%s:%s (%s)" % (f.get("f", "?"), line, f["qn"]) if f else "src/parser:%s" % line
        self.prog.__dict__.setdefault("endless_at", []).append((where, msg))

    def loop(self, st, cond, body, inc, limit=12, first=True, line=0, measured=True):
        """generic loop; cond(st) yields (st,bool)"""
        out = []
        work = [(st, 0, first, None, 0, 0)]
        while work:
            s, i, test, before, idle, forks = work.pop()
            now = self.picture(s)
            grown = set()
            idle = idle + 1 if before is not None and self.unchanged(now, before, grown) and not (grown and measured) else 0
            if i > limit and idle > 5:
                s.issue("endless", "the loop goes round, and nothing that decides about its end changes", line)
                self.endless(s, line, "the loop goes round, and nothing that decides about its end changes")
                self.dead(s)
                continue
            if forks > limit or i > self.ROUNDS:
                if not self.partial:
                    raise Unsupported("loop without a bound")
                self.lost.append("loop without a bound")
                continue
            if test:
                branches = []
                try:
                    branches = list(cond(s))
                except Infeasible:
                    continue
            else:
                branches = [(s, True)]
            forks += len(branches) > 1
            if before is not None and len(branches) == 1 and branches[0][1] and self.unchanged(now, before):
                s.issue("endless", "the loop goes round without changing anything", line)
                self.endless(s, line, "the loop goes round without changing anything")
                self.dead(s)
                continue
            for s2, b in branches:
                if not b:
                    out.append((s2, None))
                    continue
                for s3, ctl in body(s2):
                    if ctl is None or ctl == ("continue",):
                        for s4 in inc(s3):
                            work.append((s4, i + 1, True, now, idle, forks))
                    elif ctl == ("break",):
                        out.append((s3, None))
                    else:
                        out.append((s3, ctl))
            if len(out) + len(work) > self.MAXPATHS:
                raise Unsupported("too many paths")
        return out

    def s_While(self, n, st):
        if n.get("var"):
            raise Unsupported("while with declaration")
        return self.loop(st, lambda s: self.cond(n["cond"], s), lambda s: self.exec(n["body"], s), lambda s: [s], line=n.get("l", 0), measured=measures(n))

    def s_Do(self, n, st):
        return self.loop(st, lambda s: self.cond(n["cond"], s), lambda s: self.exec(n["body"], s), lambda s: [s], first=False, line=n.get("l", 0), measured=measures(n))

    def s_For(self, n, st):
        out = []
        for s, c in self.exec(n.get("init"), st):
            cond = (lambda x: self.cond(n["cond"], x)) if n.get("cond") else (lambda x: iter([(x, True)]))
            inc = (lambda x: [y for y, _ in self.exec(n["inc"], x)]) if n.get("inc") else (lambda x: [x])
            out += self.loop(s, cond, lambda x: self.exec(n["body"], x), inc, line=n.get("l", 0), measured=measures(n))
        return out

    def s_RangeFor(self, n, st):
        out = []
        gen = []
        if n["range"].get("lv") or n["range"]["k"] in ("Ref", "Member", "Un"):
            gen = [(s, self.objof(s, l)) for s, l in self.lv(n["range"], st)]
        else:
            for s, v in self.ev(n["range"], st):
                if v[0] != "obj":
                    raise Unsupported("range")
                gen.append((s, v[1]))
        for s, oid in gen:
            if s.r(oid).status == "freed":
                s.issue("uaf", "%s is iterated after its release" % self.describe(s, oid), n.get("l", 0))
            if s.r(oid).kind in ("set", "map"):
                import models
                models.ordered(s, oid)
            elif s.r(oid).kind == "string":
                oid = self.characters(s, oid)
            elif s.r(oid).kind not in ("vec", "arr"):
                raise Unsupported("loop over a " + s.r(oid).kind)
            for s1 in self.expand(s, oid):
                states = [s1]
                count = len(s1.r(oid).items)
                for i in range(count):
                    nxt = []
                    for x in states:
                        o = x.r(oid)
                        if i >= len(o.items):
                            nxt.append(x)
                            continue
                        val = o.items[i]
                        var = n["var"]
                        if isinstance(val, tuple) and val[0] == "obj":
                            tgt = val[1] if var.get("ref") else self.copy_obj(x, val[1])
                            x.env[var["id"]] = ("o", tgt)
                            self.bindings(var, x, ("o", tgt))
                        elif var.get("ref"):
                            x.env[var["id"]] = ("e", oid, i)
                        else:
                            fo = Obj("frame", "", "stack", var["name"])
                            fo.f["v"] = val
                            x.env[var["id"]] = ("f", x.new(fo), "v")
                        for y, ctl in self.exec(n["body"], x):
                            if ctl is None or ctl == ("continue",):
                                nxt.append(y)
                            elif ctl == ("break",):
                                out.append((y, None))
                            else:
                                out.append((y, ctl))
                    states = nxt
                    if len(states) > self.MAXPATHS:
                        raise Unsupported("too many paths")
                out += [(x, None) for x in states]
        return out

    # ---------------------------------------------------------------- merging (printers)
    def merge(self, pre, res, line):
        """join the outcomes of a branch that only printed"""
        groups = {}
        n0 = len(pre.out)
        keep = []
        for s, ctl in res:
            if ctl is not None and ctl[0] == "goto" or not self.only_printed(pre, s) or ctl not in (None, ("break",), ("continue",), ("ret", VOID)):
                keep.append((s, ctl))
                continue
            groups.setdefault(ctl, []).append(s)
        out = []
        for ctl, ss in groups.items():
            if len(groups) > 1 or len(ss) == 1 or keep:
                # keep distinct control outcomes apart
                out += [(s, ctl) for s in ss]
                continue
            outs = [tuple(s.out[n0:]) for s in ss]
            m = pre.copy()
            for s in ss:
                for i in s.issues[len(pre.issues):]:
                    if i not in m.issues:
                        m.issues.append(i)
                m.steps = max(m.steps, s.steps)
            m.next = max(s.next for s in ss)
            if len(set(outs)) == 1:
                m.out = pre.out + list(outs[0])
            else:
                alts = []
                for s, o in zip(ss, outs):
                    guard = tuple(s.trace[len(pre.trace):])
                    alts.append((guard, o))
                m.out = pre.out + [("alt", tuple(alts))]
            out.append((m, ctl))
        return out + keep

    def only_printed(self, pre, s):
        for i, o in pre.heap.items():
            q = s.heap[i]
            if q is o:
                continue
            if q.status != o.status or q.wr != o.wr or (o.pre is None and q.items != o.items):
                return False
            if o.kind == "frame" and q.f != o.f:
                return False
            if o.kind in ("string", "stream") and q.f.get("v") != o.f.get("v"):
                return False
        return True


def measures(n):
    """does a loop look at the length or the contents of a container"""
    if isinstance(n, dict):
        if n.get("k") == "Call" and n.get("fn") in ("size", "length", "empty", "back", "end", "rbegin", "cend", "at", "operator[]", "find", "capacity"):
            return True
        return any(measures(v) for v in n.values())
    return isinstance(n, list) and any(measures(v) for v in n)


def lengths(prog, fn, cap=128):
    """the lengths of lists that make a difference in a function: what it compares with constants, it may compare a length with"""
    memo = prog.__dict__.setdefault("_lengths", {})
    key = (fn["usr"] if fn else None, cap)
    if key in memo:
        return memo[key]
    memo[key] = set()
    consts = set()

    def value(n):
        cv = n.get("cv") if isinstance(n, dict) else None
        while isinstance(n, dict) and n.get("k") in ("Cast", "Paren", "ImpCast", "Temp") and n.get("e") is not None:
            n = n["e"]
        if not isinstance(n, dict):
            return None
        if n.get("k") == "Int":
            return n.get("v")
        if n.get("k") == "Ref" and n.get("dk") == "enum":
            return None
        return n.get("cv") or cv

    counts = set()      # variables set to the length of a list
    exact = set()

    def sized(n):
        if isinstance(n, dict):
            return n.get("fn") in ("size", "length") or n.get("k") == "Ref" and n.get("id") in counts or any(sized(v) for v in n.values())
        return isinstance(n, list) and any(sized(v) for v in n)

    def held(n):
        if isinstance(n, dict):
            if n.get("k") == "Decl":
                for v in n.get("c", ()):
                    if isinstance(v, dict) and sized(v.get("init")):
                        counts.add(v.get("id"))
            for v in n.values():
                held(v)
        elif isinstance(n, list):
            for v in n:
                held(v)

    def walk(n, all_):
        if isinstance(n, dict):
            if n.get("k") == "Bin" and n.get("op") in ("==", "!=", "<", ">", "<=", ">=", "%", "&"):
                for a, b in ((n.get("a"), n.get("b")), (n.get("b"), n.get("a"))):
                    c = value(a)
                    if c is not None and not isinstance(c, int):
                        try:
                            c = int(c)
                        except (TypeError, ValueError):
                            c = None
                    if c is not None and 1 <= c <= cap and (all_ or sized(b)):
                        consts.add(c)
                if n.get("op") not in ("%", "&") and sized(n.get("a")) and sized(n.get("b")):
                    exact.update((1, 3))       # the lengths of two lists are compared
            if n.get("k") == "Call" and str(n.get("qn", "")).split("::")[-1] in ("min", "max", "clamp"):
                for a in n.get("c", ()):
                    c = value(a)
                    if isinstance(c, str) and c.isdigit():
                        c = int(c)
                    if isinstance(c, int) and 1 <= c <= cap and any(sized(b) for b in n["c"] if b is not a):
                        consts.add(c)
            for v in n.values():
                walk(v, all_)
        elif isinstance(n, list):
            for v in n:
                walk(v, all_)

    if fn is None:
        for f in prog.functions.values():
            if f["name"] == "hsql_parse" and f.get("body"):
                held(f["body"])
                walk(f["body"], False)
    elif fn.get("body") and not fn["name"].startswith(("yy", "hsql_")):
        held(fn["body"])
        walk([fn["body"], fn.get("inits")], True)
    memo[key] = {n for c in consts for n in (c - 1, c, c + 1) if n > 0} | exact
    return memo[key]


def callgraph(prog):
    """function -> functions it can call"""
    if "_calls" not in prog.__dict__:
        calls = {}

        def walk(n, out):
            if isinstance(n, dict):
                if n.get("usr"):
                    out.add(n["usr"])
                if n.get("k") == "Delete" and n.get("arec"):
                    for f in prog.functions.values():
                        if f.get("kind") == "dtor" and prog.isa(f.get("cls"), n["arec"]):
                            out.add(f["usr"])
                for v in n.values():
                    walk(v, out)
            elif isinstance(n, list):
                for v in n:
                    walk(v, out)
        for u, f in prog.functions.items():
            if f.get("body"):
                out = set()
                walk([f["body"], f.get("inits")], out)
                calls[u] = {x for x in out if x in prog.functions}
        prog._calls = calls
    return prog._calls


def recursive(prog):
    """the functions that can call themselves, directly or through others"""
    if "_recursive" not in prog.__dict__:
        calls = callgraph(prog)
        rec = set()
        for u in calls:
            seen, work = set(), list(calls[u])
            while work:
                x = work.pop()
                if x not in seen:
                    seen.add(x)
                    work += calls.get(x, ())
            if u in seen:
                rec.add(u)
        prog._recursive = rec
    return prog._recursive


def alike(a, b, grown=False):
    return a is not None and all(getattr(a, x) == getattr(b, x) for x in ("f", "items", "status", "null", "pre") if x != "items" or not grown)


def models_elem(it, st, v):
    import models
    return models.elem_value(it, st, v)


def first_keys(st, items):
    """of several pairs with the same key, a map keeps the first"""
    seen, out = [], []
    for v in items:
        key = st.r(v[1]).f.get("first") if isinstance(v, tuple) and v[0] == "obj" else None
        if isinstance(key, tuple) and key[0] == "obj" and st.r(key[1]).kind == "string" and st.r(key[1]).f["v"][0] == "str":
            key = st.r(key[1]).f["v"][1]
        if isinstance(key, (int, str)):
            if key in seen:
                continue
            seen.append(key)
        out.append(v)
    return out


def kindconst(e):
    return True


def is_ptr(v):
    return isinstance(v, tuple) and v[0] in ("ptr", "null", "str", "cs", "pl", "it", "lam", "fn", "cptr")


def is_cs(st, v):
    if not isinstance(v, tuple):
        return False
    if v[0] in ("str", "cs", "cptr"):
        return True
    if v[0] == "ptr":
        return st.r(v[1]).kind == "cstr"
    return False


def is_numeric_rep(v):
    return isinstance(v, tuple) and v[0] in ("sym", "lin", "app", "size")


def flatten_switch(body):
    """list of (labels, statement); labels are (lo, hi) pairs or 'default'"""
    out = []

    def add(n, labels):
        if n is None:
            out.append((labels, {"k": "Null"}))
            return
        if n["k"] == "Case":
            lo = int(n["v"])
            hi = int(n.get("v2", n["v"]))
            add(n.get("sub"), labels + [(lo, hi)])
        elif n["k"] == "Default":
            add(n.get("sub"), labels + ["default"])
        else:
            out.append((labels, n))
    for n in body["c"] if body["k"] == "Block" else [body]:
        add(n, [])
    return out

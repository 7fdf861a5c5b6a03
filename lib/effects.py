"""C14: state with static or thread storage, and effects outside the given objects, in the whole program.

Every occurrence of a variable with static storage is followed upwards through the expression it stands in (members, elements, references
bound to it, pointers taken, returned or passed on) to what is done with it. Per-thread variables may be used when they are set before they
are read: inside the scanner that is decided per start condition from the evaluated actions, elsewhere by a must-analysis on the control flow."""
import re

ALLOWED = {
    "strlen", "strdup", "strndup", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strcpy", "strncpy", "stpcpy", "strcat", "strncat", "strchr", "strrchr",
    "strstr", "strpbrk", "strspn", "strcspn", "strnlen", "memcpy", "memmove", "memset", "memcmp", "memchr", "malloc", "calloc", "realloc", "free",
    "atoi", "atol", "atoll", "atof", "strtol", "strtoll", "strtoul", "strtoull", "strtod", "strtof", "strtold", "sscanf", "snprintf", "sprintf", "vsnprintf",
    "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "toupper", "tolower", "isxdigit", "ispunct", "abs", "labs", "llabs", "pow", "floor", "ceil",
    "__errno_location", "__assert_fail", "assert", "alloca", "__builtin_expect", "__builtin_unreachable", "qsort", "bsearch", "strtok_r", "fabs", "isnan",
    "isinf", "isfinite", "llround", "lround", "round", "trunc", "fmod", "strcoll", "operator new", "operator delete", "strtoimax", "index",
}
STATEFUL = {
    "strtok", "rand", "srand", "random", "srandom", "drand48", "srand48", "lrand48", "setlocale", "localtime", "gmtime", "ctime", "asctime", "tmpnam", "setenv",
    "putenv", "unsetenv", "signal", "atexit", "chdir", "umask", "ecvt", "fcvt", "l64a", "tzset", "getenv", "secure_getenv", "time", "clock", "gettimeofday",
    "clock_gettime", "getpid", "std::locale::global", "std::atexit", "std::getenv", "uselocale", "duplocale", "on_exit", "mblen", "mbtowc", "wctomb",
    "mbrtowc", "std::set_new_handler", "std::set_terminate", "std::random_device::operator()", "std::chrono::system_clock::now",
    "std::chrono::steady_clock::now", "std::chrono::high_resolution_clock::now", "std::this_thread::get_id", "pthread_self",
}
OUTSIDE = {
    "printf", "vprintf", "puts", "putchar", "fopen", "fdopen", "freopen", "open", "openat", "creat", "write", "pwrite", "read", "unlink", "remove", "rename",
    "mkdir", "rmdir", "system", "popen", "fork", "vfork", "execv", "execve", "execl", "execlp", "execvp", "socket", "connect", "send", "sendto", "kill", "raise",
    "exit", "_exit", "_Exit", "quick_exit", "abort", "std::terminate", "syslog", "openlog", "pthread_create", "sleep", "usleep", "nanosleep", "alarm", "mmap",
    "dlopen", "setvbuf", "setbuf", "perror_to", "tmpfile", "mkstemp", "truncate", "ftruncate", "link", "symlink", "chmod", "chown", "mlock", "longjmp", "scanf",
    "getchar", "gets", "fgets", "std::this_thread::sleep_for",
}
STREAMARG = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "fflush": 0, "fputs_unlocked": 1, "_IO_putc": 1}
FILECLASS = re.compile(r"^std::(basic_(o|i)?f(ile)?stream|basic_filebuf|thread|jthread|async|random_device|filesystem)")
LOCKS = re.compile(r"^(const )?std::(mutex|recursive_mutex|shared_mutex|timed_mutex|once_flag)$")
LOCKERS = re.compile(r"^std::(lock_guard|unique_lock|scoped_lock|shared_lock)")
READMETHODS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "count", "size", "length", "empty", "contains", "lower_bound", "upper_bound", "equal_range",
               "c_str", "compare", "good", "fail", "eof", "bad", "capacity", "max_size", "rdstate", "load", "get_allocator", "substr", "native_handle"}
ELEMENT = {"at", "front", "back", "data", "value", "get"}
WHOLE = {"clear", "reset", "assign"}


def kids(n):
    for k, v in n.items():
        if isinstance(v, dict) and "k" in v:
            yield k, None, v
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, dict) and "k" in x:
                    yield k, i, x
                elif isinstance(x, dict) and isinstance(x.get("init"), dict):
                    yield k, i, dict(x["init"])


def constp(t):
    """a pointer or reference type whose target cannot be written"""
    t = t.strip()
    t = re.sub(r"(\*|&)\s*(const|volatile|__restrict)*\s*$", r"\1", t)
    if not t or t[-1] not in "*&":
        return False
    u = t[:-1].strip()
    if u.endswith("&"):
        u = u[:-1].strip()
    if u.endswith("*") or u.endswith("const"):
        return u.endswith("const")
    return u.startswith("const ")


def isptr(t):
    return bool(re.search(r"\*\s*(const|volatile|__restrict)*\s*$", t))


class Uses:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.calls = {}
        self.byusr = {}
        for u, f in prog.functions.items():
            self.byusr.setdefault(f["usr"], []).append(f)
        self.refs = {}     # (function, id) -> [stack]
        self.globs = {}    # gu -> [(function, stack)]
        self.errno = []
        for f in prog.functions.values():
            for part in [f.get("body")] + [x for x in f.get("inits") or () if isinstance(x, dict)]:
                if isinstance(part, dict):
                    self.scan(f, part if "k" in part else {"k": "Init", "c": [part.get("init")] if isinstance(part.get("init"), dict) else []}, [])

    def scan(self, f, n, stack):
        stack = stack + [n]
        k = n["k"]
        if k == "Ref" or k == "Member" and n.get("gu"):
            if n.get("glob"):
                self.globs.setdefault(n.get("gu"), []).append((f, stack))
            elif "id" in n:
                self.refs.setdefault((f["usr"], n["id"]), []).append((f, stack))
        elif k == "Call":
            if n.get("fn") == "__errno_location":
                self.errno.append((f, stack))
            if n.get("usr"):
                self.calls.setdefault(n["usr"], []).append((f, stack))
        for _, _, c in kids(n):
            self.scan(f, c, stack)

    def of(self, gu):
        out = []
        for f, st in self.globs.get(gu, ()):
            out += self.climb(f, st, "lv", ())
        return out

    def follow(self, f, vid, mode):
        """uses of a local variable or parameter that refers (lv) or points (ptr) to the object"""
        key = (f["usr"], vid, mode)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        out = []
        for g, st in self.refs.get((f["usr"], vid), ()):
            out += self.climb(g, st, "lv" if mode == "lv" else "var", ())
        self.memo[key] = out
        return out

    def param(self, usr, i):
        for f in self.byusr.get(usr, ()):
            if f.get("body") and i < len(f["params"]):
                return f, f["params"][i]
        return None, None

    def climb(self, f, stack, mode, path):
        """[(kind, function, line, what, path)], kind in read, write, set (the whole is overwritten), copy, lock, unknown"""
        i = len(stack) - 1
        out = []

        def use(kind, what=""):
            out.append((kind, f, stack[i].get("l") or stack[-1].get("l"), what, path))
            return out
        while i > 0:
            n, p = stack[i], stack[i - 1]
            slot = idx = None
            for k, j, c in kids(p):
                if c is n:
                    slot, idx = k, j
            k = p["k"]
            i -= 1
            t = p.get("t", "")
            if k == "Cast":
                ck = p.get("ck")
                if ck == "LValueToRValue":
                    if mode == "var":
                        mode = "ptr"
                        continue
                    use("read")
                    if isptr(t) and not constp(t) and mode == "lv":
                        mode = "ptr"
                        path = path + ("*",)
                        continue
                    return out
                if ck == "ToVoid":
                    return out
                if ck == "ArrayToPointerDecay":
                    if constp(t):
                        return use("read")
                    mode = "ptr"
                    continue
                if mode == "lv" and t.startswith("const "):
                    return use("read")
                if mode == "ptr" and isptr(t) and constp(t):
                    return use("read")
                if mode == "ptr" and not isptr(t):
                    return use("read")
                continue
            if k == "Member":
                if mode == "var":
                    return use("unknown", "member of a pointer variable")
                path = path + (p["name"],)
                mode = "lv"
                continue
            if k == "Index":
                if slot == "b":
                    return use("read")
                mode = "lv"
                path = path + ("[]",)
                continue
            if k == "Assign":
                if slot == "b":
                    if mode == "ptr":
                        return use("unknown", "a pointer to it is stored")
                    return use("read")
                if mode == "var":
                    return out
                if mode == "ptr":
                    return out
                use("write", "assigned")
                return out
            if k == "CAssign":
                if slot == "b" or mode in ("var", "ptr"):
                    return use("read") if slot == "b" else out
                return use("write", "changed")
            if k == "Un":
                op = p.get("op")
                if op in ("++", "--"):
                    if mode in ("var", "ptr"):
                        continue
                    return use("write", "counted")
                if op == "&":
                    mode = "ptr" if mode == "lv" else "unknown"
                    if mode == "unknown":
                        return use("unknown", "address of a pointer to it")
                    continue
                if op == "*":
                    mode = "lv"
                    continue
                return use("read")
            if k == "Bin":
                if p.get("op") == "," and slot == "b":
                    continue
                if p.get("op") == ",":
                    return out
                if mode == "ptr" and isptr(t):
                    continue
                return use("read")
            if k in ("Cond", "Elvis"):
                if slot == "cond":
                    return use("read")
                continue
            if k == "Call":
                fn = p.get("fn", "")
                if slot == "callee":
                    return use("unknown", "called")
                if slot == "obj":
                    if mode == "var":
                        return use("unknown", "method of a pointer variable")
                    if p.get("own"):
                        return use("write", "%s() is called on it" % fn)
                    if fn in READMETHODS and not (fn == "str"):
                        return use("read")
                    if fn in ("str", "rdbuf"):
                        if not [x for x in p["c"] if x.get("k") != "Construct" or x.get("c")]:
                            return use("read")
                        return use("set" if not path else "write", "set")
                    if fn in ELEMENT:
                        mode = "ptr" if isptr(t) else "lv"
                        path = path + ("[]",)
                        if constp(t) and isptr(t):
                            return use("read")
                        continue
                    if fn in ("operator bool", "operator->", "operator*"):
                        use("read")
                        return out
                    if fn in WHOLE:
                        return use("clear", fn)
                    return use("write", "%s() is called on it" % fn)
                # an argument
                j = idx
                op = p.get("op")
                if p.get("opmem"):
                    if j == 0:
                        if op == "=":
                            return use("write", "assigned")
                        if op == "[]":
                            if re.search(r"std::(unordered_)?(multi)?map", p.get("cls", "")):
                                return use("write", "operator[] inserts")
                            path = path + ("[]",)
                            mode = "lv"
                            continue
                        if op in ("->", "*"):
                            use("read")
                            mode = "ptr" if op == "->" else "lv"
                            path = path + ("*",)
                            if constp(t) or t.startswith("const "):
                                return out
                            continue
                        if op in ("<<", ">>", "++", "--", "+=", "-=", "|=", "&="):
                            return use("write", "operator" + op)
                        return use("read") if op in ("==", "!=", "<", ">") else use("unknown", "operator" + str(op))
                    j -= 1
                if p.get("own") and p.get("usr"):
                    if fn.endswith("_scan_buffer") and mode == "ptr":
                        return use("write", "the scanner works in it")
                    g, prm = self.param(p["usr"], j)
                    if prm is None:
                        return use("unknown", "passed to %s" % fn)
                    if mode == "ptr":
                        if constp(prm["t"]):
                            return use("read")
                        return out + self.follow(g, prm["id"], "ptr")
                    if not prm.get("ref"):
                        return use("read")
                    return out + self.follow(g, prm["id"], "lv")
                if mode == "lv" and fn in ("move", "forward", "ref", "as_const", "get", "addressof", "addressof"):
                    if fn == "as_const":
                        return use("read")
                    if fn == "addressof":
                        mode = "ptr"
                    if t.startswith("const "):
                        return use("read")
                    continue
                if fn in ("begin", "end", "cbegin", "cend", "size", "data", "make_pair", "min", "max", "find", "find_if", "lower_bound", "any_of"):
                    return use("read")
                if op in ("<<", ">>") and j == 0:
                    return use("write", "operator" + op)
                if op in ("==", "!=", "<", ">", "+"):
                    return use("read")
                if mode == "lv" and not n.get("lv"):
                    return use("read")
                if mode == "ptr" and fn in ("free", "memcpy", "memset", "strcpy", "strncpy", "sprintf", "snprintf", "strcat", "qsort", "realloc", "sort", "fill"):
                    return use("write" if j == 0 or fn in ("sort", "fill", "qsort") else "read", "passed to " + fn)
                if fn in ("swap", "getline", "exchange", "iter_swap", "call_once"):
                    return use("write", "passed to " + fn)
                return use("unknown", "passed to %s" % (p.get("qn") or "a function pointer"))
            if k == "Construct":
                if LOCKERS.match(p.get("cls", "")):
                    return use("lock")
                if p.get("copy"):
                    return use("read")
                if p.get("move"):
                    if mode == "lv":
                        return use("write", "moved from")
                    return use("read")
                if p.get("own") and p.get("usr"):
                    g, prm = self.param(p["usr"], idx)
                    if prm is None:
                        return use("unknown", "passed to a constructor of " + p["cls"])
                    if mode == "ptr":
                        return use("read") if constp(prm["t"]) else out + self.follow(g, prm["id"], "ptr")
                    if not prm.get("ref"):
                        return use("read")
                    return out + self.follow(g, prm["id"], "lv")
                if mode == "lv" and p.get("cls", "").startswith("std::reference_wrapper"):
                    return use("unknown", "referred to")
                return use("unknown" if mode == "ptr" else "read", "passed to a constructor of " + p.get("cls", ""))
            if k == "Return":
                r = f.get("ret", "")
                if mode == "lv" and not r.endswith("&"):
                    return use("read")
                if constp(r):
                    return use("read")
                for g, st in self.calls.get(f["usr"], ()):
                    key = (id(st[-1]), mode)
                    if key in self.memo:
                        continue
                    self.memo[key] = 1
                    out += self.climb(g, st, mode, path)
                if not f.get("cls") and not f.get("internal") or f.get("cls"):
                    use("unknown", "handed out by " + f["qn"])
                return out
            if k == "Var":
                if mode == "ptr" and not constp(p["t"]):
                    if p.get("glob") or p.get("gu"):
                        return use("unknown", "a pointer to it is stored")
                    return out + self.follow(f, p["id"], "ptr")
                if mode == "lv" and p.get("ref") and not constp(p["t"]):
                    return out + self.follow(f, p["id"], "lv")
                return use("read")
            if k == "RangeFor":
                if slot != "range":
                    return out
                v = p["var"]
                if v.get("ref") and not constp(v["t"]):
                    return out + self.follow(f, v["id"], "lv")
                return use("read")
            if k in ("Block", "Decl", "Null"):
                return out
            if k in ("If", "While", "Do", "For", "Switch", "Case", "Default", "Label"):
                if slot in ("cond",) and mode != "var":
                    return use("read")
                return out
            if k == "Delete":
                return use("write", "deleted")
            if k == "SizeOf":
                return out
            if k in ("InitList", "Init", "New", "Throw", "Lambda"):
                if k == "InitList" and mode == "lv":
                    return use("read") if not n.get("lv") else use("unknown", "in an initialiser")
                return use("unknown", "in " + k)
            return use("unknown", "in %s" % p.get("cls", k))
        return out


# ------------------------------------------------------------ control flow
class Flow:
    """must-analysis: is a per-thread variable set before it is read"""

    def __init__(self, uses, events):
        self.uses = uses
        self.ev = events      # id(node) -> list of (kind, variable, path, line)
        self.summary = {}

    def cfg(self, f):
        self.blocks = [[]]
        self.succ = {0: set()}
        self.labels = {}
        self.gotos = []
        self.brk, self.cont = [], []
        end = self.stmt(f["body"], 0)
        for n, l in self.gotos:
            if l in self.labels:
                self.succ[n].add(self.labels[l])
        return self.blocks, self.succ, end

    def new(self, *pred):
        n = len(self.blocks)
        self.blocks.append([])
        self.succ[n] = set()
        for p in pred:
            if p is not None:
                self.succ[p].add(n)
        return n

    def stmt(self, s, cur):
        if not isinstance(s, dict):
            return cur
        if cur is None:
            cur = self.new()
        k = s.get("k")
        if k == "Block":
            for c in s["c"]:
                cur = self.stmt(c, cur)
            return cur
        if k == "If":
            for x in ("init", "var", "cond"):
                cur = self.expr(s.get(x), cur)
            a = self.stmt(s.get("then"), self.new(cur))
            b = self.stmt(s.get("else"), self.new(cur)) if s.get("else") else cur
            return self.new(a, b)
        if k in ("While", "For", "RangeFor", "Do"):
            cur = self.expr(s.get("init"), cur) if not isinstance(s.get("init"), dict) or s["init"].get("k") != "Decl" else self.stmt(s["init"], cur)
            cur = self.expr(s.get("range"), cur)
            head = self.new(cur)
            out = self.new()
            self.brk.append(out)
            if k == "Do":
                tail = self.new()
                self.cont.append(tail)
                e = self.stmt(s.get("body"), head)
                if e is not None:
                    self.succ[e].add(tail)
                t = self.expr(s.get("cond"), tail)
                self.succ[t].add(head)
                self.succ[t].add(out)
            else:
                c = self.expr(s.get("cond"), head)
                tail = self.new()
                self.cont.append(tail)
                e = self.stmt(s.get("body"), self.new(c))
                if e is not None:
                    self.succ[e].add(tail)
                t = self.expr(s.get("inc"), tail)
                self.succ[t].add(head)
                self.succ[c].add(out)
            self.brk.pop()
            self.cont.pop()
            return out
        if k == "Switch":
            for x in ("init", "var", "cond"):
                cur = self.expr(s.get(x), cur)
            out = self.new(cur)
            self.brk.append(out)
            self.sw = getattr(self, "sw", [])
            self.sw.append(cur)
            e = self.stmt(s.get("body"), self.new())
            if e is not None:
                self.succ[e].add(out)
            self.sw.pop()
            self.brk.pop()
            return out
        if k in ("Case", "Default"):
            n = self.new(cur, self.sw[-1])
            return self.stmt(s.get("sub"), n)
        if k == "Break":
            self.succ[cur].add(self.brk[-1])
            return None
        if k == "Continue":
            self.succ[cur].add(self.cont[-1])
            return None
        if k == "Goto":
            self.gotos.append((cur, s["label"]))
            return None
        if k == "Label":
            n = self.new(cur)
            self.labels[s["label"]] = n
            return self.stmt(s.get("sub"), n)
        if k == "Return":
            self.expr(s.get("e"), cur)
            self.exits.append(cur)
            return None
        if k == "Try":
            a = self.stmt(s.get("body"), self.new(cur))
            r = [a]
            for h in s.get("handlers") or ():
                r.append(self.stmt(h, self.new(cur)))
            return self.new(*r)
        return self.expr(s, cur)

    def expr(self, e, cur):
        if not isinstance(e, dict):
            return cur
        if cur is None:
            cur = self.new()
        k = e.get("k")
        if k == "Bin" and e.get("op") in ("&&", "||"):
            cur = self.expr(e["a"], cur)
            r = self.expr(e["b"], self.new(cur))
            return self.new(cur, r)
        if k in ("Cond", "Elvis"):
            cur = self.expr(e.get("cond") or e.get("a"), cur)
            a = self.expr(e["a"], self.new(cur)) if k == "Cond" else cur
            b = self.expr(e["b"], self.new(cur))
            return self.new(a, b)
        if k == "Assign":
            cur = self.expr(e["b"], cur)
            cur = self.expr(e["a"], cur)
        elif k == "Lambda":
            r = self.stmt(e.get("body"), self.new(cur)) if e.get("body") else cur
            return self.new(cur, r)
        else:
            for _, _, c in kids(e):
                cur = self.expr(c, cur)
        self.blocks[cur] += self.ev.get(id(e), [])
        if k == "Call" and e.get("usr"):
            self.blocks[cur].append(("call", e["usr"], None, e.get("l")))
        if k == "Construct" and e.get("own"):
            self.blocks[cur].append(("call", e["usr"], None, e.get("l")))
        return cur

    def analyse(self, f):
        """(reads of a variable not set before: {var: (function, line)}, set at every exit)"""
        self.exits = []
        blocks, succ, end = self.cfg(f)
        if end is not None:
            self.exits.append(end)
        TOP = None
        state = {0: frozenset()}
        work = [0]
        reads = {}

        def run(b, s):
            for kind, v, path, line in blocks[b]:
                if kind == "call":
                    r, k = self.summary.get(v, ({}, frozenset()))
                    for x, w in r.items():
                        if x not in s:
                            reads.setdefault(x, w)
                    s = s | k
                elif kind == "kill":
                    s = s | {v}
                elif v not in s:
                    reads.setdefault(v, (f, line))
            return s
        while work:
            b = work.pop()
            o = run(b, state[b])
            for n in succ[b]:
                x = o if n not in state else state[n] & o
                if n not in state or x != state[n]:
                    state[n] = x
                    work.append(n)
        ex = [run(b, state[b]) for b in self.exits if b in state]
        k = frozenset.intersection(*ex) if ex else frozenset()
        return reads, k

    def solve(self, functions, fixed):
        self.summary = dict(fixed)
        for _ in range(12):
            changed = False
            for f in functions:
                if f["usr"] in fixed or not f.get("body"):
                    continue
                r = self.analyse(f)
                if self.summary.get(f["usr"]) != r:
                    self.summary[f["usr"]] = r
                    changed = True
            if not changed:
                break


def statics(prog):
    out = dict(prog.vars)
    for r in prog.records.values():
        for v in r.get("statics") or ():
            k = v.get("gu")
            if k and k not in out:
                v = dict(v)
                v.setdefault("unit", r.get("f", ""))
                out[k] = v
    return out


def outer_refs(n, own=None):
    """references of an initialiser to variables of the surrounding call"""
    own = set() if own is None else own
    if n.get("k") == "Var":
        own.add(n["id"])
    for p in n.get("params") or ():
        if isinstance(p, dict):
            own.add(p.get("id"))
    if n.get("k") == "This":
        yield "this"
    if n.get("k") == "Ref" and n.get("dk") in ("var", "ParmVar", "binding") and not n.get("glob") and n["id"] not in own:
        yield n["name"]
    for _, _, c in kids(n):
        yield from outer_refs(c, own)


def where(f, line):
    return "src/%s:%s (%s)" % (f.get("f") or f.get("unit"), line, f["qn"])


def generated(f):
    n = f.get("f") or ""
    return n.endswith(("flex_lexer.cpp", "bison_parser.cpp", "flex_lexer.h", "bison_parser.h")) and f["qn"] not in ("hsql_lex", "hsql_parse")


def c14(c):
    prog = c.p.prog
    c.rule("Every occurrence of every variable with static storage (namespace, class and function scope) is followed to what is done with it: none is written, "
           "handed out for writing or initialised from the arguments of a call; mutexes excepted.")
    uses = Uses(prog)
    vs = statics(prog)
    tls = {}
    for gu, v in sorted(vs.items()):
        if v.get("tls"):
            tls[gu] = v
            continue
        us = uses.of(gu)
        c.count("static variables")
        c.count("occurrences of static variables", len(uses.globs.get(gu, ())))
        bad = False
        name = v.get("qn") or v["name"]
        if isinstance(v.get("init"), dict) and v.get("static"):
            refs = sorted(set(outer_refs(v["init"])))
            if refs:
                bad = True
                c.violation("static|%s|argument" % v["name"], "src/%s:%s" % (v.get("f") or v["unit"], v.get("l")),
                            "the static variable %s keeps what it was given by the first call (%s)" % (name, ", ".join(refs)))
        for kind, f, line, what, path in us:
            if kind in ("write", "set", "clear"):
                if LOCKS.match(v["t"]) and not path:
                    continue
                if v.get("const") and "*" not in path:
                    continue
                bad = True
                c.violation("static|%s|%s" % (v["name"], what), where(f, line), "the variable %s, shared by all calls and threads, is written: %s" % (name, what))
            elif kind == "unknown" and what == "a pointer to it is stored" and not (v.get("const") and "*" not in path):
                bad = True
                c.violation("static|%s|%s" % (v["name"], what), where(f, line), "%s, shared by all calls and threads, is handed out for writing" % name)
            elif kind == "unknown" and not (v.get("const") and "*" not in path):
                bad = True
                c.undecide("static variable " + name, "%s in %s" % (what, f["qn"]))
        if not bad:
            c.ok("static variables never written")
    per_thread(c, uses, tls)
    externals(c)
    casts(c, uses)


def per_thread(c, uses, tls):
    c.rule("Per-thread variables (and errno) are set before they are read: in the scanner in every start condition, from the evaluated actions; "
           "elsewhere on every path of the control flow, through calls.")
    prog = c.p.prog
    lex, stale = None, {}
    try:
        import lexing
        lex = lexing.find_fn(prog, "hsql_lex")
    except Exception as x:
        c.undecide("scanner", str(x))
    events = {}
    names = {gu: v.get("qn") or v["name"] for gu, v in tls.items()}
    names["errno"] = "errno"
    inlex = set()

    def add(gu, f, stack, u):
        kind, g, line, what, path = u
        if g is not f:
            kind = "read"
        if kind == "unknown":
            kind = "read"
        events.setdefault(id(stack[-1]), []).append(("read" if kind == "read" else "kill" if kind in ("set", "clear") else "write", gu, path, line))
    for gu in tls:
        for f, st in uses.globs.get(gu, ()):
            if lex is not None and f["usr"] == lex["usr"]:
                inlex.add(gu)
                continue
            uses.memo = {}
            for kind, g, line, what, path in uses.climb(f, st, "lv", ()):
                if kind == "write" and what == "assigned" and not path:
                    e = "kill"
                elif kind in ("set", "clear") and not path:
                    e = "kill"
                elif kind == "lock" or kind == "write" and not (what in ("counted", "changed") and used(st, path)):
                    continue
                else:
                    e = "read"
                tgt = st[-1]
                if e == "kill":
                    # the whole assignment happens after its right side
                    for x in reversed(st):
                        if x["k"] in ("Assign", "Call"):
                            tgt = x
                            break
                events.setdefault(id(tgt), []).append((e, gu, path, line))
    for f, st in uses.errno:
        if lex is not None and f["usr"] == lex["usr"]:
            inlex.add("errno")
            continue
        for kind, g, line, what, path in uses.climb(f, st, "ptr", ()):
            e = "kill" if kind == "write" and what == "assigned" else "read" if kind == "read" else None
            if e:
                tgt = st[-1]
                if e == "kill":
                    for x in reversed(st):
                        if x["k"] == "Assign":
                            tgt = x
                            break
                events.setdefault(id(tgt), []).append((e, "errno", path, line))
    fixed = {}
    if lex is not None:
        bad = scanner(c, inlex, tls)
        fixed[lex["usr"]] = ({}, frozenset())
    fl = Flow(uses, events)
    fns = [f for f in prog.functions.values()]
    fl.solve(fns, fixed)
    called = set()
    for f in fns:
        for _, st in []:
            pass
    callees = set(uses.calls)
    done = set()
    for f in fns:
        r, _ = fl.summary.get(f["usr"], ({}, None))
        # entry points: not called by the library itself, or public
        if f["usr"] in callees and not f["qn"].startswith("hsql::"):
            continue
        for gu, (g, line) in sorted(r.items(), key=str):
            if (gu, g["usr"], line) in done:
                continue
            done.add((gu, g["usr"], line))
            c.violation("thread|%s|%s" % (names[gu], g["qn"]), where(g, line),
                        "the per-thread variable %s is read although it was not set since the beginning of %s" % (names[gu], f["qn"]))
    for gu in list(tls) + ["errno"]:
        if not any(d[0] == gu for d in done):
            c.ok("per-thread variables outside the scanner")
    c.count("functions of the control flow analysis", len(fns))


def used(stack, path):
    """is the value of the counting expression used"""
    for i in range(len(stack) - 1, 0, -1):
        if stack[i]["k"] in ("Un", "CAssign"):
            return stack[i - 1]["k"] not in ("Block", "For", "If", "Case", "Default", "Label", "Init") or \
                stack[i - 1]["k"] == "If" and stack[i - 1].get("cond") is stack[i]
    return True


def scanner(c, inlex, tls):
    """start conditions in which a per-thread variable may still hold what an earlier call left in it"""
    import lexing
    p, err = lexing.product(c)
    if p is None:
        c.undecide("scanner", err)
        return
    conds = sorted({ci for ci, _ in p.seen_conds})
    todo = {}
    for (act, cond), effs in p.impl.effects.items():
        todo.setdefault(cond, []).append((act, effs))
    for cond in conds:
        try:
            e = p.eof_effect(cond)
            if (None, e) not in todo.get(cond, []):
                todo.setdefault(cond, []).append(("end of text", e))
        except Exception as x:
            c.undecide("end of text", str(x))
    for gu in sorted(inlex):
        label = "errno" if gu == "errno" else "static " + tls[gu]["name"]
        name = "errno" if gu == "errno" else tls[gu].get("qn") or tls[gu]["name"]
        if gu != "errno" and tls[gu].get("rec", "") not in ("", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_string") :
            c.undecide("per-thread variable " + name, "type " + tls[gu]["t"])
            continue
        start = [ci for ci in conds if ci == p.start]
        work = list(start)
        seen = set(work)
        bad = False
        while work:
            ci = work.pop()
            for act, effs in todo.get(ci, ()):
                for s, e in effs:
                    c.count("scanner paths with per-thread variables")
                    obs = [e["token"], e["vals"]] + [x for x in s.trace] + list(s.atoms)
                    for b, v in e["bufs"].items():
                        if b != label:
                            obs.append(v)
                    if mentions(obs, label):
                        bad = True
                        c.violation("thread|%s|scanner" % name, "src/parser/flex_lexer.l",
                                    "the per-thread variable %s is used in start condition %s although it may still hold what an earlier call left in it" % (
                                        name, ci), "action %s gives %s" % (act, str([e["token"], e["vals"]])[:200]))
                        continue
                    if final(s, e, gu, label) and e["next"] not in seen:
                        seen.add(e["next"])
                        work.append(e["next"])
        if not bad:
            c.ok("per-thread variables of the scanner")
            c.sample({"per-thread variable": name, "start conditions in which it may be stale": sorted(seen), "observed there": False})


def mentions(x, label):
    if isinstance(x, (tuple, list, set, frozenset)):
        if isinstance(x, tuple) and len(x) == 2 and x[0] in ("sym", "tok") and isinstance(x[1], str) and (x[1] == label or x[1].startswith(label + ".")):
            return True
        return any(mentions(y, label) for y in x)
    if isinstance(x, dict):
        return any(mentions(y, label) for y in x.values())
    return False


def final(s, e, gu, label):
    """may the variable still hold its old content after the path"""
    if label in e["bufs"]:
        return mentions([e["bufs"][label]], label)
    l = s.env.get(("g", gu))
    if l is None:
        return True
    if l[0] == "f":
        return mentions([s.r(l[1]).f.get(l[2])], label)
    return True


def externals(c):
    c.rule("Every call of a function outside the library is one that neither keeps state nor has an effect outside its arguments; output goes to standard "
           "error only (printing functions: also to the stream they are given or standard output).")
    prog = c.p.prog
    fns = list(prog.functions.values())
    byusr = {}
    for f in fns:
        byusr.setdefault(f["usr"], f)
    edges = {}
    sites = []

    def scan(f, n):
        if n["k"] == "Call":
            if n.get("own") or n.get("usr") in byusr:
                edges.setdefault(f["usr"], set()).add(n.get("usr"))
            elif n.get("qn"):
                sites.append((f, n))
        elif n["k"] == "Construct":
            edges.setdefault(f["usr"], set()).add(n.get("usr"))
            if not n.get("own"):
                sites.append((f, n))
        elif n["k"] == "Ref" and n.get("dk") == "fn":
            edges.setdefault(f["usr"], set()).add(n.get("usr"))
        elif n["k"] == "Ref" and n.get("glob") and not n.get("own"):
            sites.append((f, n))
        for _, _, x in kids(n):
            scan(f, x)
    for f in fns:
        if isinstance(f.get("body"), dict):
            scan(f, f["body"])
        for i in f.get("inits") or ():
            if isinstance(i.get("init"), dict):
                scan(f, i["init"])
    roots = [f["usr"] for f in fns if not (f.get("unit") or "").startswith("util/")]
    live = set(roots)
    work = list(roots)
    while work:
        for x in edges.get(work.pop(), ()):
            if x not in live:
                live.add(x)
                work.append(x)
    unknown = set()
    skel = lexer_skeleton(c)
    for f, n in sites:
        if generated(f):
            continue
        parsing = f["usr"] in live
        c.count("calls of external functions")
        line = n.get("l")
        k = n["k"]
        name = n.get("qn") if k == "Call" else n.get("cls") if k == "Construct" else n.get("qn")
        if f["qn"] == "hsql_lex" and skel and id(n) in skel:
            continue
        if k == "Call" and name == "std::remove" and len(n.get("c", ())) > 1:
            c.ok("external calls")      # of <algorithm>, not of <cstdio>
            continue
        if k == "Construct":
            if FILECLASS.match(name or ""):
                c.violation("external|%s|%s" % (f["qn"], name), where(f, line), "%s is created: an effect outside the given objects" % name)
            else:
                c.ok("external calls")
            continue
        if k == "Ref":
            if name in ("stdout", "std::cout", "stdin", "std::cin", "environ") and parsing:
                if f["qn"] == "hsql_lex":
                    continue
                c.violation("external|%s|%s" % (f["qn"], name), where(f, line), "%s is used while parsing" % name)
            else:
                c.ok("external objects")
            continue
        short = name.rsplit("::", 1)[-1] if name.startswith("std::") and name.count("::") == 1 else name
        if name in STATEFUL or short in STATEFUL:
            c.violation("external|%s|%s" % (f["qn"], name), where(f, line), "%s keeps or reads state that outlives the call" % name)
        elif name in OUTSIDE or short in OUTSIDE:
            if short in ("printf", "puts", "putchar") and not parsing:
                c.ok("external calls")
                continue
            c.violation("external|%s|%s" % (f["qn"], name), where(f, line), "%s has an effect outside the given objects" % name)
        elif short in STREAMARG:
            i = STREAMARG[short]
            a = n["c"][i] if i < len(n["c"]) else {}
            refs = {x.get("qn") for x in allrefs(a)}
            if "stderr" in refs:
                c.ok("diagnostics on standard error")
            elif "stdout" in refs:
                if parsing:
                    c.violation("external|%s|stdout" % f["qn"], where(f, line), "%s writes to standard output while parsing" % name)
                else:
                    c.ok("external calls")
            else:
                c.undecide("%s in %s" % (name, f["qn"]), "the stream is not known")
        elif name in ALLOWED or short in ALLOWED or name.startswith(("std::", "__gnu_cxx::", "__builtin")):
            c.ok("external calls")
        else:
            if (name, f["qn"]) not in unknown:
                unknown.add((name, f["qn"]))
                c.undecide("%s in %s" % (name, f["qn"]), "an external function that is not in the lists")


def lexer_skeleton(c):
    """nodes of the scanner outside the reachable actions"""
    import lexing
    try:
        p, err = lexing.product(c)
        if p is None:
            return None
        acts = {act for act, cond in p.impl.effects}
        for ci, _ in p.seen_conds:
            acts.add(p.impl.eob + (ci - 1) // 2 + 1)
        keep = set()
        body = p.impl.body
        for a in acts:
            i = p.impl.labels.get(a)
            while i is not None and i < len(body):
                for s in body[i][1] if isinstance(body[i][1], list) else [body[i][1]]:
                    mark(s, keep)
                if ends(body[i][1]):
                    break
                i += 1
        allnodes = set()
        mark(p.impl.fn["body"], allnodes)
        return allnodes - keep
    except Exception:
        return None


def ends(s):
    l = s if isinstance(s, list) else [s]
    for x in l:
        if isinstance(x, dict) and x.get("k") in ("Break", "Return", "Goto", "Continue"):
            return True
        if isinstance(x, dict) and x.get("k") == "Block" and ends(x["c"]):
            return True
    return False


def mark(n, out):
    if isinstance(n, list):
        for x in n:
            mark(x, out)
    elif isinstance(n, dict):
        out.add(id(n))
        for _, _, x in kids(n):
            mark(x, out)


def allrefs(n):
    if n.get("k") == "Ref":
        yield n
    for _, _, x in kids(n):
        yield from allrefs(x)


def casts(c, uses):
    c.rule("No explicit cast that removes const is used to write to, or hand out for writing, what the caller passed in.")
    for f in c.p.prog.functions.values():
        if generated(f) or not isinstance(f.get("body"), dict):
            continue
        found = []

        def scan(n, stack):
            stack = stack + [n]
            if n["k"] == "Cast" and not n.get("impl") and isinstance(n.get("e"), dict):
                a, b = n["e"].get("t", ""), n.get("t", "")
                e = n["e"]
                while e.get("k") == "Cast" and e.get("impl"):
                    e = e["e"]
                a = e.get("t", a)
                if isptr(b) and isptr(a) and constp(a) and not constp(b):
                    found.append((stack, "ptr"))
                elif n.get("lv") and e.get("lv") and a.startswith("const ") and not b.startswith("const ") and not isptr(b):
                    found.append((stack, "lv"))
            for _, _, x in kids(n):
                scan(x, stack)
        scan(f["body"], [])
        for stack, mode in found:
            c.count("casts that remove const")
            uses.memo = {}
            us = uses.climb(f, stack, mode, ())
            bad = False
            for kind, g, line, what, path in us:
                if kind in ("write", "set", "clear") and what != "passed to free":
                    bad = True
                    c.violation("cast|%s" % f["qn"], where(f, stack[-1].get("l")), "const is removed from %s and it is written: %s" % (text(stack[-1]), what))
            if not bad:
                c.ok("casts")
    c.ok("functions without")


def text(n):
    r = [x.get("name") for x in allrefs(n)]
    return r[0] if r else "an argument"

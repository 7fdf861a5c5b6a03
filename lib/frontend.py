"""Effective source of /repo and its facts.

The build compiles the generated parser and lexer that belong to the grammar: the committed pair as long as the grammar
is the one of the pinned commit, otherwise the pair that src/parser/Makefile generates from it. `prepare` makes a
scratch copy of exactly that source and runs the fact extractor (../tool/facts.cpp) on every translation unit of it.
"""
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL_SRC = os.path.join(VERIF, "tool", "facts.cpp")
TOOL = os.path.join(VERIF, "build", "facts")
PINS = {
    "bison_parser.y": ("9aeb9256a5466408e2d977aabf07710017eb274a60e37e54d80f2fb963b208b0", ("bison_parser.cpp", "bison_parser.h")),
    "flex_lexer.l": ("f1540175e92cdc7fb6368803c8f3adadaedf78aa9b1288ff3dae5a32f0872524", ("flex_lexer.cpp", "flex_lexer.h")),
}


class AnalysisError(Exception):
    """The analysis cannot be carried out at all (the source does not parse, an anchor is gone)."""


def build_tool():
    key = hashlib.sha256(open(TOOL_SRC, "rb").read()).hexdigest()
    stamp = TOOL + ".key"
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    tmp = TOOL + ".tmp%d" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", TOOL_SRC, "-o", tmp, "-L/usr/lib/llvm-18/lib",
           "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the fact extractor: " + r.stderr[-2000:])
    os.rename(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(key)


def _sha(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


class Source:
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "src")
        self.generated = []

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def effective_source():
    root = tempfile.mkdtemp(prefix="verif-src-")
    s = Source(root)
    shutil.copytree(os.path.join(REPO, "src"), s.src, ignore=shutil.ignore_patterns("*.o", "*.so", "*.output", "conflict_test*"))
    pdir = os.path.join(s.src, "parser")
    for g, (pin, outs) in PINS.items():
        gp = os.path.join(pdir, g)
        if not os.path.exists(gp):
            s.close()
            raise AnalysisError("%s is missing" % g)
        if _sha(gp) != pin or any(not os.path.exists(os.path.join(pdir, o)) for o in outs):
            work = os.path.join(root, "gen-" + g)
            os.makedirs(work)
            for n in (g, "Makefile"):
                shutil.copy(os.path.join(pdir, n), work)
            r = subprocess.run(["make", "-C", work, outs[0]], capture_output=True, text=True)
            if r.returncode or any(not os.path.exists(os.path.join(work, o)) for o in outs):
                s.close()
                raise AnalysisError("cannot generate %s: %s" % (outs[0], (r.stdout + r.stderr)[-1500:]))
            for o in outs:
                shutil.copy(os.path.join(work, o), pdir)
            s.generated.append(g)
    return s


def _extract(args):
    root, f = args
    r = subprocess.run([TOOL, root, f, "--", "-std=c++17", "-I" + root, "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
                        "-Wno-everything"], capture_output=True, text=True)
    if r.returncode or not r.stdout:
        return f, None, r.stderr[-1500:]
    return f, json.loads(r.stdout), r.stderr[-1500:]


class Program:
    """All facts of the library, merged over its translation units."""

    def __init__(self):
        self.functions = {}   # usr -> function
        self.records = {}     # qualified name -> record
        self.enums = {}       # qualified name -> {const: value}
        self.enumconst = {}   # constant name -> (enum, value)
        self.vars = {}        # usr -> variable
        self.units = []
        self.subclasses = {}

    def add(self, unit, d, root):
        self.units.append(os.path.relpath(unit, root))
        for f in d["functions"]:
            if f.get("f", "").startswith(root):
                f["f"] = os.path.relpath(f["f"], root)
            f["unit"] = self.units[-1]
            key = f["usr"]
            if f.get("internal"):
                key = f["usr"]
            self.functions.setdefault(key, f)
        for r in d["records"]:
            if r.get("f", "").startswith(root):
                r["f"] = os.path.relpath(r["f"], root)
            self.records.setdefault(r["qn"], r)
        for e in d["enums"]:
            self.enums.setdefault(e["qn"], {})
            for n, v in e["consts"]:
                self.enums[e["qn"]][n] = int(v)
                self.enumconst.setdefault(n, (e["qn"], int(v)))
        for v in d["vars"]:
            if v.get("f", "").startswith(root):
                v["f"] = os.path.relpath(v["f"], root)
            v["unit"] = self.units[-1]
            k = v.get("gu") or v["name"]
            if k not in self.vars or (v.get("def") and "init" in v):
                self.vars[k] = v

    def finish(self):
        for q, r in self.records.items():
            for b in r["bases"]:
                self.subclasses.setdefault(b, set()).add(q)

    def isa(self, c, base):
        if c == base:
            return True
        r = self.records.get(c)
        return bool(r) and any(self.isa(b, base) for b in r["bases"])

    def all_fields(self, c):
        """Fields of a class including inherited ones, base first."""
        r = self.records.get(c)
        if not r:
            return []
        out = []
        for b in r["bases"]:
            out += self.all_fields(b)
        return out + r["fields"]

    def by_name(self, qn):
        return [f for f in self.functions.values() if f["qn"] == qn]

    def fn(self, qn, pred=None):
        c = [f for f in self.by_name(qn) if pred is None or pred(f)]
        return c[0] if c else None


def load(source, units=None):
    build_tool()
    root = source.src + "/"
    files = []
    for d, _, names in os.walk(source.src):
        for n in sorted(names):
            if n.endswith(".cpp"):
                p = os.path.join(d, n)
                rel = os.path.relpath(p, source.src)
                if units is None or rel in units:
                    files.append(p)
    files.sort()
    prog = Program()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f, d, err in ex.map(_extract, [(root, f) for f in files]):
            if d is None or d.get("errors"):
                raise AnalysisError("cannot analyse %s: %s" % (os.path.relpath(f, root), err))
            prog.add(f, d, root)
    prog.finish()
    if not prog.functions:
        raise AnalysisError("no functions found")
    return prog


def prepare(units=None):
    s = effective_source()
    try:
        prog = load(s, units)
        prog.generated = s.generated
        prog.text = {}
        xml = os.path.join(s.root, "grammar.xml")
        r = subprocess.run(["bison", "--xml=" + xml, "-o", os.path.join(s.root, "grammar.cpp"), "bison_parser.y"],
                           cwd=os.path.join(s.src, "parser"), capture_output=True, text=True)
        if r.returncode or not os.path.exists(xml):
            raise AnalysisError("cannot read the grammar: " + r.stderr[-1500:])
        prog.grammar_xml = open(xml, encoding="utf-8").read()
        for n in ("parser/bison_parser.y", "parser/flex_lexer.l"):
            prog.text[n] = open(os.path.join(s.src, n), encoding="utf-8", errors="replace").read()
        return prog
    finally:
        s.close()


if __name__ == "__main__":
    p = prepare()
    print(len(p.functions), len(p.records), len(p.enums), len(p.vars), p.units, p.generated)

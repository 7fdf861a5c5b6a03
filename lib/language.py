"""C23: the grammar accepts nothing outside the dialect.

The phrases of spec.py are read as a context free grammar D. Every production A : w of the real grammar has to be a
derivation A =>* w of D, nonterminals of the real grammar standing for those of D. Nonterminals that D does not have are
either replaced by all their alternatives (if they are not recursive) or identified with a nonterminal of D for which all
their productions are derivations (coinductively)."""
import itertools

from lr import Forms, Refused
from spec import FORMS
import grouping

EXTRA = [("input", ("statement_list",)), ("input", ("statement_list", "';'")), ("expr", ("negated",)), ("negated", ("NOT", "negated"))]
EXTRA += [("negated", tuple(f.form)) for f in FORMS if f.lhs == "expr" and f.form[:2] == ["NOT", "operand"] and f.form[2] in ("IN", "BETWEEN", "NOT")]


class Dialect:
    def __init__(self, g):
        self.prods = {}
        for f in FORMS:
            self.prods.setdefault(f.lhs, set()).add(tuple(f.form))
        for l, f in EXTRA:
            self.prods.setdefault(l, set()).add(f)
        # lists may be written with either recursion
        for l, fs in self.prods.items():
            for f in list(fs):
                if len(f) in (2, 3) and f[0] == l and l not in f[1:] and (len(f) == 2 or f[1] in ("','", "';'")) and (f[-1],) in fs:
                    fs.add(f[::-1])
                    fs.add((l,) + f[1:-1] + (l,))
        self.terms = set(g.terminals)
        ok = False
        while not ok:
            ok = True
            for l, fs in self.prods.items():
                for f in list(fs):
                    if any(s not in self.prods and s not in self.terms for s in f):
                        fs.discard(f)
        self.nullable = set()
        ch = True
        while ch:
            ch = False
            for l, fs in self.prods.items():
                if l not in self.nullable and any(all(s in self.nullable for s in f) for f in fs):
                    self.nullable.add(l)
                    ch = True
        self.cache = {}

    def chart(self, form):
        """for every span the symbols that derive it"""
        if form in self.cache:
            return self.cache[form]
        n = len(form)
        have = set(form)
        # productions whose terminals and nonterminals can occur at all
        live = dict.fromkeys(have | self.nullable, True)
        prods = [(l, f) for l, fs in self.prods.items() for f in fs]
        ch = True
        use = []
        left = prods
        while ch:
            ch = False
            rest = []
            for l, f in left:
                if all(s in live for s in f):
                    use.append((l, f))
                    if l not in live:
                        live[l] = True
                    ch = True
                else:
                    rest.append((l, f))
            left = rest
        ch = {}
        for i in range(n + 1):
            ch[i, i] = set(self.nullable)
        for ln in range(1, n + 1):
            for i in range(n - ln + 1):
                j = i + ln
                cell = {form[i]} if ln == 1 else set()
                ch[i, j] = cell
                grown = True
                while grown:
                    grown = False
                    for l, f in use:
                        if l in cell or not f:
                            continue
                        pos = {i}
                        for k, s in enumerate(f):
                            nxt = set()
                            for p in pos:
                                for m in range(p, j + 1):
                                    if s in ch.get((p, m), ()):
                                        nxt.add(m)
                            pos = nxt
                            if not pos:
                                break
                        if j in pos:
                            cell.add(l)
                            grown = True
        self.cache[form] = ch
        return ch

    def derives(self, l, form, depth=2):
        """does every phrase of the form belong to l"""
        form = tuple(form)
        if self.derives1(l, form):
            return True
        if depth:
            for k, s in enumerate(form):
                fs = self.prods.get(s, ())
                if fs and len(fs) <= 20 and not any(s in f for f in fs) and \
                        all(self.derives(l, form[:k] + f + form[k + 1:], depth - 1) for f in fs):
                    return True
        return False

    def derives1(self, l, form):
        if form == (l,) or form in self.prods.get(l, ()):
            return True
        if not form:
            return l in self.nullable
        if any(s not in self.prods and s not in self.terms for s in form):
            return False
        return l in self.chart(form)[0, len(form)]


class Inclusion:
    def __init__(self, g):
        self.g = g
        self.d = Dialect(g)
        self.own = {l for l in g.by_lhs if l != "$accept" and l not in self.d.prods}
        self.recursive = self.loops()
        self.same = {}
        for n in sorted(self.recursive):
            self.same[n] = None
        self.identify()

    def useful(self, l):
        return [r for r in self.g.by_lhs[l] if r.useful]

    def loops(self):
        """own nonterminals that reach themselves through own nonterminals only"""
        edge = {l: {s for r in self.useful(l) for s in r.rhs if s in self.own} for l in self.own}
        rec = set()
        for l in self.own:
            seen, todo = set(), list(edge[l])
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += edge[x]
            if l in seen:
                rec.add(l)
        return rec

    def identify(self):
        """recursive own nonterminals that are a nonterminal of the dialect under another name"""
        for n in sorted(self.recursive):
            for s in sorted(self.d.prods):
                trial = dict(self.same)
                trial[n] = s
                if all(self.included(s, r.rhs, trial) for r in self.useful(n)):
                    self.same[n] = s
                    break

    def forms(self, rhs, same, limit=400):
        """the sentential form with own nonterminals replaced; None where that is not possible"""
        alts = []
        for s in rhs:
            if s in self.own:
                if s in self.recursive:
                    if same.get(s) is None:
                        return None
                    alts.append([(same[s],)])
                else:
                    out = []
                    for r in self.useful(s):
                        fs = self.forms(r.rhs, same)
                        if fs is None:
                            return None
                        out += fs
                    alts.append(out)
            else:
                alts.append([(s,)])
        n = 1
        for a in alts:
            n *= len(a)
        if n > limit:
            return None
        return [tuple(x for part in combo for x in part) for combo in itertools.product(*alts)]

    def included(self, l, rhs, same):
        fs = self.forms(rhs, same)
        return fs is not None and all(self.d.derives(l, f) for f in fs)


def c23(c):
    c.rule("The phrases of the dialect are read as a grammar; every production of the parser's grammar has to be a derivation of it (nonterminals the "
           "dialect does not name are replaced by their alternatives, or identified with one of the dialect), so that the parser's grammar derives no "
           "text the dialect does not. Two comparisons of the same strength in a row are refused by the automaton in every state. What actions have to "
           "refuse is decided by C19, what the lexer has to refuse by C09. The entry points mark the result invalid unless the parser accepts.")
    import entry
    import lexing
    import outcome
    import result
    lexing.whole_text(c, entry.PARSE)
    outcome.entry_points(c, ("valid0",))
    result.operations(c, ("value",), ("setIsValid", "accessors", "construction", "reset"), ("isValid",))
    g = c.p.grammar
    inc = Inclusion(g)
    for r in g.rules:
        if not r.num or not r.useful or r.lhs == "$accept":
            continue
        if r.lhs in inc.own:
            if r.lhs in inc.recursive and inc.same.get(r.lhs) is None:
                c.undecide(str(r), "the dialect has no counterpart of %s" % r.lhs)
            else:
                c.count("auxiliary productions")
            continue
        fs = inc.forms(r.rhs, inc.same)
        if fs is None:
            c.undecide(str(r), "its parts have no counterpart in the dialect")
            continue
        bad = [f for f in fs if not inc.d.derives(r.lhs, f)]
        for f in bad[:3]:
            c.violation("phrase|%s|%s" % (r.lhs, " ".join(f)), "src/parser/bison_parser.y (%s)" % r,
                        "`%s` is accepted as %s, which the dialect does not have" % (" ".join(f).replace("'", "") or "nothing", r.lhs))
        if not bad:
            c.ok("productions")
            c.count("sentential forms", len(fs))
            if r.num % 40 == 1:
                c.sample({"production": str(r), "forms": len(fs)})
    c.need(c.counts.get("sentential forms", 0) > 0 or c.viol, "productions of the dialect")
    chains(c)


def chains(c):
    """comparisons of one level do not chain"""
    g = c.p.grammar
    F = Forms(g)
    X = grouping.X
    states = 0
    operandlike = {n for n in g.by_lhs if "INTVAL" in g.first[n] and X in g.first[n]}
    bad = {}
    for level in ("equality and LIKE", "ordering"):
        ops = [o for o in dict(grouping.LEVELS)[level] if len(o) == 1]
        for i in range(len(g.states)):
            try:
                base = F.shift_term([(i, None)], X, "x")
            except Refused:
                continue
            for a in ops:
                try:
                    st = base
                    st = F.shift_term(st, a[0], "A")
                    below = st[-2][1] if len(st) > 1 else None
                    if not isinstance(below, tuple) or below[0].lhs not in operandlike:
                        continue
                    st = F.shift_term(st, X, "y")
                except Refused:
                    continue
                states += 1
                for b in ops:
                    try:
                        e = st
                        for t in b:
                            e = F.shift_term(e, t, "B")
                        F.shift_term(e, X, "z")
                    except Refused:
                        continue
                    # still the same expression, or did the phrase around it end?
                    if not any(v in ("A", "y") or isinstance(v, tuple) and v[0].lhs in ("operand", "expr") for _, v in e[:-1]):
                        continue
                    bad.setdefault((" ".join(a), " ".join(b)), []).append(i)
    c.need(states, "states that expect a comparison")
    for (a, b), ss in sorted(bad.items()):
        c.violation("chain|%s|%s" % (a, b), "src/parser/bison_parser.y (automaton state %d)" % ss[0],
                    "`x %s y %s z` is accepted without parentheses" % (a.replace("'", ""), b.replace("'", "")), "in %d states" % len(ss))
    if not bad:
        c.ok("comparisons do not chain")
    c.count("states with a comparison", states)

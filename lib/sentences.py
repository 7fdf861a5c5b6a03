"""Token sentences around a phrase: read by the automaton, and by the dialect as a context free grammar (C20)."""
import heapq

from language import Dialect
from lr import Refused

OPEN = ("operand", "expr", "table_ref_atomic", "negated")


def yields(prods, terms):
    """the shortest token sequence of every nonterminal"""
    best = {}
    changed = True
    while changed:
        changed = False
        for l, fs in prods.items():
            for f in fs:
                if all(s in best or s in terms for s in f):
                    y = tuple(t for s in f for t in (best[s] if s in best else (s,)))
                    if l not in best or (len(y), y) < (len(best[l]), best[l]):
                        best[l] = y
                        changed = True
    return best


class Earley:
    def __init__(self, prods):
        self.prods = prods
        self.nullable = set()
        ch = True
        while ch:
            ch = False
            for l, fs in prods.items():
                if l not in self.nullable and any(all(s in self.nullable for s in f) for f in fs):
                    self.nullable.add(l)
                    ch = True

    def accepts(self, start, toks):
        sets = [dict() for _ in range(len(toks) + 1)]

        def add(i, item):
            if item not in sets[i]:
                sets[i][item] = True
                work.append(item)

        for i in range(len(toks) + 1):
            work = list(sets[i])
            if i == 0:
                for f in self.prods[start]:
                    add(0, (start, f, 0, 0))
            while work:
                l, f, d, o = work.pop()
                if d == len(f):
                    for (l2, f2, d2, o2) in list(sets[o]):
                        if d2 < len(f2) and f2[d2] == l:
                            add(i, (l2, f2, d2 + 1, o2))
                    continue
                s = f[d]
                if s in self.prods:
                    for g in self.prods[s]:
                        add(i, (s, g, 0, i))
                    if s in self.nullable:
                        add(i, (l, f, d + 1, o))
                elif i < len(toks) and toks[i] == s:
                    sets[i + 1][(l, f, d + 1, o)] = True
        return any(l == start and d == len(f) and o == 0 for (l, f, d, o) in sets[len(toks)])


class Sentences:
    def __init__(self, g, forms):
        self.g, self.lr = g, forms
        self.d = Dialect(g)
        self.dmin = yields(self.d.prods, self.d.terms)
        own = {}
        for r in g.rules:
            if r.num and r.useful:
                own.setdefault(r.lhs, []).append(tuple(r.rhs))
        self.gmin = yields(own, set(g.terminals))
        self.earley = Earley(self.d.prods)
        self.paths = self.prefixes()
        self.known = {}

    def prefixes(self):
        """the shortest token sequence, as a path of states, that leads to every state"""
        best = {0: ((), (0,))}
        todo = [(0, 0)]
        while todo:
            n, s = heapq.heappop(todo)
            y, path = best[s]
            if n > len(y):
                continue
            st = self.g.states[s]
            for sym, t in list(st["shift"].items()) + list(st["goto"].items()):
                w = (sym,) if self.g.is_term(sym) else self.gmin.get(sym)
                if w is None or sym == "$end":
                    continue
                if t not in best or len(y) + len(w) < len(best[t][0]):
                    best[t] = (y + w, path + (t,))
                    heapq.heappush(todo, (len(y) + len(w), t))
        return best

    def run(self, stack, toks):
        for t in toks:
            stack = self.lr.shift_term(stack, t, None)
        return stack

    def accepted(self, toks):
        try:
            st = self.run([(0, None)], toks)
            return self.finishes(st)
        except Refused:
            return False

    def finishes(self, stack):
        for _ in range(200):
            a = self.lr.act(stack[-1][0], "$end")
            if a is None:
                return False
            if a[0] == "s" or a[1] == 0:
                return True
            stack = self.lr.reduce(stack, a[1])
        return False

    def suffix(self, state, lhs):
        """the shortest token sequence that completes a text after a phrase in this state"""
        go = self.g.states[state]["goto"][lhs]
        start = tuple((s, None) for s in self.paths[state][1] + (go,))
        todo, seen, n = [(0, 0, start, ())], set(), 0
        while todo and n < 4000:
            _, _, st, y = heapq.heappop(todo)
            key = tuple(x[0] for x in st)
            if key in seen:
                continue
            seen.add(key)
            if self.finishes(list(st)):
                return y
            for t in sorted(self.g.terminals):
                if t == "$end" or self.lr.act(st[-1][0], t) is None:
                    continue
                try:
                    nx = self.lr.shift_term(list(st), t, None)
                except Refused:
                    continue
                n += 1
                heapq.heappush(todo, (len(y) + 1, n, tuple(nx), y + (t,)))
        return None

    def variants(self, form, parts):
        """token sequences of a phrase: the shortest one, and one that is longer in every list"""
        out = [tuple(t for s in form for t in self.dmin.get(s, (s,)))]
        longer = []
        for s in form:
            w = self.dmin.get(s, (s,))
            for f in sorted(self.d.prods.get(s, ())):
                if len(f) == 3 and f[0] == s and f[1] == "','":
                    w = w + ("','",) + tuple(t for x in f[2:] for t in self.dmin.get(x, (x,)))
                    break
            longer += w
        if tuple(longer) not in out:
            out.append(tuple(longer))
        # every part in each of its own forms (no operators at its edges: precedence may close the operand before it)
        for k, s in enumerate(form if parts else ()):
            for f in self.atoms(s, 4):
                w = tuple(t for x in list(form[:k]) + list(f) + list(form[k + 1:]) for t in self.dmin.get(x, (x,)))
                if w not in out:
                    out.append(w)
        return [x for x in out if all(t in self.g.terminals for t in x)]

    def atoms(self, s, depth):
        out = []
        for f in sorted(self.d.prods.get(s, ())):
            if s in f or f and (f[0] in OPEN or f[-1] in OPEN) and len(f) > 1:
                continue
            if len(f) == 1 and f[0] in self.d.prods and depth:
                out += self.atoms(f[0], depth - 1)
            else:
                out.append(f)
        return out

    def refused(self, lhs, form, states):
        """a text of the dialect with the phrase that the automaton refuses: (text or None, number of texts tried)"""
        n = 0
        tried = 0
        for s in states:
            if s not in self.paths:
                continue
            k = (s, lhs)
            if k not in self.known:
                self.known[k] = self.suffix(s, lhs)
            post = self.known[k]
            if post is None:
                continue
            tried += 1
            for mid in self.variants(form, tried <= 4):
                text = self.paths[s][0] + mid + post
                n += 1
                if not self.accepted(text) and self.earley.accepts("input", text):
                    return text, n
        return None, n

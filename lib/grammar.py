"""The grammar and its LR automaton, read from bison's XML report."""
import xml.etree.ElementTree as ET


class Rule:
    __slots__ = ("num", "lhs", "rhs", "useful", "prec")

    def __init__(self, num, lhs, rhs, useful, prec):
        self.num, self.lhs, self.rhs, self.useful, self.prec = num, lhs, rhs, useful, prec

    def __repr__(self):
        return "%s : %s" % (self.lhs, " ".join(self.rhs) or "/* empty */")


class Grammar:
    def __init__(self, xml):
        root = ET.fromstring(xml)
        g = root.find("grammar")
        self.rules = []
        for r in g.find("rules"):
            rhs = [s.text for s in r.find("rhs") if s.tag == "symbol"]
            self.rules.append(Rule(int(r.get("number")), r.find("lhs").text, rhs, r.get("usefulness") == "useful", r.get("percent_prec")))
        self.terminals, self.nonterminals = {}, {}
        for t in g.find("terminals"):
            self.terminals[t.get("name")] = {"num": int(t.get("symbol-number")), "tok": int(t.get("token-number")), "type": t.get("type") or "",
                                             "prec": int(t.get("prec")) if t.get("prec") else None, "assoc": t.get("assoc")}
        for t in g.find("nonterminals"):
            self.nonterminals[t.get("name")] = {"num": int(t.get("symbol-number")), "type": t.get("type") or ""}
        self.by_lhs = {}
        for r in self.rules:
            self.by_lhs.setdefault(r.lhs, []).append(r)
        self.states = []
        for s in root.find("automaton"):
            st = {"items": [], "shift": {}, "goto": {}, "reduce": {}, "default": None, "errors": set(), "solved": []}
            for it in s.find("itemset"):
                st["items"].append((int(it.get("rule-number")), int(it.get("dot"))))
            a = s.find("actions")
            for tr in a.find("transitions"):
                st["shift" if tr.get("type") == "shift" else "goto"][tr.get("symbol")] = int(tr.get("state"))
            for e in a.find("errors"):
                st["errors"].add(e.get("symbol"))
            for r in a.find("reductions"):
                if r.get("enabled") == "false":
                    continue
                n = 0 if r.get("rule") == "accept" else int(r.get("rule"))
                if r.get("symbol") == "$default":
                    st["default"] = n
                else:
                    st["reduce"][r.get("symbol")] = n
            sc = s.find("solved-conflicts")
            if sc is not None:
                for x in sc:
                    st["solved"].append((int(x.get("rule")), x.get("symbol"), x.get("type")))
            self.states.append(st)
        self._nullable()
        self._first()

    def is_term(self, s):
        return s in self.terminals

    def type(self, s):
        d = self.terminals.get(s) or self.nonterminals.get(s)
        return d["type"] if d else ""

    def symnum(self, s):
        d = self.terminals.get(s) or self.nonterminals.get(s)
        return d["num"]

    def _nullable(self):
        n = set()
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                if r.lhs not in n and all(s in n for s in r.rhs):
                    n.add(r.lhs)
                    ch = True
        self.nullable = n

    def _first(self):
        f = {t: {t} for t in self.terminals}
        for r in self.rules:
            f.setdefault(r.lhs, set())
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                for s in r.rhs:
                    before = len(f[r.lhs])
                    f[r.lhs] |= f.get(s, set())
                    if len(f[r.lhs]) != before:
                        ch = True
                    if s not in self.nullable:
                        break
        self.first = f

    def contains(self, target):
        """nonterminals that can derive a phrase with `target` in it"""
        c = {target}
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                if r.lhs not in c and any(s in c for s in r.rhs):
                    c.add(r.lhs)
                    ch = True
        return c

    def derivations(self, lhs, form, limit=6):
        """Derivation trees of the sentential form `form` from `lhs`, using at least one production; the symbols of the form
        are leaves. Smallest trees first. A tree is (rule, [child]) with child an int (position in the form) or a tree."""
        n = len(form)
        memo = {}
        active = set()

        def sym(s, i, j, depth):
            """trees of symbol s over form[i:j], leaves allowed"""
            out = []
            if j == i + 1 and form[i] == s:
                out.append((0, i))
            if s in self.by_lhs:
                out += prods(s, i, j, depth)
            return out

        def prods(s, i, j, depth):
            key = (s, i, j)
            if key in memo:
                return memo[key]
            if key in active or depth > 40:
                return []
            active.add(key)
            out = []
            for r in self.by_lhs.get(s, ()):
                if not self.fits(r.rhs, form, i, j):
                    continue
                for cost, kids in seq(r.rhs, 0, i, j, depth + 1):
                    out.append((cost + 1, (r, kids)))
            active.discard(key)
            out.sort(key=lambda x: x[0])
            out = out[:limit]
            if not active:
                memo[key] = out
            return out

        def seq(rhs, k, i, j, depth):
            if k == len(rhs):
                return [(0, [])] if i == j else []
            out = []
            s = rhs[k]
            rest_min = sum(1 for x in rhs[k + 1:] if x not in self.nullable)
            lo = i if s in self.nullable else i + 1
            for m in range(lo, j - rest_min + 1):
                if s in self.terminals and m != i + 1:
                    continue
                heads = sym(s, i, m, depth)
                if not heads:
                    continue
                tails = seq(rhs, k + 1, m, j, depth)
                for c1, t1 in heads:
                    for c2, t2 in tails:
                        out.append((c1 + c2, [t1] + t2))
            out.sort(key=lambda x: x[0])
            return out[:limit]

        return [t for _, t in prods(lhs, 0, n, 0)]

    def fits(self, rhs, form, i, j):
        # cheap filter: terminals of the rule must occur in the span
        span = form[i:j]
        return all(s in span for s in rhs if s in self.terminals)

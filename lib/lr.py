"""Runs the LALR automaton on sentential forms.

`Forms.parse(state, lhs, form)` feeds the symbols of a phrase to the tables, starting in a state that expects `lhs`;
nonterminals in the form stand for any phrase of theirs. The result is the derivation tree the real parser builds for
such a phrase, or the reason why the tables refuse it."""


class Refused(Exception):
    pass


class Forms:
    def __init__(self, grammar):
        self.g = grammar
        self.access = {0: "$start"}
        for s in grammar.states:
            for sym, t in list(s["shift"].items()) + list(s["goto"].items()):
                self.access[t] = sym
        self.contexts = {}
        for i, s in enumerate(grammar.states):
            for n in s["goto"]:
                self.contexts.setdefault(n, []).append(i)

    def act(self, state, t):
        s = self.g.states[state]
        if t in s["errors"]:
            return None
        if t in s["shift"]:
            return ("s", s["shift"][t])
        if t in s["reduce"]:
            return ("r", s["reduce"][t])
        if s["default"] is not None:
            return ("r", s["default"])
        return None

    def reduce(self, stack, num):
        r = self.g.rules[num]
        n = len(r.rhs)
        if len(stack) - 1 < n:
            raise Refused("the text before the phrase is reduced first")
        kids = [x[1] for x in stack[len(stack) - n:]] if n else []
        st = stack[:len(stack) - n]
        top = st[-1][0]
        go = self.g.states[top]["goto"].get(r.lhs)
        if go is None:
            raise Refused("no place for %s" % r.lhs)
        return st + [(go, (r, kids))]

    def shift_term(self, stack, t, leaf):
        for _ in range(200):
            a = self.act(stack[-1][0], t)
            if a is None:
                raise Refused("%s is not accepted after %s" % (t, self.access.get(stack[-1][0])))
            if a[0] == "s":
                return stack + [(a[1], leaf)]
            if a[1] == 0:
                raise Refused("end")
            stack = self.reduce(stack, a[1])
        raise Refused("no progress")

    def shift_nonterm(self, stack, n, leaf):
        go = self.g.states[stack[-1][0]]["goto"].get(n)
        if go is not None:
            return stack + [(go, leaf)]
        res = {}
        err = None
        for t in sorted(self.g.first[n]):
            st = stack
            try:
                for _ in range(200):
                    go = self.g.states[st[-1][0]]["goto"].get(n)
                    if go is not None:
                        res[tuple(x[0] for x in st)] = st + [(go, leaf)]
                        break
                    a = self.act(st[-1][0], t)
                    if a is None or a[0] == "s" or a[1] == 0:
                        raise Refused("%s (starting with %s) is not accepted after %s" % (n, t, self.access.get(st[-1][0])))
                    st = self.reduce(st, a[1])
            except Refused as x:
                err = x
        if len(res) != 1:
            raise err or Refused("no place for %s" % n)
        return next(iter(res.values()))

    def parse(self, state, lhs, form):
        """list of distinct (tree, lookahead) the phrase can be read as"""
        stack = [(state, None)]
        for i, s in enumerate(form):
            if self.g.is_term(s):
                stack = self.shift_term(stack, s, i)
            elif s in self.g.by_lhs:
                stack = self.shift_nonterm(stack, s, i)
            else:
                raise Refused("unknown symbol " + s)
        out, err = [], None
        for t in self.g.terminals:
            st = stack
            try:
                for _ in range(200):
                    if len(st) == 2 and not isinstance(st[1][1], int) and st[1][1][0].lhs == lhs:
                        if not any(same(st[1][1], x) for x, _ in out):
                            out.append((st[1][1], t))
                        break
                    a = self.act(st[-1][0], t)
                    if a is None:
                        raise Refused("%s is not accepted after the phrase" % t)
                    if a[0] == "s" or a[1] == 0:
                        raise Refused("the phrase goes on with %s" % t)
                    st = self.reduce(st, a[1])
            except Refused as x:
                err = x
        if not out:
            raise err or Refused("not a %s" % lhs)
        return out


def same(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return a == b
    return a[0].num == b[0].num and len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))


def rules_of(t, out=None):
    out = set() if out is None else out
    if not isinstance(t, int):
        out.add(t[0].num)
        for k in t[1]:
            rules_of(k, out)
    return out

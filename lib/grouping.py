"""C08: what the automaton does with two operators in a row, in every state, against the dialect's precedence.

For every state that can be followed by `x A y` (x, y operands, A an operator whose left operand starts there), and
every operator B, the tables are followed up to the point where B is shifted: A groups first if its phrase has been
reduced by then, B groups first if the token of A is still unreduced below it."""
from lr import Forms, Refused

X = "IDENTIFIER"
LEVELS = [
    ("OR", [["OR"]]),
    ("AND", [["AND"]]),
    ("NOT", []),
    ("IN and BETWEEN", []),
    ("equality and LIKE", [["'='"], ["EQUALS"], ["NOTEQUALS"], ["LIKE"], ["NOT", "LIKE"], ["ILIKE"]]),
    ("ordering", [["'<'"], ["'>'"], ["LESSEQ"], ["GREATEREQ"]]),
    ("IS NULL", []),
    ("additive", [["'+'"], ["'-'"]]),
    ("multiplicative", [["'*'"], ["'/'"], ["'%'"]]),
    ("power", [["'^'"]]),
    ("concatenation", [["CONCAT"]]),
    ("minus sign", []),
    ("subscript", []),
]
LEFT = ("OR", "AND", "additive", "multiplicative", "power", "concatenation")
RANK = {n: i for i, (n, _) in enumerate(LEVELS)}


def operators():
    """(text, level, kind, tokens up to the next operand)"""
    out = []
    for n, ops in LEVELS:
        for o in ops:
            out.append((" ".join(o), n, "binary", o))
    out.append(("NOT", "NOT", "prefix", ["NOT"]))
    out.append(("- (sign)", "minus sign", "prefix", ["'-'"]))
    out.append(("BETWEEN", "IN and BETWEEN", "between", ["BETWEEN", X, "AND"]))
    out.append(("IS NULL", "IS NULL", "postfix", ["IS"]))
    out.append(("ISNULL", "IS NULL", "postfix", ["ISNULL"]))
    out.append(("[]", "subscript", "postfix", ["'['"]))
    out.append(("IN", "IN and BETWEEN", "postfix", ["IN"]))
    out.append(("NOT IN", "IN and BETWEEN", "postfix", ["NOT", "IN"]))
    return out


def expected(a, b):
    """'A', 'B' or None (not laid down)"""
    la, lb = a[1], b[1]
    if la == "minus sign" and lb in ("multiplicative", "power", "concatenation"):
        return None
    if la == lb:
        return "A" if la in LEFT else None
    return "A" if RANK[la] > RANK[lb] else "B"


def marked(x, mark):
    return x == mark


def c08(c):
    c.rule("In every state of the generated automaton in which an operand followed by operator A, an operand and operator B can be read, the tables "
           "group the operator that binds stronger first, or the left one of two of the same left-associative level. Parentheses and every operator's own phrase are evaluated through the grammar actions: the operands "
           "become the operands of the node in written order and nothing is regrouped.")
    g = c.p.grammar
    F = Forms(g)
    ops = operators()
    for o in ops:
        for t in o[3]:
            if t not in g.terminals:
                c.undecide("operator " + o[0], "no token " + t)
                return
    lefts = [o for o in ops if o[2] in ("binary", "prefix", "between")]
    rights = [o for o in ops if o[2] != "prefix"]
    operandlike = {n for n in g.by_lhs if "INTVAL" in g.first[n] and X in g.first[n]}
    contexts = 0
    judged = 0
    seen = {}
    for i, s in enumerate(g.states):
        try:
            base = F.shift_term([(i, None)], X, "x")
        except Refused:
            continue
        usable = False
        stacks = {}
        for o in lefts:
            if o[2] == "prefix":
                continue
            try:
                st = F.shift_term(base, o[3][0], "A")
            except Refused:
                continue
            below = st[-2][1] if len(st) > 1 else None
            if not isinstance(below, tuple) or below[0].lhs not in operandlike:
                continue
            try:
                for t in o[3][1:]:
                    st = F.shift_term(st, t, "A")
                stacks[o[0]] = F.shift_term(st, X, "y")
            except Refused:
                continue
            usable = True
        if not usable:
            continue
        contexts += 1
        for o in lefts:
            if o[2] == "prefix":
                try:
                    stacks[o[0]] = F.shift_term(F.shift_term([(i, None)], o[3][0], "A"), X, "y")
                except Refused:
                    pass
        for a in lefts:
            st = stacks.get(a[0])
            if st is None:
                continue
            for b in rights:
                try:
                    e = st
                    for t in b[3][:2] if b[0] in ("NOT IN", "NOT LIKE") else b[3][:1]:
                        e = F.shift_term(e, t, "B")
                except Refused as x:
                    if "is reduced first" in str(x):
                        continue
                    got = "refused"
                else:
                    got = "B" if any(v == "A" for _, v in e) else "A"
                want = expected(a, b)
                c.count("decisions")
                if want is None:
                    continue
                seen.setdefault((a[0], b[0]), {}).setdefault(got, []).append(i)
                judged += 1
    c.need(contexts >= 1, "states that expect an expression")
    byname = {o[0]: o for o in ops}
    for (an, bn), gots in sorted(seen.items()):
        a, b = byname[an], byname[bn]
        want = expected(a, b)
        bad = {k: v for k, v in gots.items() if k != want}
        core = a[2] == b[2] == "binary"
        for k, states in sorted(bad.items()):
            if k == "refused" and (not core or len(gots) > 1):
                c.count("pairs not accepted")
                continue
            x, y = text(a, b)
            msg = "`%s` %s instead of `%s`" % (plain(a, b), "is not accepted" if k == "refused" else "is grouped as `%s`" % (x if k == "A" else y), x if want == "A" else y)
            c.violation("group|%s|%s|%s" % (an, bn, k), "src/parser/bison_parser.y (automaton state %s)" % near(F, states[0]), msg,
                        "in %d of %d states, first after %s" % (len(states), sum(len(v) for v in gots.values()), F.access.get(states[0])))
        if not bad:
            c.ok("operator pairs")
            c.sample({"pair": plain(a, b), "grouping": text(a, b)[0 if want == "A" else 1], "states": sum(len(v) for v in gots.values())})
    c.count("states that expect an expression", contexts)
    from represent import represent
    represent(c, "C08", ("value",))
    c.count("decisions judged", judged)


def near(F, i):
    return i


def sym(o):
    return {"BETWEEN": "BETWEEN b AND"}.get(o[0], o[0].replace("'", "").replace(" (sign)", ""))


def tail(b, l):
    return {"[]": "[i]", "IN": "IN (..)", "NOT IN": "NOT IN (..)", "BETWEEN": "BETWEEN %s AND .." % l}.get(b[0], sym(b) + (" " + l if b[2] == "binary" else ""))


def plain(a, b):
    return ("%s x" % sym(a) if a[2] == "prefix" else "x %s y" % sym(a)) + " " + tail(b, "z")


def text(a, b):
    t = tail(b, "z")
    if a[2] == "prefix":
        return "(%s x) %s" % (sym(a), t), "%s (x %s)" % (sym(a), t)
    return "(x %s y) %s" % (sym(a), t), "x %s (y %s)" % (sym(a), t)

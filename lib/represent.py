"""C04-C07, C10, C19, C20: phrases of the dialect against the automaton and the grammar actions."""
from absint import Infeasible, Unsupported
from lr import Forms, Refused, rules_of
from sentences import Sentences
from memory import place, tracetext
from spec import FORMS
from terms import Matcher, Mismatch, Reject, Unknown

OPERATORS = {"OR", "AND", "NOT", "'='", "EQUALS", "NOTEQUALS", "LIKE", "ILIKE", "'<'", "'>'", "LESSEQ", "GREATEREQ", "ISNULL", "IS", "'+'", "'-'",
             "'*'", "'/'", "'%'", "'^'", "CONCAT", "'['", "IN", "BETWEEN", "JOIN", "NATURAL"}


def recursive(f):
    return f.form and (f.form[0] in ("operand", "expr", "table_ref_atomic") or f.form[-1] in ("operand", "expr", "table_ref_atomic"))


class Phrases:
    """what the automaton makes of every phrase (computed once per run)"""

    def __init__(self, program):
        self.g = program.grammar
        self.lr = Forms(self.g)
        self.res = []
        n = {}
        for f in FORMS:
            n[f.lhs] = n.get(f.lhs, 0) + 1
        # a symbol that stands for another one throughout may be left out of the grammar
        self.same = {f.lhs: f.form[0] for f in FORMS if n[f.lhs] == 1 and len(f.form) == 1 and f.exp == "$1" and f.lhs not in self.g.by_lhs}
        for f in FORMS:
            self.res.append((f,) + self.read(f))

    def read(self, f):
        """(trees, refused contexts, contexts, problem)"""
        if f.lhs in self.same:
            return [], [], 0, "inlined"
        form = [self.same.get(s, s) for s in f.form]
        unknown = [s for s in [f.lhs] + form if not self.g.is_term(s) and s not in self.g.by_lhs]
        if unknown:
            return [], [], 0, "the grammar has no symbol %s" % ", ".join(sorted(set(unknown)))
        trees, refused, n = [], [], 0
        for s in self.lr.contexts.get(f.lhs, ()):
            acc = self.lr.access[s]
            n += 1
            try:
                got = self.lr.parse(s, f.lhs, form)
            except Refused as x:
                if acc in OPERATORS and recursive(f):
                    continue
                refused.append((s, acc, str(x)))
                continue
            for t, look in got:
                from lr import same
                if not any(same(t, x) for x in trees):
                    trees.append(t)
        if not trees and not refused:
            refused.append((0, "?", "no context accepts it"))
        return trees, refused, n, None


def phrases(c):
    if not hasattr(c.p, "_phrases"):
        c.p._phrases = Phrases(c.p)
    return c.p._phrases


def has_reject(e):
    if isinstance(e, Reject):
        return True
    return any(has_reject(x) for x in (getattr(e, "a", None), getattr(e, "b", None)) if x is not None) if type(e).__name__ == "If" else False


def outcomes(c, f, tree):
    key = (str(f), id(tree))
    cache = c.p.__dict__.setdefault("_outs", {})
    if key not in cache:
        a = c.p.acts
        a.faults = []
        a.reasons()
        try:
            st = a.start()
            form = [phrases(c).same.get(s, s) for s in f.form]
            vals = [a.token(st, s, "$%d" % (i + 1)) for i, s in enumerate(form)]
            outs = a.tree(tree, vals, form, st)
            cache[key] = (outs, vals, a.reasons() or None)
        except Unsupported as x:
            cache[key] = ([], [], str(x))
        except Infeasible as x:
            cache[key] = ([], [], "no values: " + str(x))
    return cache[key]


def rejected(o):
    """(is the text refused, was an error recorded)"""
    said = any(x[0] == "yyerror" for x in o.st.out)
    return o.ctl in ("error", "abort") or said, said


class NoText(Exception):
    pass


def compared(x, out):
    """string subjects of the comparisons in a term, with the constants they are compared to"""
    if isinstance(x, tuple) and x:
        if x[0] == "scmp":
            out.setdefault(x[1], set()).add(x[2])
        elif x[0] == "app" and x[1] in ("strncasecmp", "strncmp", "strcasecmp", "strcmp") and len(x) > 3:
            for s, w in ((x[2], x[3]), (x[3], x[2])):
                if isinstance(w, tuple) and w[0] == "str":
                    out.setdefault(s, set()).add(w[1])
                    if len(x) > 4 and isinstance(x[4], int):
                        out[s].add(w[1][:x[4]])
        elif x[0] == "app" and x[1] == "strlen":
            out.setdefault(x[2], set())
        elif x[0] == "app" and x[1] == "char":
            out.setdefault(x[2], set())
        for y in x[1:]:
            compared(y, out)


def textual(x, subj, text):
    """the value of a term when the subject is this text"""
    if isinstance(x, int):
        return x
    if not isinstance(x, tuple):
        raise NoText()
    if x[0] == "scmp" and x[1] == subj:
        a, b = (text.lower(), x[2].lower()) if x[3] else (text, x[2])
        return (a > b) - (a < b)
    if x[0] == "app":
        if x[1] in ("strncasecmp", "strncmp", "strcasecmp", "strcmp"):
            a, b = (text if y == subj else y[1] if isinstance(y, tuple) and y[0] == "str" else None for y in x[2:4])
            if a is None or b is None:
                raise NoText()
            if "case" in x[1]:
                a, b = a.lower(), b.lower()
            if "strn" in x[1]:
                n = textual(x[4], subj, text)
                if n < 0:
                    raise NoText()
                a, b = a[:n], b[:n]
            return (a > b) - (a < b)
        if x[1] == "strlen" and x[2] == subj:
            return len(text)
        if x[1] == "char" and x[2] == subj and isinstance(x[3], int) and x[3] <= len(text):
            return ord((text + "\0")[x[3]])
        if x[1] in ("tolower", "toupper"):
            return ord(getattr(chr(textual(x[2], subj, text)), x[1][2:])())
        if x[1] in ("IntegralCast", "cast"):
            return textual(x[-1], subj, text)
        if x[1] in ("+", "-", "*") and len(x) == 4:
            a, b = textual(x[2], subj, text), textual(x[3], subj, text)
            return a + b if x[1] == "+" else a - b if x[1] == "-" else a * b
    if x[0] == "lin":
        return textual(x[1], subj, text) + x[2]
    raise NoText()


def settled(t, subj, text):
    """does this fact of a path hold for the text? None: it is not about it"""
    if t[0] in ("null", "nonnull", "class"):
        return None
    got = {}
    compared(t, got)
    if subj not in got:
        return None
    if t[0] in ("==", "!="):
        return (textual(t[1], subj, text) == textual(t[2], subj, text)) == (t[0] == "==")
    if t[0] in ("in", "out"):
        return (textual(t[1], subj, text) in t[2]) == (t[0] == "in")
    raise NoText()


def witnesses(f, o):
    """texts for the string a path depends on, for which the path is taken: (subject, text)"""
    facts = {}
    for t in o.st.trace:
        compared(t, facts)
    words = {p.word for p in eqs(f.exp)}
    for subj, ws in sorted(facts.items(), key=str):
        ws = sorted(ws | words)
        cands = []
        for w in ws:
            cands += [w.lower(), w.upper(), w.capitalize(), w.lower() + "x", w.upper() + "s", w.lower()[:-1], "x" + w.lower(), w.lower()[:1], w.lower()[:2], w.lower()[1:]]
        cands += ["x", "zzzzzzzzzzzz"]
        for text in dict.fromkeys(x for x in cands if x):
            try:
                if all(settled(t, subj, text) is not False for t in o.st.trace):
                    yield subj, text
            except (NoText, TypeError):
                break


def eqs(e):
    if type(e).__name__ == "If":
        yield from eqp(e.p)
        yield from eqs(e.a)
        yield from eqs(e.b)


def eqp(p):
    if type(p).__name__ == "Eq":
        yield p
    elif type(p).__name__ == "Not":
        yield from eqp(p.p)
    elif type(p).__name__ in ("And", "Or"):
        for x in p.ps:
            yield from eqp(x)


def judge(c, f, tree, o, vals, given=None, acts=None):
    """None when the outcome is as specified, else (kind, message)"""
    a = acts or c.p.acts
    m = Matcher(a, vals)
    m.given = given or {}
    st = o.st.copy()
    rej, said = rejected(o)
    if rej:
        if not has_reject(f.exp) and not type(f.exp).__name__ == "If":
            return ("refused", "the text is rejected")
        r = reject_expected(m, st, f.exp)
        if r is True:
            return None
        if r is None:
            return ("unsettled", "the text is rejected although the path does not settle whether it has to be")
        return ("refused", "the text is rejected although it is not contradictory")
    try:
        m.match(st, f.exp, o.val)
    except Mismatch as x:
        if getattr(x, "unsettled", False):
            return ("unsettled" if x.refusal else "unsettled value", str(x))
        if str(x) == "the text is accepted":
            return ("accepted", "the text is accepted although it has to be rejected")
        return ("value", str(x))
    return None


def reject_expected(m, st, e):
    from terms import If
    if isinstance(e, Reject):
        return True
    if isinstance(e, If):
        t = m.test(st, e.p)
        if t is None:
            x, y = reject_expected(m, st, e.a), reject_expected(m, st, e.b)
            return x if x == y else None
        return reject_expected(m, st, e.a if t else e.b)
    return False


FOREIGN_OK = ("scmp",)


def foreign(st):
    """the path depends on facts the specification has no words for"""
    for t in st.trace:
        if t[0] in ("null", "nonnull", "class"):
            continue
        if t[0] in ("==", "!=", "in", "out") and isinstance(t[1], tuple):
            if t[1][0] in ("scmp", "sym", "size"):
                continue
            if t[1][0] == "app" and t[1][1] in ("sscanf",):
                continue
            if t[1][0] == "app" and t[1][1] == "char" and isinstance(t[1][3], tuple) and t[1][3][:2] == ("app", "scann"):
                continue
        if t[0] in ("atom", "not") and isinstance(t[1], tuple) and t[1][0] == "in":
            continue
        return t
    return None


def on_texts(c, f, tree, kinds):
    """the phrase on concrete texts: is a deviation reported?"""
    from texts import Texts, trials
    form = [phrases(c).same.get(s, s) for s in f.form]
    for said, text in trials(c, form):
        a = Texts(c.p.acts, text)
        try:
            st = a.start()
            vals = [a.token(st, s, "$%d" % (i + 1)) for i, s in enumerate(form)]
            outs = a.tree(tree, vals, form, st)
        except (Unsupported, Infeasible) as x:
            if WHY:
                print("on_texts", f, repr(said)[:30], type(x).__name__, x)
            continue
        finally:
            a.reasons()
        for o in outs:
            try:
                r = judge(c, f, tree, o, vals, acts=a)
            except (Unsupported, Infeasible, Unknown):
                continue
            if r is None or r[0].startswith("unsettled") or r[0] not in kinds:
                continue
            c.violation("%s|%s|%s" % (f, r[0], r[1][:80]), place(c, tree[0]), "%s: for a text like '%s', %s" % (f, said[:40], r[1]), tracetext(o.st))
            return True
    return False


WHY = 0


def represent(c, pid, kinds):
    ph = phrases(c)
    a = c.p.acts
    n = 0
    for f, trees, refused, ctx, problem in ph.res:
        if pid not in f.props:
            continue
        n += 1
        if problem == "inlined":
            c.ok("phrases that are another one")
            continue
        if problem:
            c.undecide(str(f), problem)
            continue
        if not trees:
            c.undecide(str(f), "not accepted by the parser: %s" % refused[0][2])
            continue
        for tree in trees[:6]:
            outs, vals, err = outcomes(c, f, tree)
            if err or not outs:
                c.undecide(str(f), err or "no outcome")
                if on_texts(c, f, tree, kinds):
                    continue
            bad = False
            for o in outs:
                try:
                    r = judge(c, f, tree, o, vals)
                except (Unsupported, Infeasible, Unknown) as x:
                    c.undecide(str(f), "%s: %s" % (type(x).__name__, x))
                    bad = True
                    continue
                if r is None:
                    c.count("paths")
                    continue
                kind, msg = r
                if kind in ("unsettled", "unsettled value"):
                    fr = foreign(o.st)
                    if fr is not None:
                        hit = None
                        for subj, text in witnesses(f, o):
                            r2 = judge(c, f, tree, o, vals, {subj: text})
                            if r2 is not None and not r2[0].startswith("unsettled"):
                                hit = (r2, text)
                                break
                        if hit is not None:
                            if hit[0][0] in kinds:
                                bad = True
                                c.violation("%s|%s|%s" % (f, hit[0][0], hit[0][1][:80]), place(c, tree[0]),
                                            "%s: for the text '%s', %s" % (f, hit[1], hit[0][1]), tracetext(o.st))
                            continue
                        c.undecide(str(f), "%s; depends on %s" % (msg, str(fr)[:200]))
                        bad = True
                        continue
                    if o.st.flags.get("badshape") is None and rejected(o)[0]:
                        kind = "refused"
                    elif has_reject(f.exp) and kind == "unsettled":
                        kind = "accepted"
                    else:
                        kind = "value"
                if kind not in kinds:
                    continue
                bad = True
                rule = tree[0]
                c.violation("%s|%s|%s" % (f, kind, msg[:80]), place(c, rule), "%s: %s" % (f, msg), tracetext(o.st))
            if not bad:
                c.ok("phrases")
        if n % 25 == 1:
            c.sample({"phrase": str(f), "derivations": len(trees), "contexts": ctx})
    c.functions |= a.functions_seen
    c.need(n > 0, "phrases of " + pid)


# enumerators a tree uses to say which of several things was written
NAMED = {
    "C04": {"ExprType": "kExprLiteralFloat kExprLiteralString kExprLiteralInt kExprLiteralNull kExprLiteralDate kExprLiteralInterval kExprStar kExprParameter "
                        "kExprColumnRef kExprFunctionRef kExprOperator kExprSelect kExprHint kExprArray kExprArrayIndex kExprExtract kExprCast",
            "OperatorType": "kOpNone kOpBetween kOpCase kOpCaseListElement kOpPlus kOpMinus kOpAsterisk kOpSlash kOpPercentage kOpCaret kOpEquals kOpNotEquals "
                            "kOpLess kOpLessEq kOpGreater kOpGreaterEq kOpLike kOpNotLike kOpILike kOpAnd kOpOr kOpIn kOpConcat kOpNot kOpUnaryMinus "
                            "kOpIsNull kOpExists",
            "DatetimeField": "kDatetimeNone kDatetimeSecond kDatetimeMinute kDatetimeHour kDatetimeDay kDatetimeMonth kDatetimeYear",
            "FrameBoundType": "kFollowing kPreceding kCurrentRow", "FrameType": "kRange kRows kGroups"},
    "C05": {"OrderType": "kOrderAsc kOrderDesc", "NullOrdering": "Undefined First Last", "SetType": "kSetUnion kSetIntersect kSetExcept",
            "RowLockMode": "ForUpdate ForNoKeyUpdate ForShare ForKeyShare", "RowLockWaitPolicy": "NoWait SkipLocked None",
            "TableRefType": "kTableName kTableSelect kTableJoin kTableCrossProduct",
            "JoinType": "kJoinInner kJoinFull kJoinLeft kJoinRight kJoinCross kJoinNatural"},
    "C06": {"StatementType": "kStmtSelect kStmtInsert kStmtUpdate kStmtDelete kStmtCreate kStmtDrop kStmtPrepare kStmtExecute kStmtAlter kStmtShow "
                             "kStmtTransaction",
            "InsertType": "kInsertValues kInsertSelect", "CreateType": "kCreateTable kCreateTableFromTbl kCreateView kCreateIndex",
            "DropType": "kDropTable kDropSchema kDropIndex kDropView kDropPreparedStatement", "ShowType": "kShowColumns kShowTables",
            "ConstraintType": "ForeignKey NotNull Null PrimaryKey Unique",
            "DataType": "UNKNOWN BIGINT BOOLEAN CHAR DATE DATETIME DECIMAL DOUBLE FLOAT INT LONG REAL SMALLINT TEXT TIME VARCHAR",
            "TransactionCommand": "kBeginTransaction kCommitTransaction kRollbackTransaction"},
    "C07": {"StatementType": "kStmtImport kStmtExport", "ImportType": "kImportCSV kImportTbl kImportBinary kImportAuto"},
}


def told_apart(c, pid):
    """things that can be written differently are different values"""
    for e, names in sorted(NAMED[pid].items()):
        vals = c.p.prog.enums.get("hsql::" + e)
        if vals is None:
            c.undecide("enum " + e, "hsql::%s is not found" % e)
            continue
        seen = {}
        bad = False
        for n in names.split():
            if n not in vals:
                continue
            if vals[n] in seen:
                bad = True
                c.violation("enum|%s|%s" % (e, n), "hsql::" + e, "%s and %s are the same value %s: what was written cannot be told from the tree" % (
                    seen[vals[n]], n, vals[n]))
            seen.setdefault(vals[n], n)
        if not bad:
            c.ok("enumerations that tell apart what was written")


RULE = ("Each phrase of the dialect (a form of a nonterminal, nonterminals in it standing for any phrase of theirs) is run through the parser's tables "
        "(lookahead decisions included), the grammar actions of the derivation found are evaluated abstractly on all values of the parts, and on "
        "every path the object built is compared field by field with the specified result: the parts in their roles, defaults elsewhere. "
        "The enumerators that say which of several things was written are different values. ")


def c04(c):
    c.rule(RULE + "Phrases: expressions.")
    told_apart(c, "C04")
    represent(c, "C04", ("value",))


def c05(c):
    c.rule(RULE + "Phrases: queries, tables, joins, ordering, limits, locking and common table expressions.")
    told_apart(c, "C05")
    represent(c, "C05", ("value",))


def c06(c):
    c.rule(RULE + "Phrases: all statements but queries, import and export.")
    told_apart(c, "C06")
    represent(c, "C06", ("value",))


def c07(c):
    c.rule(RULE + "Phrases: import and export statements and their options.")
    told_apart(c, "C07")
    represent(c, "C07", ("value",))


def c10(c):
    c.rule(RULE + "Phrases: literals.")
    represent(c, "C10", ("value",))
    import lexing
    lexing.numbers(c)


def c19(c):
    c.rule(RULE + "Phrases: those with a condition on which the text has to be refused; every path on which the condition holds raises an error, every "
           "other path does not.")
    represent(c, "C19", ("accepted", "refused"))


def c20(c):
    c.rule("Every phrase of the dialect is accepted by the parser's tables in every parser state that expects a phrase of its kind (behind an operator: "
           "unless precedence closes the operand before it), and is not refused by its actions. The entry points hand every text to the parser and "
           "mark the result valid when it accepts.")
    import entry
    import lexing
    import outcome
    import result
    lexing.whole_text(c, entry.PARSE)
    outcome.entry_points(c, ("valid1", "return", "notext", "count"))
    result.operations(c, ("value",), ("setIsValid", "accessors"), ("isValid",))
    ph = phrases(c)
    used = set()
    texts = None
    for f, trees, refused, ctx, problem in ph.res:
        if problem == "inlined":
            c.ok("phrases that are another one")
            continue
        if problem:
            c.undecide(str(f), problem)
            continue
        for t in trees:
            rules_of(t, used)
        if refused:
            where = refused[0]
            if ctx:
                if texts is None:
                    texts = Sentences(c.p.grammar, ph.lr)
                hit, tried = texts.refused(f.lhs, f.form, [x[0] for x in refused])
                if hit is None:
                    c.undecide(str(f), "written differently in the grammar: %s after %s, but the %d shortest texts with it are accepted" % (where[2], where[1], tried))
                    continue
                where = where[:2] + ("%s; for example in the text  %s" % (where[2], " ".join(hit).replace("'", "")),)
            c.violation("%s|refused" % f, "src/parser/bison_parser.y (%s)" % f,
                        "the phrase is not accepted after %s: %s (%d of %d contexts)" % (where[1], where[2], len(refused), ctx))
            continue
        bad = False
        for tree in trees[:6]:
            outs, vals, err = outcomes(c, f, tree)
            if err:
                c.undecide(str(f), err)
            for o in outs:
                if rejected(o)[0] and not has_reject(f.exp):
                    bad = True
                    c.violation("%s|refused by its action" % f, place(c, tree[0]), "%s: the text is rejected" % f, tracetext(o.st))
        if not bad:
            c.ok("phrases")
            c.count("contexts", ctx)
    ends(c, ph)
    rest = [str(r) for r in c.p.grammar.rules if r.num and r.useful and r.num not in used]
    for r in rest:
        c.count("productions outside the specified dialect")
        c.sample({"production outside the specified dialect": r})


def ends(c, ph):
    """a text may or may not end with a semicolon, behind one statement or several"""
    t = Sentences(c.p.grammar, ph.lr)
    for l in sorted(t.d.prods.get("statement", ())):
        one = tuple(x for s in l for x in t.dmin.get(s, (s,)))
        for text in (one, one + ("';'",), one + ("';'",) + one, one + ("';'",) + one + ("';'",)):
            if not t.accepted(text):
                c.violation("text|%s" % " ".join(text), "src/parser/bison_parser.y (input)", "the text `%s` is not accepted" % " ".join(text).replace("'", ""))
            else:
                c.ok("texts of statements")

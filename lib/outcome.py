"""C11, C12, C16: what a parse leaves in the result: validity and errors, placeholders, statement boundaries."""
from absint import INTW, Infeasible, Interp, NULL, State, UNINIT, Unsupported, lengths, strip
from memory import place, tracetext
import entry
import result


# ------------------------------------------------------------------------------------------------ helpers
def resfield(st, name):
    """value of a field of the result object of an action's state"""
    for i, o in st.heap.items():
        if o.label == "result" and o.cls == result.CLS:
            return o.f.get(name), o
    return None, None


def said(st):
    if any(x[0] == "yyerror" for x in st.out):
        return True
    v, o = resfield(st, "errorMsg_")
    return o is not None and "errorMsg_" in o.wr and v != NULL


def knows(st, what):
    return any(t[0] == what and t[1] == "result.errorMsg_" for t in st.trace)


def outs_of(c, r):
    """outcomes of a production, None when there are none to judge"""
    a = c.p.acts
    res = a.results.get(r.num)
    if r.num in a.undecided:
        if not res:
            return None
        c.undecide(str(r), a.undecided[r.num])
    return res[0] if res else []


def rules(c):
    return [r for r in c.p.grammar.rules if r.num and r.useful]


# ------------------------------------------------------------------------------------------------ C11
def c11(c):
    c.rule("The parse entry points are evaluated on all their paths: when the parser starts, the result is as new; afterwards it is valid exactly when the "
           "parser returned 0, and otherwise as the parser left it. Every syntax error and every error raised by an action has recorded its message "
           "before; an action that records an error without raising it is followed, on every derivation, by one that raises it. Statements are handed "
           "to the result by the reduction of the whole text only, which needs the end of the text as lookahead, and all of them in order. The "
           "reporting function stores a message and the position it is given. Every lexer action moves the line and column on by the characters it consumed, in "
           "integers of at least 32 bits.")
    entry_points(c)
    reporter(c)
    import lexing
    lexing.counting(c, ("last_line", "last_column", "first_line", "first_column"), "the lines and columns of the text")
    wide(c, result.CLS, ("errorLine_", "errorColumn_"), "the position of an error")
    raised(c)
    soft(c)
    handover(c)
    whole(c)
    result.operations(c, ("value",), ("construction", "reset", "addStatement", "setIsValid", "setErrorDetails", "accessors"), result.OUTCOME)


def entry_points(c, keys=None):
    """all that a parse does to the result, or the named part of it"""
    for fn, label, it, outs, faults in entry.each(c, entry.PARSE):
        bad = False

        def report(key, msg, st, line=None):
            nonlocal bad
            if keys and key not in keys:
                return
            bad = True
            c.violation("%s|%s" % (label, key), entry.place(fn, line), msg, entry.path(st))
        for st, v in outs:
            if any(x[0] == "init failed" for x in st.out):
                if it.known(st, v) not in (0, None):
                    report("return", "returns true although the text was not parsed", st)
                snap = it.snapshot(st, result_arg(it, st))
                if snap is not None and unclean(it, st, snap):
                    report("stale", "%s of an earlier use remains in the result" % unclean(it, st, snap), st)
                continue
            ps = [x for x in st.out if x[0] == "parse"]
            if len(ps) != 1:
                report("count", "the text is parsed %d times" % len(ps), st)
                snap = it.snapshot(st, result_arg(it, st))
                if not ps and snap is not None and it.known(st, snap["isValid_"]) != 0:
                    report("valid0", "the result may be valid although the text was not parsed", st)
                continue
            u = unclean(it, st, ps[0][2])
            if u:
                report("stale", "the parser starts with %s of an earlier use in the result" % u, st, ps[0][3])
            if any(x[0] == "parse without text" for x in st.out):
                report("notext", "the parser starts without the text", st)
            ret = st.flags.get("ret")
            snap = it.snapshot(st, ps[0][1])
            left = st.flags["left"]
            valid = it.known(st, snap["isValid_"])
            if valid != (1 if ret == 0 else 0):
                if valid is None and snap["isValid_"] != left["isValid_"] and not isinstance(snap["isValid_"], tuple):
                    pass
                report("valid%d" % (ret == 0), "the result is %s although the parser %s" % (
                    "valid" if valid else "not marked" if valid is None else "invalid", "accepted the text" if ret == 0 else "rejected it"), st)
            for k in sorted(left):
                if k == "isValid_" or k not in snap:
                    continue
                if snap[k] != left[k]:
                    report("changed|" + k, "%s is changed after parsing" % k.rstrip("_"), st)
            if it.known(st, v) == 0:
                report("return", "returns false although the parser ran", st)
        if not bad:
            c.ok("entry points")
            c.sample({"entry point": label, "paths": len(outs)})


def result_arg(it, st):
    for i, o in st.heap.items():
        if o.label == "result" and o.cls == result.CLS:
            return ("ptr", i)
    return None


def unclean(it, st, snap):
    for k, v in sorted(snap.items()):
        if k in ("statements_", "parameters_"):
            if isinstance(v, tuple) and v[0] == "list" and (not v[1] or v[2]):
                return k.rstrip("_")
        elif k == "errorMsg_":
            if v != NULL and not (isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).null == "null"):
                return "an error message"
    return None


def reporter(c):
    """hsql_error"""
    fl = entry.fns(c, "hsql_error")
    c.need(fl, "definition of hsql_error")
    for fn in fl:
        n = len(fn["params"])
        if n < 4:
            continue
        o = result.Ops(c)
        label = "hsql_error"
        bad = False
        try:
            for msg in (False, True):
                st = State()
                o.it.faults = []
                r = o.opaque(st, "result", (2, 2), msg)
                vs = []
                for p in fn["params"]:
                    if "SQLParserResult" in p["t"]:
                        rp = ("ptr", r)
                        vs.append(rp)
                    elif "LTYPE" in p["t"] or "CUST" in p["t"]:
                        vs.append(o.it.opaque_ptr(st, p["t"], "location", "nonnull"))
                    elif "char" in p["t"]:
                        vs.append(o.it.opaque_ptr(st, p["t"], "message", "nonnull"))
                    else:
                        vs.append(("sym", p["name"]))
                o.it.partial = True
                for s, v, before, obs in ((s2, v, x, y) for s0, x in o.observe(st, r) for s, v in o.it.invoke(fn, s0, [], None, {"l": 0}, values=vs)
                                          for s2, y in o.observe(s, r)):
                    m = obs["errorMsg"]

                    def report(key, text):
                        nonlocal bad
                        bad = True
                        c.violation("hsql_error|" + key, "src/parser/bison_parser.y:%s (yyerror)" % fn.get("line", ""), text, tracetext(s))
                    if m == NULL or m == before["errorMsg"] or m == UNINIT:
                        report("message", "no error message is stored")
                    elif isinstance(m, tuple) and m[0] == "freed":
                        report("message", "the stored error message is released")
                    if obs["errorLine"] != ("sym", "location.first_line"):
                        report("line", "the line stored is %s instead of the line of the error" % result.show(s, obs["errorLine"]))
                    if obs["errorColumn"] != ("sym", "location.first_column"):
                        report("column", "the column stored is %s instead of the column of the error" % result.show(s, obs["errorColumn"]))
                    if obs["getStatements"] != before["getStatements"]:
                        report("statements", "the statements of the result are changed")
                why = o.it.reasons()
                if why:
                    raise Unsupported(why)
        except (Unsupported, Infeasible, result.Missing) as x:
            c.undecide(label, str(x))
            continue
        if not bad:
            c.ok("error reporting")
        c.functions.add("hsql_error")


def raised(c):
    """every raised error has a message"""
    for r in rules(c):
        outs = outs_of(c, r)
        if outs is None:
            c.undecide(str(r), c.p.acts.undecided[r.num])
            continue
        bad = False
        for o in outs:
            if o.ctl in ("error", "abort") and not said(o.st) and not knows(o.st, "nonnull"):
                bad = True
                c.violation("%s|silent" % r, place(c, r), "an error is raised without an error message", tracetext(o.st))
            if o.ctl == "accept":
                bad = True
                c.violation("%s|accept" % r, place(c, r), "the parse is ended as successful before the end of the text", tracetext(o.st))
        if not bad:
            c.ok("productions")
    if any("error" in r.rhs for r in rules(c)):
        c.undecide("error recovery", "the grammar has error productions")


def soft(c):
    """an error recorded without being raised is raised further up, whatever the context"""
    leaky, guards = {}, set()
    marker = set()
    byl = {}
    for r in rules(c):
        # productions that could not be evaluated (completely) are taken to raise the error, unless a path is known on which they do not
        outs = outs_of(c, r) or []
        byl.setdefault(r.lhs, []).append((r, outs))
        for o in outs:
            if o.ctl == "ok" and said(o.st):
                leaky.setdefault(r.lhs, (r, o.st))
    for r in rules(c):
        outs = outs_of(c, r) or []
        if (outs or r.num in c.p.acts.undecided) and all(knows(o.st, "null") and not said(o.st) for o in outs if o.ctl == "ok"):
            guards.add(r.num)
    for l, rs in byl.items():
        if len(rs) == len(c.p.grammar.by_lhs[l]) and all(r.num in guards and not r.rhs for r, _ in rs):
            marker.add(l)      # empty nonterminal (e.g. a mid-rule action) that checks
    n = len(leaky)
    ch = True
    while ch:
        ch = False
        for r in rules(c):
            if r.lhs in leaky or r.num in guards:
                continue
            for i, s in enumerate(r.rhs):
                if s in leaky and not any(x in marker for x in r.rhs[i + 1:]):
                    leaky[r.lhs] = (r, leaky[s][1])
                    ch = True
                    break
    if "input" in leaky:
        chain, l = [], "input"
        src = leaky[l]
        seen = set()
        while l in leaky and l not in seen:
            seen.add(l)
            chain.append(l)
            r = leaky[l][0]
            nxt = [s for s in r.rhs if s in leaky and s not in seen]
            if not nxt:
                src = leaky[l]
                break
            l = nxt[0]
        c.violation("soft|%s" % src[0], place(c, src[0]), "an error is recorded but the text is still accepted (via %s)" % " < ".join(reversed(chain)),
                    tracetext(src[1]))
    else:
        c.ok("recorded errors")
    c.count("nonterminals with recorded errors", len(leaky))
    c.count("productions that raise recorded errors", len(guards))


def start_rules(c):
    g = c.p.grammar
    acc = g.by_lhs.get("$accept")
    c.need(acc, "start rule")
    return acc[0].rhs[0], g.by_lhs[acc[0].rhs[0]]


def fresh_start(c, nparams=0):
    """an action state in which the result is new"""
    a = c.p.acts
    st = a.start()
    for i, o in list(st.heap.items()):
        if o.label == "result" and o.cls == result.CLS:
            for f in ("statements_", "parameters_"):
                v = a.getfield(st, i, f)
                w = st.w(v[1])
                w.pre, w.items, w.tag = None, [], 0
            e = a.getfield(st, i, "errorMsg_")
            st.w(i).f["errorMsg_"] = NULL
    return st


def observed(c, st):
    """the result of an action's state as its accessors show it: (state, observation)"""
    o = result.Ops(c)
    for i, ob in list(st.heap.items()):
        if ob.label == "result" and ob.cls == result.CLS:
            o.it.partial = True
            yield from o.observe(st, i)
            why = o.it.reasons()
            if why:
                raise Unsupported(why)
            return


def thresholds(c, *names):
    """list lengths that methods of the result, or an action, compare something with"""
    r = set(lengths(c.p.prog, None, 300))
    for f in c.p.prog.functions.values():
        if f.get("cls") == result.CLS and f["name"] in names:
            r |= lengths(c.p.prog, f, 300)
    return r


def handover(c):
    """all statements, in order, and only from the start symbol"""
    top, rs = start_rules(c)
    a = c.p.acts
    for r in rs:
        try:
            st = fresh_start(c)
            form = list(r.rhs)
            vals = [a.token(st, s, "$%d" % (i + 1)) for i, s in enumerate(form)]
            lists = [v for v in vals if isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).kind == "vec"]
            if len(lists) != 1:
                raise Unsupported("statements of the text")
            states = []
            for n in sorted({1, 2} | thresholds(c, "addStatement")):
                s = st.copy()
                s.w(lists[0][1]).pre = [n]
                states += list(a.expand(s, lists[0][1]))
            bad = False
            why = None
            for st in states:
                want = tuple(st.r(lists[0][1]).items)
                if bad:
                    break
                a.faults = []
                a.reasons()
                a.MAXSTEPS = 20000 if len(want) < 10 else 300000
                outs = a.tree((r, list(range(len(form)))), vals, form, st)
                why = why or a.reasons()
                for o, (s, obs) in ((o, x) for o in outs for x in observed(c, o.st)):
                    got = obs["getStatements"][1]
                    if bad:
                        break
                    if o.ctl != "ok":
                        bad = True
                        c.violation("%s|ctl" % r, place(c, r), "an error is raised after the whole text was read", tracetext(s))
                    elif got != want:
                        bad = True
                        c.violation("%s|statements" % r, place(c, r), "the result gets the statements [%s] instead of [%s]" % (
                            ", ".join(result.show(s, x) for x in got), ", ".join(result.show(s, x) for x in want)), tracetext(s))
            if why:
                c.undecide(str(r), why)
            if not bad:
                c.ok("hand-over of the statements")
        except (Unsupported, Infeasible, result.Missing) as x:
            c.undecide(str(r), str(x))
        finally:
            a.MAXSTEPS = 20000
    for r in rules(c):
        if r.lhs == top:
            continue
        for o in outs_of(c, r) or ():
            v, ob = resfield(o.st, "statements_")
            if isinstance(v, tuple) and v[0] == "obj" and o.st.r(v[1]).items and o.st.r(v[1]).wr:
                c.violation("%s|early" % r, place(c, r), "statements are added to the result before the whole text is accepted", tracetext(o.st))
                break
    # statement lists keep their order
    phrases(c, "C11")


def phrases(c, pid):
    import represent
    represent.represent(c, pid, ("value",))


def whole(c):
    """the reduction to the start symbol needs the end of the text, after which nothing but acceptance is possible"""
    g = c.p.grammar
    top, rs = start_rules(c)
    n = 0
    for s, st in enumerate(g.states):
        for r in rs:
            if (r.num, len(r.rhs)) not in st["items"]:
                continue
            n += 1
            looks = {t for t, x in st["reduce"].items() if x == r.num}
            if st["default"] == r.num:
                c.violation("state|default|%s" % r, "src/parser/bison_parser.y (%s, state %d)" % (r, s),
                            "the statements are handed to the result before the rest of the text is looked at")
            elif looks - {"$end"}:
                c.violation("state|%s|%s" % (r, sorted(looks)), "src/parser/bison_parser.y (%s, state %d)" % (r, s),
                            "the statements are handed to the result although %s follows" % sorted(looks - {"$end"}))
            else:
                c.ok("reductions to the start symbol")
    c.need(n, "reduction to " + top)
    st = g.states[g.states[0]["goto"][top]]
    if set(st["shift"]) - {"$end"} or st["goto"]:
        c.violation("accepting state", "src/parser/bison_parser.y", "the text may go on after the start symbol: %s" % sorted(st["shift"]))
    else:
        c.ok("accepting state")


# ------------------------------------------------------------------------------------------------ C12
def paramlists(st):
    """(object id, label) of lists of the location that got elements"""
    for i, o in st.heap.items():
        if o.kind == "vec" and o.label and o.label.split(".")[0] in ("yyloc", "yylloc"):
            yield i, o


def c12(c):
    c.rule("The production of a placeholder appends exactly the new placeholder node to the list of placeholders kept during the parse; it spans a "
           "single ? token, so that the list is in textual order. No other action creates a placeholder or changes that list, the parser never "
           "replaces it, and the action for the whole text numbers its elements 0, 1, ... and hands exactly them, in this order, to the result.")
    a = c.p.acts
    g = c.p.grammar
    kparam = c.p.prog.enumconst["kExprParameter"][1]
    pushers, where = [], set()
    for r in rules(c):
        outs = outs_of(c, r)
        if outs is None:
            c.undecide(str(r), a.undecided[r.num])
            continue
        bad = False
        for o in outs:
            st = o.st
            made = set()
            for i, ob in st.heap.items():
                if ob.cls == "hsql::Expr" and not ob.opq and ob.status == "live" and ob.alloc == "new":
                    if a.known(st, ob.f.get("type")) == kparam:
                        made.add(i)
            pushed = []
            for i, ob in paramlists(st):
                if ob.wr or (ob.items and ob.pre is not None):
                    pushed += [x[1] if isinstance(x, tuple) and x[0] == "ptr" else x for x in ob.items]
                    where.add(ob.label)
                    if ob.pre is None and ob.opq and r.lhs != "input":
                        bad = True
                        c.violation("%s|rewrite" % r, place(c, r), "the list of placeholders is changed other than by appending", tracetext(st))
            if r.lhs == start_rules(c)[0]:
                continue
            if o.ctl == "ok" and made - set(pushed):
                bad = True
                c.violation("%s|unlisted" % r, place(c, r), "a placeholder is created but not entered in the list of placeholders", tracetext(st))
            for x in pushed:
                if x not in made:
                    bad = True
                    c.violation("%s|foreign" % r, place(c, r), "something other than a new placeholder is entered in the list of placeholders", tracetext(st))
            if len(pushed) != len(set(map(str, pushed))):
                bad = True
                c.violation("%s|twice" % r, place(c, r), "a placeholder is entered in the list of placeholders twice", tracetext(st))
            if pushed and o.ctl == "ok":
                if r not in pushers:
                    pushers.append(r)
                if not (isinstance(o.val, tuple) and o.val[0] == "ptr" and o.val[1] in pushed):
                    # it may also be a part of the value; the representation check sees to that
                    if not any(i in pushed for i, _, _ in a.reachable(st, o.val)):
                        bad = True
                        c.violation("%s|lost" % r, place(c, r), "the listed placeholder is not part of the tree", tracetext(st))
        if not bad:
            c.ok("productions")
    c.need(pushers or c.viol or c.undecided, "production of placeholders")
    holds = g.contains("'?'")
    for r in pushers:
        inner = [s for s in r.rhs if s != "'?'" and s in holds]
        if r.rhs.count("'?'") != 1 or inner:
            c.violation("%s|order" % r, place(c, r), "placeholders inside %s are listed before the one of this production, which precedes them" % inner)
        else:
            c.ok("order of placeholders")
    numbering(c, where)
    lists_kept(c, where)
    result.operations(c, ("value",), ("construction", "reset", "addParameter", "addStatement", "setIsValid", "accessors"), ("parameters",))
    phrases(c, "C12")


def numbering(c, where):
    top, rs = start_rules(c)
    a = c.p.acts
    for r in rs:
        for size in [3, 0, 12] + sorted(thresholds(c, "addParameter")):
            try:
                a.narrow, a.MAXSTEPS = [], 20000 if size < 10 else 300000
                st = fresh_start(c)
                owner = None
                for i, o in list(st.heap.items()):
                    if o.label in ("yyloc", "yylloc") and o.kind == "struct":
                        for f in c.p.prog.all_fields(o.cls):
                            if a.class_kind(f["t"]) == "vec":
                                v = a.getfield(st, i, f["name"])
                                lab = "%s.%s" % (o.label, f["name"])
                                w = st.w(v[1])
                                w.pre, w.items, w.tag = None, [], 0
                                if lab in where:
                                    for k in range(size):
                                        p = a.opaque_ptr(st, "hsql::Expr *", "placeholder %d" % k, "nonnull")
                                        st.w(v[1]).items.append(p)
                                    owner = v[1]
                if owner is None:
                    raise Unsupported("list of placeholders")
                want = tuple(st.r(owner).items)
                form = list(r.rhs)
                vals = [a.token(st, s, "$%d" % (i + 1)) for i, s in enumerate(form)]
                a.reasons()
                outs = a.tree((r, list(range(len(form)))), vals, form, st)
                why = a.reasons()
                if why:
                    c.undecide("%s with %d placeholders" % (r, size), why)
                bad = False
                for o in outs:
                    if o.ctl != "ok":
                        continue
                    for s, obs in observed(c, o.st):
                        got = obs["parameters"][1]
                        if got != want and not bad:
                            bad = True
                            c.violation("%s|parameters" % r, place(c, r), "the parameter list is [%s] instead of [%s]" % (
                                ", ".join(result.show(s, x) for x in got), ", ".join(result.show(s, x) for x in want)), tracetext(s))
                    for k, p in enumerate(want):
                        v = a.known(o.st, a.getfield(o.st, p[1], "ival"))
                        if v != k and not bad:
                            bad = True
                            c.violation("%s|number" % r, place(c, r), "placeholder %d gets the number %s" % (k, result.show(o.st, a.getfield(o.st, p[1], "ival"))),
                                        tracetext(o.st))
                if a.narrow and not bad:
                    bad = True
                    c.violation("%s|narrow" % r, place(c, r), "the placeholders are counted in an integer of type %s, which wraps around" % a.narrow[0][0])
                if not bad:
                    c.ok("numbering")
            except (Unsupported, Infeasible, result.Missing) as x:
                c.undecide("%s with %d placeholders" % (r, size), str(x))
            finally:
                a.MAXSTEPS = 20000


def lists_kept(c, where):
    """outside the actions, the parser does not overwrite the location that carries the list"""
    names = {w.split(".")[0] for w in where}
    for fn in entry.fns(c, "hsql_parse"):
        hits = []
        scan_writes(fn["body"], names, hits, c)
        bad = [h for h in hits if not h[2]]
        for n, line, _ in bad:
            c.violation("hsql_parse|%s|overwritten" % n, "src/parser/bison_parser.cpp:%s (hsql_parse)" % line,
                        "%s, which carries the list of placeholders, is overwritten during the parse" % n)
        if not bad:
            c.ok("parser loop")


def scan_writes(n, names, hits, c, inloop=False):
    """whole assignments to the named variables, or to vector members of theirs, that are not initialisations"""
    if isinstance(n, list):
        for x in n:
            scan_writes(x, names, hits, c, inloop)
        return
    if not isinstance(n, dict):
        return
    k = n.get("k")
    tgt = None
    if k in ("Assign",):
        tgt = n.get("a")
    elif k == "Call" and n.get("fn") == "operator=" and (n.get("opmem") or n.get("c")):
        tgt = n["c"][0] if n.get("c") else None
    if tgt is not None:
        b, path = tgt, []
        while isinstance(b, dict) and b.get("k") in ("Member", "Paren", "Cast"):
            if b["k"] == "Member":
                path.append(b["name"])
                b = b["b"]
            else:
                b = b["e"]
        if isinstance(b, dict) and b.get("k") == "Ref" and b.get("name") in names:
            t = n.get("t", "") or tgt.get("t", "")
            if not path or "vector" in tgt.get("t", ""):
                hits.append((b["name"], n.get("l", 0), False))
    for v in n.values():
        if isinstance(v, (dict, list)):
            scan_writes(v, names, hits, c, inloop)


# ------------------------------------------------------------------------------------------------ C16
def length_writes(st):
    """string_length fields of the location and stringLength of statements changed on a path"""
    loc, stm = [], []
    for i, o in st.heap.items():
        if o.kind == "struct" and o.label in ("yyloc", "yylloc") and "string_length" in o.wr:
            loc.append((o.label, o.f.get("string_length")))
        if o.kind == "struct" and "stringLength" in o.wr and o.opq:
            stm.append((o.label, o.f.get("stringLength")))
    return loc, stm


def c16(c):
    c.rule("Each statement of a list is measured, when it is complete, with the number of characters read since the previous one, and the count starts "
           "again from 0. In every parser state in which this happens, the token after the statement has been read, so that its terminating ; is "
           "part of the length. No other action touches the count or the lengths, and every lexer rule adds exactly the length of its token to it. "
           "The statement list has one entry per statement, in order.")
    a = c.p.acts
    g = c.p.grammar
    closing = []
    for r in rules(c):
        outs = outs_of(c, r)
        if outs is None:
            c.undecide(str(r), a.undecided[r.num])
            continue
        bad = False
        islist = r.lhs == "statement_list"
        for o in outs:
            loc, stm = length_writes(o.st)
            if o.ctl != "ok":
                continue
            if islist and "statement" in r.rhs:
                k = r.rhs.index("statement") + 1
                lab = "$%d" % k
                mine = [x for x in stm if x[0] == lab]
                if not mine:
                    bad = True
                    c.violation("%s|unmeasured" % r, place(c, r), "the statement's length is not set", tracetext(o.st))
                elif mine[0][1] != ("sym", "yylloc.string_length"):
                    bad = True
                    c.violation("%s|length" % r, place(c, r), "the statement's length is set to %s instead of the number of characters read" % (
                        result.show(o.st, mine[0][1])), tracetext(o.st))
                if [x for x in stm if x[0] != lab]:
                    bad = True
                    c.violation("%s|other" % r, place(c, r), "the length of another statement is changed", tracetext(o.st))
                if [x for x in loc if x[0] == "yylloc"] != [("yylloc", 0)]:
                    bad = True
                    c.violation("%s|restart" % r, place(c, r), "the count of characters does not start again from 0 after the statement", tracetext(o.st))
            else:
                if loc or stm:
                    bad = True
                    c.violation("%s|count" % r, place(c, r), "the count of characters or a statement's length is changed inside a statement", tracetext(o.st))
        if islist and "statement" in r.rhs:
            closing.append(r)
        if not bad:
            c.ok("productions")
    c.need(closing or c.undecided, "statement_list productions")
    for s, st in enumerate(g.states):
        for r in closing:
            if (r.num, len(r.rhs)) not in st["items"]:
                continue
            if st["default"] == r.num and not st["shift"] and not st["reduce"]:
                c.violation("state %s|blind" % r, "src/parser/bison_parser.y (%s, state %d)" % (r, s),
                            "a statement is measured before the token that ends it has been read")
            else:
                c.ok("states that close a statement")
    import lexing
    lexing.counting(c, ("string_length",), "the characters of a statement")
    wide(c, "hsql::SQLStatement", ("stringLength",), "the length of a statement")
    result.operations(c, ("value",), ("addStatement", "accessors"), result.STATEMENTS)
    phrases(c, "C16")


def wide(c, cls, fields, what):
    """the given fields hold any length of a text"""
    for f in c.p.prog.all_fields(cls):
        if f["name"] in fields:
            w = INTW.get(strip(f["t"]), 64)
            if w < 32:
                c.violation("%s|narrow" % f["name"], cls, "%s is kept in a field of type %s" % (what, f["t"]))
            else:
                c.ok("width of the fields")

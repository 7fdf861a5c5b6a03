"""Meaning of the library functions the analysed code uses, for absint.Interp.

call(interp, state, node) yields (state, value) for a call whose definition lies outside the repository; anything not
described here raises Unsupported, which makes the path undecided.
"""
import re

from absint import (Infeasible, NULL, Obj, UNINIT, Unsupported, VOID, pointee, strip, targ, targs)


def call(it, st, e):
    fn, cls, qn = e.get("fn", ""), e.get("cls", ""), e.get("qn", "")
    it.lib_used.add(qn)
    if "obj" in e and not e.get("smeth"):
        gen = it.callee_obj_any(e, st)
        for s, recv in gen:
            yield from method(it, s, recv, fn, e["c"], e)
        return
    if e.get("opmem"):
        for s, l in it.lv(e["c"][0], st):
            yield from method(it, s, recv_of(it, s, l), fn, e["c"][1:], e)
        return
    yield from free_fn(it, st, e)


def call_named(it, st, name, args, e):
    yield from free_fn(it, st, {"fn": name, "qn": name, "c": args, "l": e.get("l", 0), "t": e.get("t", "")})


def recv_of(it, st, l):
    """object, iterator or pointer a member function is called on, as (value, location)"""
    if l[0] == "o":
        return (("obj", l[1]), l)
    return (it.load(st, l), l)


# ------------------------------------------------------------------------------------------------ member functions
def method(it, st, recv, fn, args, e):
    v, loc = recv
    line = e.get("l", 0)
    if isinstance(v, tuple) and v[0] == "it":
        yield from it_method(it, st, v, loc, fn, args, e)
        return
    if isinstance(v, tuple) and v[0] == "unit" and fn == "operator()":
        raise Unsupported("call of " + str(v))
    if isinstance(v, tuple) and v[0] in ("lam", "fn") and fn == "operator()":
        yield from it.call_value(st, v, args, e)
        return
    if isinstance(v, tuple) and v[0] == "lam":
        yield st, v
        return
    if fn in ("operator long", "operator long long") and not (isinstance(v, tuple) and v[0] == "obj"):
        yield st, v  # std::fpos, modelled as the number of bytes
        return
    if not (isinstance(v, tuple) and v[0] == "obj"):
        raise Unsupported("method %s of %s" % (fn, str(v)[:50]))
    oid = v[1]
    o = st.r(oid)
    if o.status == "freed":
        st.issue("uaf", "%s of %s is called after its release" % (fn, it.describe(st, oid)), line)
    k = o.kind
    m = {"vec": vec_method, "set": set_method, "map": map_method, "string": string_method, "stream": stream_method, "uptr": uptr_method,
         "struct": pair_method}.get(k)
    if m is None:
        raise Unsupported("method %s of a %s" % (fn, k))
    yield from m(it, st, oid, fn, args, e)


def elem_value(it, st, v, move=False):
    if isinstance(v, tuple) and v[0] == "obj":
        return ("obj", it.copy_obj(st, v[1]))
    return v


def one(it, st, args):
    for s, v in it.ev(args[0], st):
        yield s, v


def vec_method(it, st, oid, fn, args, e):
    line = e.get("l", 0)
    if fn in ("push_back", "emplace_back"):
        if fn == "emplace_back" and len(args) != 1:
            for s, vs in it.evs(args, st):
                if not (st.r(oid).elem or "").startswith("std::pair<") or len(vs) != 2:
                    raise Unsupported("emplace_back with %d arguments" % len(args))
                i = it.fresh(s, st.r(oid).elem)
                s.w(i).f["first"], s.w(i).f["second"] = vs
                s.w(i).wr["first"] = s.w(i).wr["second"] = line
                w = s.w(oid)
                w.items.append(("obj", i))
                w.wr["#"] = line
                yield s, ("loc", ("o", i))
            return
        for s, v in it.ev(args[0], st):
            x = elem_value(it, s, v)
            w = s.w(oid)
            w.items.append(x)
            w.wr["#"] = line
            yield s, ("loc", ("e", oid, len(w.items) - 1)) if fn == "emplace_back" else VOID
    elif fn in ("push_front", "emplace_front") and len(args) == 1:
        for s, v in it.ev(args[0], st):
            x = elem_value(it, s, v)
            for s2 in it.expand(s, oid):
                w = s2.w(oid)
                w.items = [x] + w.items
                w.wr["#"] = line
                yield s2, ("loc", ("e", oid, 0)) if fn == "emplace_front" else VOID
    elif fn == "pop_front":
        for s in it.expand(st, oid):
            w = s.w(oid)
            if not w.items:
                s.issue("oob", "pop_front() of an empty list", line)
                it.dead(s)
                continue
            w.items = w.items[1:]
            w.wr["#"] = line
            yield s, VOID
    elif fn in ("back", "front"):
        o = st.r(oid)
        states = [st] if (fn == "back" and o.items) else it.expand(st, oid)
        for s in states:
            o = s.r(oid)
            if not o.items:
                s.issue("oob", "%s() of an empty list" % fn, line)
                it.dead(s)
                continue
            i = len(o.items) - 1 if fn == "back" else 0
            yield s, item_loc(s, oid, i)
    elif fn == "size":
        o = st.r(oid)
        yield st, size_of(st, oid)
    elif fn == "empty":
        o = st.r(oid)
        if o.pre is not None:
            if o.items or not isinstance(o.pre, (list, tuple)):
                yield st, 0
            else:
                for s in it.expand(st, oid):
                    yield s, int(not s.r(oid).items)
        else:
            yield st, int(not o.items)
    elif fn in ("begin", "cbegin"):
        yield st, ("it", oid, 0)
    elif fn in ("end", "cend"):
        yield st, ("it", oid, "end")
    elif fn in ("rbegin", "crbegin", "rend", "crend"):
        yield st, ("it", oid, ("rev", fn.endswith("end"), 0))
    elif fn in ("operator[]", "at"):
        for s, i in it.ev(args[0], st):
            for s2, n in it.force(s, i):
                for s3 in it.expand(s2, oid):
                    o = s3.r(oid)
                    if not isinstance(n, int):
                        k = it.known(s3, n)
                        if k is None:
                            raise Unsupported("symbolic index")
                        n = k
                    if n < 0 or n >= len(o.items):
                        s3.issue("oob", "index %d beyond the elements of %s" % (n, it.describe(s3, oid)), line)
                        it.dead(s3)
                        continue
                    yield s3, item_loc(s3, oid, n)
    elif fn == "clear":
        w = st.w(oid)
        if w.pre is not None and w.label and pointee(w.elem or "") is not None and w.alloc != "stack":
            st.flags["lost"] = st.flags.get("lost", ()) + ((w.label, line, w.null, oid),)
        w.items, w.pre = [], None
        w.wr["#"] = line
        yield st, VOID
    elif fn == "pop_back":
        for s in ([st] if st.r(oid).items else it.expand(st, oid)):
            w = s.w(oid)
            if not w.items:
                s.issue("oob", "pop_back() of an empty list", line)
                it.dead(s)
                continue
            w.items.pop()
            w.wr["#"] = line
            yield s, VOID
    elif fn == "operator=":
        for s, l in it.lv(args[0], st):
            src = it.objof(s, l)
            moved = is_move(args[0])
            if src != oid:
                vec_assign(it, s, oid, src, moved)
                s.w(oid).wr["#"] = line
            yield s, ("loc", ("o", oid))
    elif fn == "swap":
        for s, l in it.lv(args[0], st):
            src = it.objof(s, l)
            swap_objs(s, oid, src)
            yield s, VOID
    elif fn in ("reserve", "shrink_to_fit"):
        for s, _ in it.evs(args, st):
            yield s, VOID
    elif fn == "insert":
        # insert(pos, first, last) and insert(pos, value)
        for s, vs in it.evs(args, st):
            if not (isinstance(vs[0], tuple) and vs[0][0] == "it" and vs[0][1] == oid):
                raise Unsupported("insert")
            if len(vs) == 3 and isinstance(vs[1], tuple) and vs[1][0] == "it":
                src = vs[1][1]
                for s3, l in it.it_range(s, vs[1], vs[2]):
                    items = s3.r(src).items
                    el = [elem_value(it, s3, items[x]) for x in l]
                    s3.w(oid).wr["#"] = line
                    if vs[0][2] == "end":
                        s3.w(oid).items += el
                        yield s3, ("it", oid, "end")
                        continue
                    for s4, p in it.it_pos(s3, vs[0]):
                        w = s4.w(oid)
                        w.items[p:p] = el
                        yield s4, ("it", oid, p)
            elif len(vs) == 3 and isinstance(vs[1], int):
                if vs[1] > 700 or vs[1] < 0:
                    raise Unsupported("insert of %d elements" % vs[1])
                for s2, p in it.it_pos(s, vs[0]):
                    w = s2.w(oid)
                    w.items[p:p] = [elem_value(it, s2, vs[2]) for _ in range(vs[1])]
                    w.wr["#"] = line
                    yield s2, ("it", oid, p)
            elif len(vs) == 2 and not braces(args[1]):
                for s2, p in it.it_pos(s, vs[0]):
                    w = s2.w(oid)
                    w.items.insert(p, elem_value(it, s2, vs[1]))
                    w.wr["#"] = line
                    yield s2, ("it", oid, p)
            else:
                raise Unsupported("insert")
    elif fn == "data":
        for s in it.expand(st, oid):
            yield s, ("pl", ("e", oid, 0))
    elif fn == "erase":
        for s, vs in it.evs(args, st):
            for s2, a in it.it_pos(s, vs[0]):
                if len(vs) == 2:
                    for s3, b in it.it_pos(s2, vs[1]):
                        del s3.w(oid).items[a:b]
                        s3.w(oid).wr["#"] = line
                        yield s3, ("it", oid, a)
                else:
                    if not 0 <= a < len(s2.r(oid).items):
                        s2.issue("oob", "erase() of no element", line)
                        it.dead(s2)
                        continue
                    del s2.w(oid).items[a]
                    s2.w(oid).wr["#"] = line
                    yield s2, ("it", oid, a)
    elif fn == "resize":
        for s, vs in it.evs(args, st):
            for s2, n in it.force(s, vs[0]):
                if not isinstance(n, int) or n > 700:
                    raise Unsupported("vector::resize")
                for s3 in it.expand(s2, oid):
                    w = s3.w(oid)
                    fill = vs[1] if len(vs) > 1 else it.zeroval(s3, w.elem)
                    w.items = w.items[:n] + [elem_value(it, s3, fill) for _ in range(n - len(w.items))]
                    w.wr["#"] = line
                    yield s3, VOID
    elif fn == "assign":
        for s, vs in it.evs(args, st):
            if len(vs) == 2 and isinstance(vs[0], int):
                el = [elem_value(it, s, vs[1]) for _ in range(vs[0])]
                states = [(s, el)]
            elif len(vs) == 2 and isinstance(vs[0], tuple) and vs[0][0] == "it":
                states = []
                for s3, l in it.it_range(s, vs[0], vs[1]):
                    items = s3.r(vs[0][1]).items
                    states.append((s3, [elem_value(it, s3, items[x]) for x in l]))
            else:
                raise Unsupported("vector::assign")
            for s3, el in states:
                w = s3.w(oid)
                w.items, w.pre = el, None
                w.wr["#"] = line
                yield s3, VOID
    else:
        raise Unsupported("vector::" + fn)


def braces(a):
    """an argument written as {a, b, c}"""
    while a.get("k") in ("Temp", "Paren", "Cast", "Bind", "Cleanup") and isinstance(a.get("e"), dict):
        a = a["e"]
    return a.get("k") in ("InitList", "StdInitList") or strip(a.get("t", "")).startswith("std::initializer_list<")


def is_move(e):
    return e["k"] == "Call" and e.get("qn") in ("std::move", "std::forward")


def vec_assign(it, st, dst, src, moved):
    so = st.r(src)
    w = st.w(dst)
    if w.pre is not None and w.label and pointee(w.elem or "") is not None and w.alloc not in ("stack",):
        st.flags["lost"] = st.flags.get("lost", ()) + ((w.label, 0, w.null, dst),)
    w.items = list(so.items)
    w.pre, w.tag, w.label, w.opq, w.elemcands = so.pre, so.tag, so.label, so.opq, so.elemcands
    if moved:
        x = st.w(src)
        x.items, x.pre = [], None
        x.wr["#"] = 1


def swap_objs(st, a, b):
    x, y = st.w(a), st.w(b)
    for n in ("items", "pre", "tag", "label", "opq", "elemcands", "f"):
        p, q = getattr(x, n), getattr(y, n)
        setattr(x, n, q)
        setattr(y, n, p)
    x.wr["#"] = y.wr["#"] = 1


def item_loc(st, oid, i):
    v = st.r(oid).items[i]
    if isinstance(v, tuple) and v[0] == "obj":
        return ("loc", ("o", v[1]))
    return ("loc", ("e", oid, i))


def size_of(st, oid):
    o = st.r(oid)
    if o.pre is None:
        return len(o.items)
    return ("size", oid, len(o.items))


def set_method(it, st, oid, fn, args, e):
    if fn in ("insert", "emplace"):
        if len(args) != 1 or braces(args[0]):
            raise Unsupported("set::insert of several elements")
        for s, v in it.ev(args[0], st):
            for s2, present in member_in(it, s, oid, v):
                if not present:
                    w = s2.w(oid)
                    w.items.append(v)
                    w.wr["#"] = e.get("l", 0)
                p = Obj("struct", "std::pair<int,bool>")
                p.f = {"first": ("it", oid, 0), "second": int(not present)}
                yield s2, ("obj", s2.new(p))
    elif fn in ("count", "contains"):
        for s, v in it.ev(args[0], st):
            for s2, present in member_in(it, s, oid, v):
                yield s2, int(present)
    elif fn == "find":
        for s, v in it.ev(args[0], st):
            for s2, present in member_in(it, s, oid, v):
                if present:
                    f = Obj("frame", "", "stack", "found")
                    f.f["v"] = v
                    yield s2, ("it", oid, ("found", v))
                else:
                    yield s2, ("it", oid, "end")
    elif fn in ("size", "empty"):
        o = st.r(oid)
        if o.pre is None or it.enum_values(o.elem or ""):
            for s in it.expand(st, oid):
                n = len(s.r(oid).items)
                yield s, n if fn == "size" else int(not n)
        else:
            yield st, size_of(st, oid) if fn == "size" else ("app", "empty", o.label)
    elif fn in ("begin", "cbegin"):
        ordered(st, oid)
        yield st, ("it", oid, 0)
    elif fn in ("end", "cend"):
        yield st, ("it", oid, "end")
    elif fn == "clear":
        w = st.w(oid)
        w.items, w.pre = [], None
        w.wr["#"] = e.get("l", 0)
        yield st, VOID
    else:
        raise Unsupported("set::" + fn)


def own_order(o):
    more = targs(o.cls)[2 if o.kind == "map" else 1:]
    return any(not x.startswith(("std::less<", "std::allocator<")) for x in more)


def ordered(st, oid):
    """bring the elements of a set or map in the order in which they are visited"""
    o = st.r(oid)
    if o.kind not in ("set", "map") or len(o.items) < 2 or o.pre is not None or o.opq:
        return
    keys = [st.r(v[1]).f.get("first") if o.kind == "map" else v for v in o.items]
    if "unordered" in o.cls or not all(isinstance(k, int) for k in keys) or own_order(o):
        raise Unsupported("order of the elements of " + o.cls[:30])
    st.w(oid).items = [v for _, v in sorted(zip(keys, o.items), key=lambda x: x[0])]


def is_string(st, v):
    return isinstance(v, tuple) and (v[0] == "obj" and st.r(v[1]).kind == "string")


def key_text(it, st, v):
    """content of a key that is a text"""
    if is_string(st, v) or isinstance(v, tuple) and (v[0] in ("str", "cs") or v[0] == "ptr" and st.r(v[1]).kind == "cstr"):
        return it.content(st, v)
    return None


def text_eq(it, st, a, b):
    """fork on the equality of two texts"""
    r = str_compare(it, st, a, b, False)
    if r is None:
        raise Unsupported("comparison of keys")
    yield from it.eq(st, r, 0)


def member_in(it, st, oid, v):
    """fork on membership of v in a set object"""
    o = st.r(oid)
    if o.pre is None and (o.elem or "").replace("const ", "").startswith(("std::basic_string<", "std::string")):
        t = key_text(it, st, v)
        if t is None or own_order(o) and "unordered" not in o.cls:
            raise Unsupported("set of texts")
        live = [st]
        for x in o.items:
            nxt = []
            for s in live:
                for s2, q in text_eq(it, s, t, it.content(s, x)):
                    if q:
                        yield s2, True
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            yield s, False
        return
    k = it.known(st, v)
    if k is not None:
        v = k
    if v in o.items:
        yield st, True
        return
    if o.pre is None:
        syms = [x for x in o.items if not isinstance(x, int)]
        if isinstance(v, int):
            for x in syms:
                for s, q in it.eq(st, x, v):
                    if q:
                        yield s, True
                    else:
                        st = s
                        # the remaining elements on the unequal branch
                        yield from member_rest(it, s, syms[syms.index(x) + 1:], v)
                return
            yield st, False
            return
        if not o.items:
            yield st, False
            return
        states = [st]
        for x in o.items:
            nxt = []
            for s in states:
                if isinstance(x, int):
                    gen = it.eq(s, v, x)
                else:
                    gen = it.atom(s, ("==",) + tuple(sorted([it.term(s, x), it.term(s, v)], key=str)))
                for s2, q in gen:
                    if q:
                        yield s2, True
                    else:
                        nxt.append(s2)
            states = nxt
        for s in states:
            yield s, False
        return
    # elements from outside: unknown membership
    for s, q in it.atom(st, ("in", o.label, it.term(st, v))):
        yield s, q


def member_rest(it, st, syms, v):
    if not syms:
        yield st, False
        return
    for s, q in it.eq(st, syms[0], v):
        if q:
            yield s, True
        else:
            yield from member_rest(it, s, syms[1:], v)


def map_pairs(st, oid):
    o = st.r(oid)
    out = []
    for v in o.items:
        if isinstance(v, tuple) and v[0] == "obj":
            p = st.r(v[1])
            out.append((p.f.get("first"), v))
    return out


def new_pair(it, st, oid, key):
    """a map gets an element with a zero value"""
    ts = targs(st.r(oid).cls)
    if own_order(st.r(oid)) and "unordered" not in st.r(oid).cls:
        raise Unsupported("map with a comparison of its own")
    p = it.fresh(st, "std::pair<const %s, %s>" % (ts[0], ts[1]))
    w = st.w(p)
    w.f["first"], w.f["second"] = key, it.zeroval(st, ts[1])
    w.wr["first"] = w.wr["second"] = 1
    w = st.w(oid)
    w.items = w.items + [("obj", p)]
    w.wr["#"] = 1
    return p


def map_method(it, st, oid, fn, args, e):
    o = st.r(oid)
    if fn in ("find", "at", "count", "operator[]"):
        if o.pre is not None:
            raise Unsupported("map from outside")
        for s, v in it.ev(args[0], st):
            rest = s
            done = False
            for j, (key, pair) in enumerate(map_pairs(s, oid)):
                if is_string(rest, key):
                    t = key_text(it, rest, v)
                    if t is None:
                        raise Unsupported("map with class keys")
                    hits = []
                    nrest = None
                    for s2, q in text_eq(it, rest, t, it.content(rest, key)):
                        if q:
                            hits.append(s2)
                        else:
                            nrest = s2
                    for hit in hits:
                        if fn == "find":
                            yield hit, ("it", oid, j)
                        elif fn == "count":
                            yield hit, 1
                        else:
                            yield hit, member_loc(hit, pair[1], "second")
                    if nrest is None:
                        done = True
                        break
                    rest = nrest
                    continue
                if isinstance(key, tuple) and key[0] == "obj" or isinstance(v, tuple) and v[0] == "obj":
                    raise Unsupported("map with class keys")
                k = it.known(rest, v)
                if k is not None and isinstance(key, int):
                    if k != key:
                        continue
                    hit = rest
                    done = True
                else:
                    hit = rest.copy()
                    try:
                        if isinstance(v, int):
                            it.assume_eq(hit, key, v, True)
                        else:
                            it.assume_eq(hit, v, key, True)
                    except Infeasible:
                        continue
                if fn == "find":
                    yield hit, ("it", oid, j)
                elif fn == "count":
                    yield hit, 1
                else:
                    yield hit, member_loc(hit, pair[1], "second")
                if done:
                    break
                try:
                    it.assume_eq(rest, v, key, False)
                except Infeasible:
                    done = True
                    break
            if not done:
                if fn == "find":
                    yield rest, ("it", oid, "end")
                elif fn == "count":
                    yield rest, 0
                elif fn == "at":
                    rest.issue("oob", "map::at without such a key", e.get("l", 0))
                    it.dead(rest)
                else:
                    yield rest, member_loc(rest, new_pair(it, rest, oid, v), "second")
    elif fn in ("end", "cend"):
        yield st, ("it", oid, "end")
    elif fn in ("begin", "cbegin"):
        ordered(st, oid)
        yield st, ("it", oid, 0)
    elif fn == "size":
        yield st, size_of(st, oid)
    elif fn == "empty":
        yield st, int(not o.items)
    else:
        raise Unsupported("map::" + fn)


def member_loc(st, oid, name):
    v = st.r(oid).f.get(name)
    if isinstance(v, tuple) and v[0] == "obj":
        return ("loc", ("o", v[1]))
    return ("loc", ("f", oid, name))


def pair_method(it, st, oid, fn, args, e):
    if fn == "operator=":
        for s, l in it.lv(args[0], st):
            it.assign_obj(s, oid, it.objof(s, l), e.get("l", 0))
            yield s, ("loc", ("o", oid))
    else:
        raise Unsupported("method " + fn)


def it_method(it, st, v, loc, fn, args, e):
    if fn == "operator*":
        yield from iter_deref(it, st, v)
    elif fn == "operator->":
        for s, x in iter_deref(it, st, v):
            l = x[1]
            yield s, ("ptr", l[1]) if l[0] == "o" else ("pl", l)
    elif fn == "operator++":
        n = it.add(v, 1)
        it.store(st, loc, n)
        yield st, v if args else ("loc", loc)
    elif fn == "operator--":
        n = it.add(v, -1)
        it.store(st, loc, n)
        yield st, v if args else ("loc", loc)
    elif fn in ("operator+", "operator-", "operator+=", "operator-="):
        for s, d in it.ev(args[0], st):
            if isinstance(d, tuple) and d[0] == "it":
                for s2, a in it.it_pos(s, v):
                    for s3, b in it.it_pos(s2, d):
                        yield s3, b - a if isinstance(v[2], tuple) and v[2][0] == "rev" else a - b
                continue
            k = it.known(s, d)
            if k is None:
                raise Unsupported("iterator arithmetic")
            n = it.add(v, k if "+" in fn else -k)
            if fn.endswith("="):
                it.store(s, loc, n)
                yield s, ("loc", loc)
            else:
                yield s, n
    elif fn == "operator=":
        for s, d in it.ev(args[0], st):
            it.store(s, loc, d)
            yield s, ("loc", loc)
    elif fn in ("operator==", "operator!="):
        for s, d in it.ev(args[0], st):
            yield from it._compare(s, fn[8:], v, d)
    elif fn == "base":
        if isinstance(v[2], tuple) and v[2][0] == "rev":
            for s, p in it.it_pos(st, v):
                yield s, ("it", v[1], p + 1)
            return
        yield st, v
    else:
        raise Unsupported("iterator " + fn)


def iter_deref(it, st, v):
    if isinstance(v[2], tuple) and v[2][0] == "found":
        yield st, ("loc", ("const", v[2][1]))
        return
    for s, l in it.it_loc(st, v):
        yield s, ("loc", l)


def string_method(it, st, oid, fn, args, e):
    it.sync(st)
    o = st.r(oid)
    c = o.f["v"]
    if fn in ("c_str", "data"):
        yield st, c if c[0] == "str" else ("cs", c)
    elif fn in ("size", "length"):
        yield st, len(c[1]) if c[0] == "str" else ("app", "strlen", c)
    elif fn.startswith(("find", "rfind")) or fn == "compare" and len(args) != 1:
        for s, vs in it.evs(args, st):
            r = known_find(fn, c, [it.content(s, v) if isinstance(v, tuple) else v for v in vs]) if fn != "compare" else None
            if r is None and fn == "compare" and len(vs) == 3 and cut(c, vs[0], vs[1]) is not None:
                r = str_compare(it, s, cut(c, vs[0], vs[1]), it.content(s, vs[2]), False)
            if r is not None:
                yield s, r
                continue
            yield s, ("app", "string::" + fn, c) + tuple(it.content(s, v) if isinstance(v, tuple) and v[0] in ("obj", "str", "cs", "ptr", "loc") else it.term(s, v)
                                                    for v in vs)
    elif fn == "empty":
        if c[0] == "str":
            yield st, int(not c[1])
        else:
            yield st, ("not", ("app", "strlen", c))
    elif fn in ("operator+=", "append", "push_back", "operator=", "assign"):
        for s, vs in it.evs(args, st):
            if len(vs) == 1:
                x = text(it, s, vs[0], args[0])
            else:
                x = piece(it, s, vs, args)
            s.w(oid).f["v"] = x if fn in ("operator=", "assign") else cat(s.r(oid).f["v"], x)
            s.w(oid).wr["v"] = 1
            yield s, ("loc", ("o", oid))
    elif fn in ("reserve", "shrink_to_fit"):
        for s, _ in it.evs(args, st):
            yield s, VOID
    elif fn in ("operator[]", "at"):
        for s, v in it.ev(args[0], st):
            if fn == "at" and c[0] == "str" and isinstance(v, int) and not 0 <= v < len(c[1]):
                raise Unsupported("exception from at()")
            yield s, ("loc", it.character(s, oid, c, v))
    elif fn in ("back", "front", "pop_back"):
        if c[0] != "str":
            raise Unsupported("string::" + fn)
        if not c[1]:
            st.issue("oob", "%s() of an empty string" % fn, e.get("l", 0))
            it.dead(st)
            return
        if fn == "pop_back":
            st.w(oid).f["v"] = ("str", c[1][:-1])
            yield st, VOID
        else:
            yield st, ("loc", it.character(st, oid, c, len(c[1]) - 1 if fn == "back" else 0))
    elif fn == "insert" and len(args) == 2:
        for s, vs in it.evs(args, st):
            x = text(it, s, vs[1], args[1])
            if vs[0] == 0:
                r = cat(x, c)
            elif cut(c, 0, vs[0]) is not None and isinstance(vs[0], int):
                r = cat(cat(cut(c, 0, vs[0]), x), cut(c, vs[0], NPOS))
            else:
                raise Unsupported("string::insert")
            s.w(oid).f["v"] = r
            s.w(oid).wr["v"] = 1
            yield s, ("loc", ("o", oid))
    elif fn == "clear":
        st.w(oid).f["v"] = ("str", "")
        yield st, VOID
    elif fn == "substr":
        for s, vs in it.evs(args, st):
            n = Obj("string", "std::basic_string<char>")
            pos, num = (list(vs) + [0, NPOS])[0] if vs else 0, vs[1] if len(vs) > 1 else NPOS
            n.f["v"] = cut(c, pos, num) or ("sub", c) + tuple(it.term(s, v) for v in vs)
            yield s, ("obj", s.new(n))
    elif fn == "compare":
        for s, v in it.ev(args[0], st):
            yield s, str_compare(it, s, c, it.content(s, v), False)
    elif fn in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend"):
        v = it.letters(st, oid)
        yield st, ("it", v, ("rev", fn.endswith("end"), 0) if "r" in fn[:2] else "end" if fn.endswith("end") else 0)
    elif fn == "resize":
        for s, vs in it.evs(args, st):
            c2 = s.r(oid).f["v"]
            if c2[0] != "str" or not isinstance(vs[0], int) or not 0 <= vs[0] <= 1 << 20:
                raise Unsupported("string::resize")
            s.w(oid).f["v"] = ("str", c2[1][:vs[0]] + (chr(vs[1] & 255) if len(vs) > 1 else "\0") * (vs[0] - len(c2[1])))
            s.w(oid).wr["v"] = 1
            yield s, VOID
    elif fn == "erase":
        for s, vs in it.evs(args, st):
            a, n = [it.whole(s, oid, v) for v in vs] if vs else [0], NPOS
            if len(vs) == 2:
                n = a[1] if isinstance(vs[1], int) else a[1] - a[0]
            elif vs and not isinstance(vs[0], int):
                n = 1
            c2 = s.r(oid).f["v"]
            if cut(c2, 0, a[0]) is None or not isinstance(n, int) or n < 0:
                raise Unsupported("string::erase")
            s.w(oid).f["v"] = ("str", c2[1][:a[0]] + c2[1][a[0] + n:])
            s.w(oid).wr["v"] = 1
            yield s, ("loc", ("o", oid)) if not vs or isinstance(vs[0], int) else VOID
    else:
        raise Unsupported("string::" + fn)


def text(it, st, v, a):
    """the characters a value contributes to a string: a character, a C string or a string object"""
    if isinstance(v, int):
        if not -128 <= v < 256:
            raise Unsupported("character code")
        return ("str", chr(v & 255))
    if v == UNINIT:
        st.issue("uninit", "an indeterminate value is appended to a string", a.get("l", 0))
        raise Unsupported("indeterminate string")
    if v == NULL:
        st.issue("null", "a string is made from a null pointer", a.get("l", 0))
        raise Unsupported("null string")
    if isinstance(v, tuple) and v[0] == "obj" and st.r(v[1]).kind not in ("string", "stream"):
        raise Unsupported("string from a %s" % st.r(v[1]).kind)
    if isinstance(v, tuple) and v[0] == "it":
        raise Unsupported("string from iterators")
    if isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).kind == "cstr":
        it.use_cstr(st, v, a)
    return it.content(st, v)


def piece(it, st, vs, args):
    """n copies of a character, or the first n characters of a C string"""
    if len(vs) != 2:
        raise Unsupported("string from %d arguments" % len(vs))
    n, x = vs
    number = strip(args[0].get("t", "")) in NUMBERS
    if number and isinstance(x, int):
        if isinstance(n, int):
            if n < 0 or n > 4096:
                raise Unsupported("%d characters" % n)
            return ("str", chr(x) * n)
        return ("rep", it.term(st, n), x)
    if isinstance(n, tuple) and n[0] == "it":
        return it.between(st, n, x)
    if not number and isinstance(n, tuple) and n[0] == "obj" and st.r(n[1]).kind == "string" and cut(it.content(st, n), x, NPOS) is not None:
        return cut(it.content(st, n), x, NPOS)
    if number or not pointer(args[0]):
        raise Unsupported("string from two arguments")
    # a number of characters, null bytes included
    c = n[1] if isinstance(n, tuple) and n[0] == "cs" else n if isinstance(n, tuple) and n[0] == "str" else text(it, st, n, args[0])
    if x == ("app", "strlen", c):
        return c
    return cut(c, 0, x) or ("sub", c, it.term(st, x))


NUMBERS = ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char", "unsigned char", "signed char",
           "bool")


def pointer(a):
    return strip(a.get("t", "")).endswith("*") or a.get("k") == "Str"


NPOS = (1 << 64) - 1


def cut(c, pos, n):
    """n characters of a text from a position on"""
    if c[0] == "str" and isinstance(pos, int) and isinstance(n, int) and 0 <= pos <= len(c[1]) and n >= 0:
        return ("str", c[1][pos:pos + n])
    return None


def known_find(fn, c, vs):
    """result of a search in a known text for a known text or character"""
    if c[0] != "str" or not vs:
        return None
    x = vs[0]
    if isinstance(x, tuple) and x[0] == "str":
        x = x[1]
    elif isinstance(x, int) and 0 <= x < 128:
        x = chr(x)
    else:
        return None
    back = fn in ("rfind", "find_last_of", "find_last_not_of")
    pos = vs[1] if len(vs) > 1 else NPOS if back else 0
    if not isinstance(pos, int) or len(vs) > 2:
        return None
    s = c[1]
    if fn == "find":
        r = s.find(x, pos) if pos <= len(s) else -1
    elif fn == "rfind":
        r = s.rfind(x, 0, min(pos, len(s)) + len(x))
    else:
        idx = [i for i in range(len(s)) if (s[i] in x) == ("_not_" not in fn) and (i <= pos if back else i >= pos)]
        r = (idx[-1] if back else idx[0]) if idx else -1
    return NPOS if r < 0 else r


def cat(a, b):
    if a == ("str", ""):
        return b
    if b == ("str", ""):
        return a
    if a[0] == "str" and isinstance(b, tuple) and b[0] == "str":
        return ("str", a[1] + b[1])
    l = list(a[1]) if a[0] == "cat" else [a]
    r = list(b[1]) if isinstance(b, tuple) and b[0] == "cat" else [b]
    if l and r and l[-1][0] == "str" and r[0][0] == "str":
        l[-1:] = [("str", l[-1][1] + r[0][1])]
        r = r[1:]
    return ("cat", tuple(l + r))


def emit(it, st, oid, x):
    """something is written to a stream"""
    o = st.r(oid)
    if o.f.get("format") or o.f.get("preset"):
        raise Unsupported("a stream with a changed format or content")
    if o.alloc == "stack" or "stringstream" in o.cls:
        st.w(oid).f["v"] = cat(o.f["v"], x)
    else:
        st.out.append(("w", o.label, x))


def stream_method(it, st, oid, fn, args, e):
    if fn == "operator<<":
        for s, v in it.ev(args[0], st):
            stream_put(it, s, oid, v, e, args[0])
            yield s, ("loc", ("o", oid))
    elif fn == "str":
        if args:
            for s, v in it.ev(args[0], st):
                s.w(oid).f["v"] = it.content(s, v)
                s.w(oid).f["preset"] = int(s.r(oid).f["v"] != ("str", ""))
                yield s, VOID
            return
        n = Obj("string", "std::basic_string<char>")
        n.f["v"] = st.r(oid).f["v"]
        yield st, ("obj", st.new(n))
    elif fn == "clear":
        yield st, VOID
    elif fn == "flush":
        yield st, ("loc", ("o", oid))
    elif fn == "tellp":
        if st.r(oid).f.get("preset"):
            raise Unsupported("position in a stream with preset text")
        c = st.r(oid).f["v"]
        yield st, len(c[1]) if c[0] == "str" else ("app", "strlen", c)
    elif fn in ("setf", "precision", "width", "fill", "unsetf"):
        for s, _ in it.evs(args, st):
            if args:
                s.w(oid).f["format"] = 1
            yield s, 0
    elif fn == "put":
        for s, v in it.ev(args[0], st):
            emit(it, s, oid, ("str", chr(v)) if isinstance(v, int) else ("val", it.term(s, v)))
            yield s, ("loc", ("o", oid))
    elif fn == "write":
        for s, vs in it.evs(args, st):
            c = it.content(s, vs[0])
            emit(it, s, oid, cut(c, 0, vs[1]) or ("sub", c, it.term(s, vs[1])))
            yield s, ("loc", ("o", oid))
    else:
        raise Unsupported("stream::" + fn)


def stream_put(it, st, oid, v, e, a):
    line = e.get("l", 0)
    if isinstance(v, tuple) and v[0] == "fn":
        if v[2] == "endl":
            emit(it, st, oid, ("str", "\n"))
        elif v[2] != "flush":
            raise Unsupported("stream manipulator " + str(v[2]))
        return
    if isinstance(v, tuple) and v[0] in ("unit", "tuple", "lam", "it"):
        raise Unsupported("printing of a " + v[0])
    if v == UNINIT:
        st.issue("uninit", "an indeterminate value is printed", line)
        return
    if v == NULL:
        st.issue("null", "a null string is printed", line)
        return
    t = strip(a.get("t", ""))
    if isinstance(v, int):
        if t in ("char", "signed char", "unsigned char") and v >= 0:
            emit(it, st, oid, ("str", chr(v)))
        else:
            emit(it, st, oid, ("str", str(v)))
        return
    if v[0] in ("str", "cs", "cptr"):
        emit(it, st, oid, it.content(st, v))
        return
    if v[0] == "ptr" and st.r(v[1]).kind == "cstr":
        it.use_cstr(st, v, e)
        emit(it, st, oid, ("val", it.content(st, v)))
        return
    if v[0] == "obj" and st.r(v[1]).kind in ("string", "stream"):
        emit(it, st, oid, it.content(st, v))
        return
    if v[0] == "flt":
        emit(it, st, oid, ("str", str(v[1])))
        return
    emit(it, st, oid, ("val", it.term(st, v)))


def uptr_method(it, st, oid, fn, args, e):
    o = st.r(oid)
    p = o.f.get("p", NULL)
    line = e.get("l", 0)
    if fn == "get":
        yield st, p
    elif fn == "release":
        st.w(oid).f["p"] = NULL
        yield st, p
    elif fn in ("operator->",):
        yield st, p
    elif fn == "operator*":
        yield st, ("loc", it.deref(st, p, line))
    elif fn in ("reset", "operator="):
        if not args:
            new = [(st, NULL)]
        else:
            new = it.ev(args[0], st)
        for s, v in new:
            d = s.r(oid).f.get("d")
            if isinstance(v, tuple) and v[0] == "obj":
                src = v[1]
                v = s.r(src).f["p"]
                s.w(src).f["p"] = NULL
                if s.r(src).f.get("d") is not None:
                    s.w(oid).f["d"] = s.r(src).f["d"]
            s.w(oid).f["p"] = v
            for s2 in let_go(it, s, o.cls, p, d, line):
                yield s2, ("loc", ("o", oid))
    elif fn == "operator bool":
        for s, b in it.truth(st, p):
            yield s, int(b)
    else:
        raise Unsupported("unique_ptr::" + fn)


def let_go(it, st, cls, p, d, line):
    """a unique_ptr releases what it owns"""
    if p == NULL:
        yield st
        return
    ts = targs(cls)
    if len(ts) < 2 or ts[1].startswith("std::default_delete"):
        yield from it.delete(st, p, targ(cls, 0), line)
        return
    for s, q in it.truth(st, p):
        if not q:
            yield s
            continue
        if d is not None:
            for s2, _ in call_with(it, s, d, [p], {"l": line}):
                yield s2
            continue
        fn = [f for f in it.prog.functions.values() if f.get("cls") == strip(ts[1]) and f["name"] == "operator()" and f.get("body")]
        if len(fn) != 1:
            raise Unsupported("deleter " + ts[1])
        i = it.fresh(s, ts[1])
        for s2, _ in it.invoke(fn[0], s, [], i, {"l": line}, values=[p]):
            yield s2


# ------------------------------------------------------------------------------------------------ free functions
def str_compare(it, st, a, b, ci):
    if a == NULL or b == NULL:
        return None
    if a[0] == "str" and b[0] == "str":
        x, y = (a[1].lower(), b[1].lower()) if ci else (a[1], b[1])
        return 0 if x == y else (-1 if x < y else 1)
    if b[0] == "str":
        return ("scmp", a, b[1], ci)
    if a[0] == "str":
        return ("scmp", b, a[1], ci)
    return ("app", "strcasecmp" if ci else "strcmp", a, b)


def cstr_arg(it, st, v, e):
    """a C string argument that is read"""
    if v == NULL:
        st.issue("null", "null string is read", e.get("l", 0))
        raise Infeasible("null string")
    if v == UNINIT:
        st.issue("uninit", "an indeterminate string is read", e.get("l", 0))
        raise Infeasible("uninit string")
    if isinstance(v, tuple) and v[0] == "ptr":
        if st.r(v[1]).kind == "raw":
            st.issue("uninit", "a string without content is read", e.get("l", 0))
            raise Unsupported("raw string")
        it.use_cstr(st, v, e)
    c = it.content(st, v)
    if isinstance(c, tuple) and c[0] == "nterm":
        st.issue("uninit", "a string without terminating null byte is read", e.get("l", 0))
    return c


def do_free(it, st, v, line):
    if v == NULL:
        return st
    if v == UNINIT:
        st.issue("uninit", "an indeterminate pointer is released", line)
        it.dead(st)
        return None
    if v[0] != "ptr":
        st.issue("badfree", "free of memory that does not come from malloc", line)
        return st
    o = st.r(v[1])
    if o.null == "null":
        return st
    if o.status == "freed":
        st.issue("double", "%s is released twice" % it.describe(st, v[1]), line)
        return st
    if o.alloc in ("new", "new[]") or (o.opq and o.kind not in ("cstr", "raw")):
        st.issue("badfree", "%s comes from new but is released with free" % it.describe(st, v[1]), line)
    elif (o.label or "").startswith("static "):
        st.issue("badfree", "%s is kept for later calls but is freed" % it.describe(st, v[1]), line)
    elif o.alloc in ("stack", "static", "sub"):
        st.issue("badfree", "%s is not on the heap but is freed" % it.describe(st, v[1]), line)
    st.w(v[1]).status = "freed"
    return st


FMT = re.compile(r"%(\*)?(\d+)?(hh|h|ll|l|j|z)?([diuxscn%]|\[[^\]]*\])")


def free_fn(it, st, e):
    qn = e.get("qn", "")
    name = qn[5:] if qn.startswith("std::") and "::" not in qn[5:] else qn
    line = e.get("l", 0)
    args = e["c"]
    if name == "free":
        for s, v in it.ev(args[0], st):
            r = do_free(it, s, v, line)
            if r is not None:
                yield r, VOID
    elif name in ("malloc", "calloc"):
        for s, vs in it.evs(args, st):
            o = Obj("raw", "void", "malloc", None, False, line)
            o.tag = it.term(s, vs[0])
            if name == "calloc":
                x, y = vs
                o.tag = it.term(s, x if y == 1 else y) if 1 in (x, y) else x * y if isinstance(x, int) and isinstance(y, int) else None
                o.f["zeroed"] = 1
            yield s, ("ptr", s.new(o))
    elif name in ("strdup", "__strdup", "strndup"):
        for s, vs in it.evs(args, st):
            try:
                c = cstr_arg(it, s, vs[0], e)
            except Infeasible:
                it.dead(s)
                continue
            o = Obj("cstr", "char", "malloc", None, False, line)
            o.f["v"] = c if name != "strndup" else ("sub", c, 0, it.term(s, vs[1]))
            yield s, ("ptr", s.new(o))
    elif name in ("strlen",):
        for s, v in it.ev(args[0], st):
            try:
                c = cstr_arg(it, s, v, e)
            except Infeasible:
                it.dead(s)
                continue
            yield s, len(c[1]) if c[0] == "str" else ("app", "strlen", c)
    elif name in ("strcmp", "strcasecmp"):
        for s, vs in it.evs(args, st):
            try:
                a = cstr_arg(it, s, vs[0], e)
                b = cstr_arg(it, s, vs[1], e)
            except Infeasible:
                it.dead(s)
                continue
            yield s, str_compare(it, s, a, b, name == "strcasecmp")
    elif name in ("strncmp", "strncasecmp"):
        for s, vs in it.evs(args, st):
            try:
                a = cstr_arg(it, s, vs[0], e)
                b = cstr_arg(it, s, vs[1], e)
            except Infeasible:
                it.dead(s)
                continue
            if a[0] == "str" and b[0] == "str" and isinstance(vs[2], int):
                yield s, str_compare(it, s, ("str", a[1][:vs[2]]), ("str", b[1][:vs[2]]), name == "strncasecmp")
                continue
            yield s, ("app", name, a, b, it.term(s, vs[2]))
    elif name in ("strncpy", "memcpy", "memmove", "strcpy"):
        for s, vs in it.evs(args, st):
            try:
                c = cstr_arg(it, s, vs[1], e)
            except Infeasible:
                it.dead(s)
                continue
            d = vs[0]
            if not (isinstance(d, tuple) and d[0] == "ptr"):
                raise Unsupported(name)
            w = s.w(d[1])
            if w.status == "freed":
                s.issue("uaf", "a released buffer is written", line)
            if w.kind == "raw":
                w.kind, w.cls = "cstr", "char"
            if w.kind != "cstr":
                raise Unsupported(name)
            off = 0
            base = c
            if c[0] == "suffix":
                base, off = c[1], c[2]
            if name == "strcpy":
                w.f["v"] = c
            elif w.f.pop("zeroed", None):
                # what is not written is zero: terminated when the memory is larger than what is written
                n, size = it.term(s, vs[2]), w.tag
                more = size - n if isinstance(n, int) and isinstance(size, int) else \
                    size[2] if isinstance(size, tuple) and size[0] == "lin" and size[1] == n else \
                    size[2] - n[2] if isinstance(size, tuple) and isinstance(n, tuple) and size[0] == n[0] == "lin" and size[1] == n[1] else \
                    0 if size == n else None
                if more is None:
                    raise Unsupported(name + " into zeroed memory")
                w.f["v"] = ("sub" if more > 0 else "nterm", base, off, n)
            else:
                w.f["v"] = ("nterm", base, off, it.term(s, vs[2]))
            yield s, d
    elif name == "sscanf":
        yield from sscanf(it, st, e)
    elif name in ("atof", "strtod", "strtoll", "strtol", "strtof", "strtold", "strtoull", "strtoul", "atoi", "atol", "atoll"):
        for s, vs in it.evs(args, st):
            try:
                c = cstr_arg(it, s, vs[0], e)
            except Infeasible:
                it.dead(s)
                continue
            rest = ()
            if len(vs) > 1 and vs[1] != NULL:
                p = vs[1]
                l = p[1] if p[0] == "pl" else None
                if l is None:
                    raise Unsupported(name + " end pointer")
                it.store(s, l, ("cs", ("numend", c)))
            if len(vs) > 2:
                rest = (it.term(s, vs[2]),)
            base = {"strtol": "strtoll", "strtoll": "strtoll"}.get(name, name)
            if name in ("strtol", "strtoll"):
                rng = ("app", "range", c)
                for s2, over in it.atom(s, ("overflow", c)):
                    if over:
                        set_errno(it, s2, 34)
                    yield s2, ("app", base, c) + rest
                continue
            yield s, ("app", base, c) + rest
    elif name == "__errno_location":
        yield st, ("pl", errno_loc(it, st))
    elif name in ("fprintf", "printf", "perror", "puts", "fputs", "fwrite", "putchar", "fputc", "putc"):
        for s, vs in it.evs(args, st):
            cprint(it, s, name, vs, args, e)
            yield s, 0
    elif name in ("abort", "exit", "_exit", "__assert_fail", "terminate"):
        for s, _ in it.evs(args, st):
            s.flags["aborted"] = name
            it.dead(s)
        return
    elif name in ("move", "forward", "as_const") and len(args) == 1:
        for s, l in it.lv(args[0], st):
            yield s, ("loc", l)
    elif name == "iter_swap":
        for s, vs in it.evs(args, st):
            if not all(isinstance(v, tuple) and v[0] == "it" for v in vs):
                raise Unsupported("iter_swap")
            for s2, a in it.it_pos(s, vs[0]):
                for s3, b in it.it_pos(s2, vs[1]):
                    x, y = item_loc(s3, vs[0][1], a), item_loc(s3, vs[1][1], b)
                    x, y = x[1], y[1]
                    p, q = it.load(s3, x), it.load(s3, y)
                    it.store(s3, x, q, e.get("l", 0))
                    it.store(s3, y, p, e.get("l", 0))
                    yield s3, VOID
    elif name == "swap":
        for s, a in it.lv(args[0], st):
            for s2, b in it.lv(args[1], s):
                if a[0] == "o" and b[0] == "o":
                    x, y = s2.r(a[1]), s2.r(b[1])
                    if x.kind == "struct":
                        raise Unsupported("swap of structs")
                    swap_objs(s2, a[1], b[1])
                else:
                    x, y = it.load(s2, a), it.load(s2, b)
                    if isinstance(x, tuple) and x[0] == "obj":
                        swap_objs(s2, x[1], y[1])
                    else:
                        it.store(s2, a, y)
                        it.store(s2, b, x)
                yield s2, VOID
    elif name == "exchange":
        for s, a in it.lv(args[0], st):
            for s2, v in it.ev(args[1], s):
                old = it.load(s2, a)
                if isinstance(old, tuple) and old[0] == "obj":
                    n = it.fresh(s2, s2.r(old[1]).cls)
                    swap_objs(s2, n, old[1])
                    if isinstance(v, tuple) and v[0] == "obj":
                        it.assign_obj(s2, old[1], v[1])
                    yield s2, ("obj", n)
                else:
                    it.store(s2, a, v)
                    yield s2, old
    elif name in ("min", "max"):
        if len(args) != 2:
            raise Unsupported("std::" + name)
        for s, vs in it.evs(args, st):
            if all(isinstance(v, int) for v in vs):
                yield s, min(vs) if name == "min" else max(vs)
            else:
                yield s, ("app", name) + tuple(it.term(s, v) for v in vs)
    elif name in ("begin", "cbegin", "end", "cend"):
        for s, l in it.lv(args[0], st):
            yield s, ("it", it.objof(s, l), 0 if "begin" in name else "end")
    elif name == "distance":
        for s, vs in it.evs(args, st):
            for s3, a in it.it_pos(s, vs[0]):
                for s4, b in it.it_pos(s3, vs[1]):
                    yield s4, a - b if isinstance(vs[0][2], tuple) and vs[0][2][0] == "rev" else b - a
    elif name in ("next", "prev"):
        for s, vs in it.evs(args, st):
            d = it.known(s, vs[1]) if len(vs) > 1 else 1
            if not isinstance(d, int) or not (isinstance(vs[0], tuple) and vs[0][0] == "it"):
                raise Unsupported("std::" + name)
            yield s, it.add(vs[0], d if name == "next" else -d)
    elif name in ("sort", "stable_sort", "partial_sort", "nth_element"):
        yield from sort(it, st, e, name if name in ("partial_sort", "nth_element") else None)
    elif name == "for_each":
        for s, vs in it.evs(args, st):
            oid = vs[0][1]
            for s2, l in it.it_range(s, vs[0], vs[1]):
                states = [s2]
                for i in l:
                    nxt = []
                    for x in states:
                        for y, _ in call_with(it, x, vs[2], [item_loc(x, oid, i)], e):
                            nxt.append(y)
                    states = nxt
                for x in states:
                    yield x, vs[2]
    elif name in ("find", "count") and len(args) == 3:
        for s, vs in it.evs(args, st):
            oid = vs[0][1]
            for s1, a in it.it_pos(s, vs[0]):
                for s2, b in it.it_pos(s1, vs[1]):
                    if any(isinstance(v[2], tuple) and v[2][0] == "rev" for v in vs[:2]):
                        raise Unsupported("find from the end")
                    live = [(s2, 0)]
                    for i in range(a, b):
                        nxt = []
                        for x, n in live:
                            for y, q in it._compare(x, "==", x.r(oid).items[i], vs[2]):
                                if q and name == "find":
                                    yield y, ("it", oid, i)
                                else:
                                    nxt.append((y, n + int(bool(q))))
                        live = nxt
                    for x, n in live:
                        yield x, n if name == "count" else ("it", oid, b)
    elif name == "reverse":
        for s, vs in it.evs(args, st):
            for s1, l in it.it_range(s, vs[0], vs[1]):
                w = s1.w(vs[0][1])
                items = [w.items[i] for i in l]
                for i, v in zip(l, reversed(items)):
                    w.items[i] = v
                w.wr["#"] = e.get("l", 0)
                yield s1, VOID
    elif name in ("accumulate", "std::accumulate") and len(args) in (3, 4):
        for s, vs in it.evs(args, st):
            oid = vs[0][1]
            for s1, l in it.it_range(s, vs[0], vs[1]):
                live = [(s1, vs[2])]
                for i in l:
                    nxt = []
                    for x, acc in live:
                        if len(vs) == 4:
                            for y, r in call_with(it, x, vs[3], [acc, item_loc(x, oid, i)], e):
                                nxt.append((y, it.load(y, r[1]) if isinstance(r, tuple) and r[0] == "loc" else r))
                        else:
                            v = x.r(oid).items[i]
                            if not all(isinstance(q, int) for q in (acc, v)):
                                raise Unsupported("std::accumulate")
                            nxt.append((x, acc + v))
                    live = nxt
                yield from live
    elif name in ("remove", "remove_if") and len(args) == 3:
        for s, vs in it.evs(args, st):
            oid = vs[0][1]
            for s1, l in it.it_range(s, vs[0], vs[1]):
                if l != list(range(len(s1.r(oid).items))):
                    raise Unsupported("std::" + name)
                live = [(s1, [])]
                for i in l:
                    nxt = []
                    for x, keep in live:
                        v = x.r(oid).items[i]
                        gen = it._compare(x, "==", v, vs[2]) if name == "remove" else call_with(it, x, vs[2], [item_loc(x, oid, i)], e)
                        for y, r in gen:
                            if isinstance(r, tuple) and r[0] == "loc":
                                r = it.load(y, r[1])
                            for z, q in it.truth(y, r):
                                nxt.append((z, keep if q else keep + [v]))
                    live = nxt
                for x, keep in live:
                    w = x.w(oid)
                    # what is left behind the kept elements has no defined value
                    w.items = keep + [UNINIT] * (len(l) - len(keep))
                    w.wr["#"] = line
                    yield x, ("it", oid, len(keep))
    elif name in ("replace", "replace_if") and len(args) == 4:
        for s, vs in it.evs(args, st):
            oid = vs[0][1]
            for s1, l in it.it_range(s, vs[0], vs[1]):
                live = [s1]
                for i in l:
                    nxt = []
                    for x in live:
                        gen = it._compare(x, "==", x.r(oid).items[i], vs[2]) if name == "replace" else call_with(it, x, vs[2], [item_loc(x, oid, i)], e)
                        for y, r in gen:
                            if isinstance(r, tuple) and r[0] == "loc":
                                r = it.load(y, r[1])
                            for z, q in it.truth(y, r):
                                if q:
                                    w = z.w(oid)
                                    w.items = list(w.items)
                                    w.items[i] = vs[3]
                                    w.wr["#"] = line
                                nxt.append(z)
                    live = nxt
                for x in live:
                    yield x, VOID
    elif name == "count_if" and len(args) == 3:
        for s, vs in it.evs(args, st):
            oid = vs[0][1]
            for s1, l in it.it_range(s, vs[0], vs[1]):
                live = [(s1, 0)]
                for i in l:
                    nxt = []
                    for x, n in live:
                        for y, r in call_with(it, x, vs[2], [item_loc(x, oid, i)], e):
                            if isinstance(r, tuple) and r[0] == "loc":
                                r = it.load(y, r[1])
                            for z, q in it.truth(y, r):
                                nxt.append((z, n + int(bool(q))))
                    live = nxt
                yield from live
    elif name in ("rotate", "std::_V2::rotate"):
        for s, vs in it.evs(args, st):
            for s1, l in it.it_range(s, vs[0], vs[2]):
                for s2, m in it.it_pos(s1, vs[1]):
                    w = s2.w(vs[0][1])
                    k = l.index(m) if m in l else 0
                    items = [w.items[i] for i in l[k:] + l[:k]]
                    for i, v in zip(l, items):
                        w.items[i] = v
                    w.wr["#"] = e.get("l", 0)
                    yield s2, VOID
    elif name in ("back_inserter", "inserter", "front_inserter"):
        for s, l in it.lv(args[0], st):
            if name == "back_inserter":
                yield s, ("unit", "back_inserter", it.objof(s, l))
            else:
                raise Unsupported("std::" + name)
    elif name in ("copy", "move", "transform") and len(args) in (3, 4):
        for s, vs in it.evs(args, st):
            dst = vs[2]
            into = isinstance(dst, tuple) and dst[0] == "it" and isinstance(vs[0], tuple) and vs[0][0] == "it"
            if not into and not (isinstance(dst, tuple) and dst[:2] == ("unit", "back_inserter")):
                raise Unsupported("std::" + name)
            for s1, l in it.it_range(s, vs[0], vs[1]):
                src = s1.r(vs[0][1]).items
                states = [(s1, [])]
                for i in l:
                    if name == "transform":
                        states = [(s3, done + [it.load(s3, r[1]) if isinstance(r, tuple) and r[0] == "loc" else r]) for s2, done in states
                                  for s3, r in call_with(it, s2, vs[3], [item_loc(s2, vs[0][1], i)], e)]
                    else:
                        states = [(s2, done + [src[i]]) for s2, done in states]
                for s2, done in states:
                    if into:
                        for s3, n in it.it_pos(s2, dst):
                            w = s3.w(dst[1])
                            if w.kind not in ("vec", "arr") or isinstance(dst[2], tuple):
                                raise Unsupported("std::" + name)
                            if n + len(done) > len(w.items):
                                s3.issue("oob", "std::%s writes beyond the end" % name, e.get("l", 0))
                                it.dead(s3)
                                continue
                            if any(isinstance(v, tuple) and v[0] == "obj" for v in done):
                                raise Unsupported("std::" + name)
                            w.items = w.items[:n] + done + w.items[n + len(done):]
                            w.wr["#"] = e.get("l", 0)
                            yield s3, ("it", dst[1], n + len(done))
                        continue
                    w = s2.w(dst[2])
                    if w.kind == "string":
                        for v in done:
                            w.f["v"] = cat(w.f["v"], text(it, s2, v, e))
                        w.wr["v"] = e.get("l", 0)
                        yield s2, dst
                        continue
                    if w.kind != "vec":
                        raise Unsupported("std::" + name)
                    w.items = w.items + [elem_value(it, s2, v) for v in done]
                    w.wr["#"] = e.get("l", 0)
                    yield s2, dst
    elif name in ("upper_bound", "lower_bound"):
        for s, vs in it.evs(args, st):
            oid = vs[0][1]
            cmp = vs[3] if len(vs) > 3 else None
            for s1, l in it.it_range(s, vs[0], vs[1]):
                live = [s1]
                for i in l:
                    nxt = []
                    for x in live:
                        y = x.r(oid).items[i]
                        pair = [vs[2], y] if name == "upper_bound" else [y, vs[2]]
                        gen = it._compare(x, "<", *pair) if cmp is None else call_with(it, x, cmp, pair, e)
                        for x2, r in gen:
                            if isinstance(r, tuple) and r[0] == "loc":
                                r = it.load(x2, r[1])
                            for x3, q in it.truth(x2, r):
                                if q == (name == "upper_bound"):
                                    yield x3, ("it", oid, i)
                                else:
                                    nxt.append(x3)
                    live = nxt
                for x in live:
                    yield x, ("it", oid, "end")
    elif name in ("any_of", "all_of", "none_of", "find_if"):
        yield from quantifier(it, st, e, name)
    elif name == "make_pair":
        for s, vs in it.evs(args, st):
            i = it.fresh(s, e["t"])
            w = s.w(i)
            w.f["first"], w.f["second"] = vs
            yield s, ("obj", i)
    elif name in ("tie", "make_tuple", "forward_as_tuple"):
        for s, vs in it.evs(args, st):
            yield s, ("tuple", tuple(vs))
    elif name == "to_string":
        for s, v in it.ev(args[0], st):
            n = Obj("string", "std::basic_string<char>")
            n.f["v"] = ("str", str(v)) if isinstance(v, int) else ("val", it.term(s, v))
            yield s, ("obj", s.new(n))
    elif name == "get" and len(args) == 1:
        for s, l in it.lv(args[0], st):
            raise Unsupported("std::get")
    elif name == "make_unique":
        yield from make_unique(it, st, e)
    elif name == "operator<<":
        # stream << value
        for s, l in it.lv(args[0], st):
            oid = it.objof(s, l)
            for s2, v in it.ev(args[1], s):
                stream_put(it, s2, oid, v, e, args[1])
                yield s2, ("loc", ("o", oid))
    elif name in ("operator==", "operator!=") or qn.endswith("::operator==") or qn.endswith("::operator!="):
        op = "==" if qn.endswith("==") else "!="
        for s, vs in it.evs(args, st):
            a, b = vs
            if isinstance(a, tuple) and a[0] == "tuple" and isinstance(b, tuple) and b[0] == "tuple":
                live = [s]
                for x, y in zip(a[1], b[1]):
                    more = []
                    for s2 in live:
                        for s3, q in it._compare(s2, "==", x, y):
                            if q:
                                more.append(s3)
                            else:
                                yield s3, int(op == "!=")
                    live = more
                for s2 in live:
                    yield s2, int(op == "==")
                continue
            sa = isinstance(a, tuple) and a[0] == "obj"
            sb = isinstance(b, tuple) and b[0] == "obj"
            if sa and s.r(a[1]).kind == "string" or sb and s.r(b[1]).kind == "string":
                c = str_compare(it, s, it.content(s, a), it.content(s, b), False)
                if isinstance(c, int):
                    yield s, int((c == 0) == (op == "=="))
                else:
                    for s2, q in it.eq(s, c, 0):
                        yield s2, int(q == (op == "=="))
                continue
            if sa or sb:
                pa = s.r(a[1]).f.get("p") if sa and s.r(a[1]).kind == "uptr" else a
                pb = s.r(b[1]).f.get("p") if sb and s.r(b[1]).kind == "uptr" else b
                if (pa, pb) == (a, b):
                    raise Unsupported("comparison of objects")
                a, b = pa, pb
            yield from it._compare(s, op, a, b)
    elif name in ("operator+",) or qn.endswith("::operator+"):
        for s, vs in it.evs(args, st):
            n = Obj("string", "std::basic_string<char>")
            n.f["v"] = cat(text(it, s, vs[0], args[0]), text(it, s, vs[1], args[1]))
            yield s, ("obj", s.new(n))
    elif name in ("operator-",) or qn.endswith("::operator-"):
        for s, vs in it.evs(args, st):
            for s2, a in it.it_pos(s, vs[0]):
                for s3, b in it.it_pos(s2, vs[1]):
                    yield s3, a - b
    elif name == "endl":
        raise Unsupported("endl call")
    elif name in ("isdigit", "isspace", "tolower", "toupper", "isalpha", "isalnum"):
        for s, v in it.ev(args[0], st):
            if isinstance(v, int) and 0 <= v < 128:
                ch = chr(v)
                yield s, {"isdigit": ch.isdigit(), "isspace": ch in " \t\n\v\f\r", "isalpha": ch.isalpha(), "isalnum": ch.isalnum(),
                          "tolower": ord(ch.lower()), "toupper": ord(ch.upper())}[name] + 0
                continue
            yield s, ("app", name, it.term(s, v))
    elif name in ("memset",):
        raise Unsupported("memset")
    else:
        raise Unsupported("call of " + qn)


PRINTF = re.compile(r"%(%|(?:hh|h|ll|l|z|j)?[diuxXoeEfgGaAcsp]|[^%]*)")


def cprint(it, st, name, vs, args, e):
    """output through the C library"""
    line = e.get("l", 0)
    if name == "perror":
        st.out.append(("w", "std::cerr", ("val", ("app", "perror"))))
        return
    at = {"fprintf": 0, "fputs": 1, "fwrite": 3, "fputc": 1, "putc": 1}.get(name)
    where = "std::cout"
    if at is not None:
        f = str(vs[at])
        where = "std::cerr" if "stderr" in f else "std::cout" if "stdout" in f else None
        if where is None:
            raise Unsupported("output to a file")
        vs, args = vs[:at] + vs[at + 1:], args[:at] + args[at + 1:]

    def out(x):
        st.out.append(("w", where, x))
    if name in ("puts", "fputs"):
        out(text(it, st, vs[0], args[0]))
        if name == "puts":
            out(("str", "\n"))
    elif name in ("putchar", "fputc", "putc"):
        out(text(it, st, vs[0], args[0]) if isinstance(vs[0], int) else ("val", it.term(st, vs[0])))
    elif name in ("printf", "fprintf"):
        f = vs[0]
        if not (isinstance(f, tuple) and f[0] == "str"):
            raise Unsupported("computed format")
        rest = list(zip(vs[1:], args[1:]))
        last = 0
        for m in PRINTF.finditer(f[1]):
            if m.start() > last:
                out(("str", f[1][last:m.start()]))
            last = m.end()
            k = m.group(1)
            if k == "%":
                out(("str", "%"))
                continue
            if not k or k[-1] not in "diufgGeEscxXop" or not re.match(r"^(hh|h|ll|l|z|j)?[a-zA-Z]$", k):
                raise Unsupported("format %" + k)
            if not rest:
                st.issue("oob", "printf without an argument for %" + k, line)
                raise Unsupported("format")
            v, a = rest.pop(0)
            if v == UNINIT:
                st.issue("uninit", "an indeterminate value is printed", line)
            if k == "s":
                if v == NULL:
                    st.issue("null", "a null string is printed", line)
                    return
                if isinstance(v, tuple) and v[0] == "ptr" and st.r(v[1]).kind == "cstr":
                    it.use_cstr(st, v, e)
                    out(("val", it.content(st, v)))
                else:
                    out(it.content(st, v))
            elif isinstance(v, int) and k[-1] in "diu":
                out(("str", str(v)))
            elif isinstance(v, int) and k == "c":
                out(("str", chr(v)))
            else:
                out(("val", it.term(st, v)))
        if last < len(f[1]):
            out(("str", f[1][last:]))
    else:
        raise Unsupported(name)


def make_unique(it, st, e):
    cls = targ(strip(e["t"]), 0)
    line = e.get("l", 0)
    if cls not in it.prog.records:
        raise Unsupported("make_unique of " + cls)
    fns = [f for f in it.prog.functions.values() if f.get("cls") == cls and f.get("kind") == "ctor" and len(f["params"]) == len(e["c"]) and f.get("body")
           and not (len(f["params"]) == 1 and cls in f["params"][0]["t"].replace("&", " ").split())]
    if len(fns) != 1:
        raise Unsupported("make_unique of " + cls)
    fn = fns[0]
    for s, vs in it.evs(e["c"], st):
        vs = [it.load(s, v[1]) if isinstance(v, tuple) and v[0] == "loc" else v for v in vs]
        i = it.fresh(s, cls, "new", None, False, line)
        for s2, _ in it.invoke(fn, s, [], i, e, values=vs):
            u = it.fresh(s2, strip(e["t"]))
            s2.w(u).f["p"] = ("ptr", i)
            yield s2, ("obj", u)


def errno_loc(it, st):
    key = ("g", "errno")
    if key not in st.env:
        o = Obj("frame", "", "static", "errno")
        o.f["v"] = it.opaque_scalar(st, "int", "errno")
        st.env[key] = ("f", st.new(o), "v")
    return st.env[key]


def set_errno(it, st, v):
    it.store(st, errno_loc(it, st), v)


def passed(p, v):
    """a number as the type of the parameter has it"""
    from absint import INTW
    t = strip(p.get("t", ""))
    if not isinstance(v, int) or isinstance(v, bool) or t not in INTW or t == "bool" or p.get("ref"):
        return v
    n = v % (1 << INTW[t])
    return n if t.startswith("unsigned") or n < 1 << (INTW[t] - 1) else n - (1 << INTW[t])


def call_with(it, st, f, vals, e):
    if isinstance(f, tuple) and f[0] == "lam":
        node, env = it.globs["#lam"][f[2]]
        vs = []
        for p, v in zip(node["params"], vals):
            if isinstance(v, tuple) and v[0] == "loc" and not p.get("ref"):
                v = it.load(st, v[1])
            vs.append(passed(p, v))
        yield from it.run_body(node, st, vs, env)
        return
    if isinstance(f, tuple) and f[0] == "fn":
        fn = it.find_fn(f[1])
        if fn and fn.get("body"):
            vs = []
            for p, v in zip(fn["params"], vals):
                if isinstance(v, tuple) and v[0] == "loc" and not p.get("ref"):
                    v = it.load(st, v[1])
                vs.append(passed(p, v))
            yield from it.invoke(fn, st, [], None, e, values=vs)
            return
        if f[2] == "free":
            v = vals[0]
            if isinstance(v, tuple) and v[0] == "loc":
                v = it.load(st, v[1])
            r = do_free(it, st, v, e.get("l", 0))
            if r is not None:
                yield r, VOID
            return
    raise Unsupported("callable")


def quantifier(it, st, e, name):
    for s, vs in it.evs(e["c"], st):
        oid = vs[0][1]
        if isinstance(vs[0][2], tuple) and vs[0][2][0] == "rev" and name == "find_if":
            raise Unsupported("find_if from the end")
        for s1, b in it.it_pos(s, vs[1]):
            for s2, l in it.it_range(s1, vs[0], vs[1]):
                live = [s2]
                for i in l:
                    nxt = []
                    for x in live:
                        for y, r in call_with(it, x, vs[2], [item_loc(x, oid, i)], e):
                            if isinstance(r, tuple) and r[0] == "loc":
                                r = it.load(y, r[1])
                            for z, q in it.truth(y, r):
                                stop = (not q) if name == "all_of" else q
                                if stop:
                                    yield z, ("it", oid, i) if name == "find_if" else int(name == "any_of")
                                else:
                                    nxt.append(z)
                    live = nxt
                for x in live:
                    yield x, ("it", oid, b) if name == "find_if" else int(name != "any_of")


def sort(it, st, e, part=None):
    args = e["c"]
    for s, vs in it.evs(args, st):
        oid = vs[0][1]
        mid = vs.pop(1) if part else None
        for s1, l in it.it_range(s, vs[0], vs[1]):
            states = [(s1, [])]
            for i in l:
                nxt = []
                for x, done in states:
                    v = x.r(oid).items[i]
                    # insert behind the last element that v is not less than
                    nxt += insert_sorted(it, x, done, v, vs[2] if len(vs) > 2 else None, e)
                states = nxt
            for x, done in states:
                if part:
                    pos = [p for _, p in it.it_pos(x, mid)]
                    if len(pos) != 1 or l and pos[0] < l[0]:
                        raise Unsupported("std::" + part)
                    k = pos[0] - (l[0] if l else 0)
                    # the order of the rest is not specified
                    done = done[:k] + done[k:][::-1] if part == "partial_sort" else done[:k][::-1] + done[k:k + 1] + done[k + 1:][::-1]
                w = x.w(oid)
                w.items = list(w.items)
                for i, v in zip(l, done):
                    w.items[i] = v
                w.wr["#"] = e.get("l", 0)
                yield x, VOID


def insert_sorted(it, st, done, v, cmp, e):
    out = []
    work = [(st, len(done))]
    while work:
        s, p = work.pop()
        if p == 0:
            out.append((s, [v] + done))
            continue
        if cmp is None:
            gen = it._compare(s, "<", v, done[p - 1])
        else:
            gen = call_with(it, s, cmp, [v, done[p - 1]], e)
        for s2, r in gen:
            if isinstance(r, tuple) and r[0] == "loc":
                r = it.load(s2, r[1])
            for s3, q in it.truth(s2, r):
                if q:
                    work.append((s3, p - 1))
                else:
                    out.append((s3, done[:p] + [v] + done[p:]))
    return out


def sscanf(it, st, e):
    for s, vs in it.evs(e["c"], st):
        try:
            c = cstr_arg(it, s, vs[0], e)
        except Infeasible:
            it.dead(s)
            continue
        if not (isinstance(vs[1], tuple) and vs[1][0] == "str"):
            raise Unsupported("sscanf with a computed format")
        fmt = vs[1][1]
        convs = []
        for m in FMT.finditer(fmt):
            if m.group(4) == "%" or m.group(1):
                continue
            convs.append((m.group(4), m.group(2), m.group(3) or ""))
        outs = vs[2:]
        if len(convs) != len(outs):
            s.issue("oob", "sscanf: %d conversions but %d arguments" % (len(convs), len(outs)), e.get("l", 0))
            raise Unsupported("sscanf")
        counted = [i for i, x in enumerate(convs) if x[0] != "n"]
        n = len(counted)
        res = ("app", "sscanf", c, fmt)
        # one state for every number of conversions that succeed
        for k in list(range(0, n + 1)):
            variants = [False]
            if k == n and convs and convs[-1][0] == "n":
                # %n is reached only if the text between the last conversion and it matches
                between = re.split(r"%[^%]*$", fmt)[0]
                variants = [False] if fmt.endswith("%n") and re.search(r"(%\d*(?:hh|h|ll|l)?[diuxsc]|%\d*\[[^\]]*\])%n$", fmt) else [False, True]
            for miss in variants:
                x = s.copy()
                done = 0
                ok = True
                for i, (cv, width, mod) in enumerate(convs):
                    if cv == "n":
                        if done < k or (done == k and k < n) or (done == k == n and not miss):
                            if done <= k and not (done == k and k < n and i >= counted[k]):
                                put(it, x, outs[i], ("app", "scann", c, fmt), e, False, mod)
                        continue
                    if done < k:
                        put(it, x, outs[i], ("app", "scan", c, fmt, done, cv, width, mod), e, cv in "sc[" or cv.startswith("["), mod, width)
                        done += 1
                x.trace.append(("==", res, k))
                x.dom[("scanf", c, fmt)] = ("in", frozenset([k]))
                yield x, k
        # nothing at all could be read
        x = s.copy()
        x.trace.append(("==", res, -1))
        yield x, -1


SIZES = {"": ("int", "unsigned int"), "l": ("long", "unsigned long"), "ll": ("long", "unsigned long", "long long", "unsigned long long"),
         "h": ("short",), "hh": ("char", "signed char")}


def put(it, st, dest, v, e, is_str, mod, width=None):
    if isinstance(dest, tuple) and dest[0] == "pl":
        l = dest[1]
        it.store(st, l, v, e.get("l", 0))
        return
    if isinstance(dest, tuple) and dest[0] == "ptr" and is_str:
        w = st.w(dest[1])
        if w.kind != "cstr":
            raise Unsupported("sscanf into " + w.kind)
        size = w.tag if isinstance(w.tag, int) else None
        if width is None or size is not None and int(width) + 1 > size:
            st.issue("oob", "sscanf can write beyond the end of the buffer of %s bytes" % size, e.get("l", 0))
        w.f["v"] = v
        return
    raise Unsupported("sscanf destination")

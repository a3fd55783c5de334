"""Models of the library functions whose MIR is not available or is written in
terms of raw memory.  Everything else from core is analysed from its MIR."""
import re
from gvf import N, NT, UNDEF, St, Imprecise

_exact = {}
_pats = []


def model(*names):
    def d(f):
        for n in names:
            if n.startswith("re:"):
                _pats.append((re.compile(n[3:]), f))
            else:
                _exact[n] = f
        return f
    return d


_cache = {}


def lookup(name, inst):
    f = _cache.get(name, 0)
    if f == 0:
        f = _exact.get(name)
        if f is None:
            for p, g in _pats:
                if p.fullmatch(name):
                    f = g
                    break
        _cache[name] = f
    return f


def deref(e, c, i, st):
    """content and targets of reference argument i"""
    t = e.prog.types[c.atys[i]]
    tg = e.targets(c.args[i], t["e"], st)
    out = None
    for g, r, p in tg:
        v = e.rd(st, r, p)
        out = v if out is None else e.mux(g, v, out)
    return out, tg, t["e"]


def fresh(st):
    return St(st.g, dict(st.m))


def unit(e, ty):
    return NT("A", ty, ((0, 1, ()),))


def opt(e, ty, some, val):
    """Option value: Some(val) under guard some"""
    vs = e.prog.types[ty]["vs"]
    ix = {v["n"]: i for i, v in enumerate(vs)}
    return e.mkA(ty, [(ix["None"], e.b.NOT(some), ()), (ix["Some"], some, (val,))])


def issome(e, v, ty):
    some = next(i for i, x in enumerate(e.prog.types[ty]["vs"]) if x["n"] == "Some")
    for vv, g, fs in e.expand(v, ty).a[1]:
        if vv == some:
            return g
    return 0


def mkopt(e, ty):
    """the type Option<ty>, which the program itself does not mention"""
    n = "std::option::Option<%s>" % e.prog.types[ty]["n"]
    e.prog.types.append({"k": "adt", "n": n, "def": "std::option::Option", "ak": "enum", "args": [ty], "local": False,
                         "vs": [{"n": "None", "d": 0, "f": []}, {"n": "Some", "d": 1, "f": [{"n": "0", "t": ty}]}]})
    return len(e.prog.types) - 1


# ------------------------------------------------------------------ mem
@model("std::mem::replace", "core::mem::replace")
def m_replace(e, c, st):
    old, tg, ty = deref(e, c, 0, st)
    s = fresh(st)
    e.wr(s, tg, c.args[1])
    return old, s


@model("std::mem::swap", "core::mem::swap")
def m_swap(e, c, st):
    a, ta, ty = deref(e, c, 0, st)
    b, tb, _ = deref(e, c, 1, st)
    s = fresh(st)
    e.wr(s, ta, b)
    e.wr(s, tb, a)
    return unit(e, c.dty), s


@model("std::ptr::read", "core::ptr::read", "std::intrinsics::read_via_copy")
def m_ptrread(e, c, st):
    return deref(e, c, 0, st)[0], fresh(st)


@model("std::ptr::write", "core::ptr::write", "std::intrinsics::write_via_move")
def m_ptrwrite(e, c, st):
    _, tg, ty = deref(e, c, 0, st)
    s = fresh(st)
    e.wr(s, tg, c.args[1])
    return unit(e, c.dty), s


@model("std::intrinsics::assume", "std::hint::assert_unchecked", "core::hint::assert_unchecked")
def m_assume(e, c, st):
    v = c.args[0]
    s = fresh(st)
    if v.k == "B":
        e.assume = e.b.AND(e.assume, e.b.IMP(st.g, v.a[0]))
        s.g = e.b.AND(s.g, v.a[0])
    return unit(e, c.dty), s


@model("std::intrinsics::cold_path", "std::intrinsics::likely", "std::intrinsics::unlikely")
def m_cold(e, c, st):
    return (unit(e, c.dty) if not c.args else c.args[0]), fresh(st)


@model("re:(std|core)::intrinsics::(unlikely|likely)", "std::hint::black_box")
def m_ident(e, c, st):
    return c.args[0], fresh(st)


@model("std::intrinsics::integer_min")
def m_imin(e, c, st):
    a, b = c.args
    return e.mux(e.lt(a, b), a, b), fresh(st)


@model("std::intrinsics::integer_max")
def m_imax(e, c, st):
    a, b = c.args
    return e.mux(e.lt(a, b), b, a), fresh(st)


@model("std::intrinsics::saturating_sub")
def m_ssub(e, c, st):
    a, b = c.args
    l = e.lt(a, b)
    return e.mux(l, e.I(0), e.sub(a, b)), fresh(st)


@model("std::intrinsics::saturating_add")
def m_sadd(e, c, st):
    v = e.add(*c.args)
    o = e.overflow("Add", v, c.dty)
    bits = e.prog.types[c.dty]["bits"]
    return e.mux(o, e.I((1 << bits) - 1), v), fresh(st)


@model("re:std::intrinsics::(add|sub|mul)_with_overflow")
def m_ovf(e, c, st):
    op = {"a": "Add", "s": "Sub", "m": "Mul"}[c.inst["def"].split("::")[-1][0]]
    v = e.binop(op, c.args[0], c.args[1], c.atys[0], c.atys[0], st)
    o = e.overflow(op, v, c.atys[0])
    return e.mkA(c.dty, [(0, 1, (v, e.B(o)))]), fresh(st)


@model("re:std::intrinsics::(wrapping|unchecked)_(add|sub|mul)")
def m_wrap(e, c, st):
    op = {"a": "Add", "s": "Sub", "m": "Mul"}[c.inst["def"].split("::")[-1].split("_")[1][0]]
    return e.binop(op, c.args[0], c.args[1], c.atys[0], c.atys[0], st), fresh(st)


@model("std::intrinsics::three_way_compare")
def m_cmp3(e, c, st):
    return e.binop("Cmp", c.args[0], c.args[1], c.atys[0], c.dty, st), fresh(st)


@model("std::intrinsics::discriminant_value")
def m_disc(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    return e.disc(v, ty), fresh(st)


@model("std::intrinsics::transmute", "std::mem::transmute", "std::intrinsics::transmute_unchecked")
def m_transmute(e, c, st):
    return e.cast("Transmute", c.args[0], c.atys[0], c.dty, st), fresh(st)


@model("std::mem::forget", "std::mem::drop", "core::mem::forget", "std::mem::ManuallyDrop::<T>::drop")
def m_forget(e, c, st):
    return unit(e, c.dty), fresh(st)


# ---------------------------------------------------------- deref identities
@model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
       "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "std::vec::Vec::<T, A>::as_mut_ptr", "std::vec::Vec::<T, A>::as_ptr",
       "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow",
       "std::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
def m_vderef(e, c, st):
    return c.args[0], fresh(st)


# ------------------------------------------------------------- len / emptiness
@model("std::vec::Vec::<T, A>::len", "std::collections::VecDeque::<T, A>::len",
       "std::collections::HashMap::<K, V, S, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "std::string::String::len")
def m_len(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    return e.lenof(v, ty), fresh(st)


@model("std::vec::Vec::<T, A>::is_empty", "std::collections::VecDeque::<T, A>::is_empty",
       "std::collections::HashMap::<K, V, S, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty")
def m_isempty(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    return e.B(e.eqc(e.lenof(v, ty), 0)), fresh(st)


# ------------------------------------------------------------- HashMap
def map_has(e, m, key, mty):
    """guard: key present in map value m"""
    out = 0
    for t, g in e.galts(m):
        out = e.b.OR(out, e.b.AND(g, has_t(e, t, key, mty)))
    return out


def has_t(e, t, key, mty):
    if t.k == "X" and t.a[0] == "put":
        q = e.veq(key, t.a[3])
        if q == 1:
            return 1
        return e.b.ite(q, 1, map_has(e, t.a[2], key, mty))
    if t.k == "X" and t.a[0] == "new":
        return 0
    return e.atom("bool", NT("X", "has", None, e.G1(t), key))


def keyval(e, c, i, st):
    return e.content(c.args[i], c.atys[i], st)


@model("std::collections::HashMap::<K, V, S, A>::get", "std::collections::HashMap::<K, V, S, A>::get_mut",
       "std::collections::HashMap::<K, V, S>::get", "std::collections::HashMap::<K, V, S>::get_mut")
def m_mapget(e, c, st):
    m, tg, ty = deref(e, c, 0, st)
    k = keyval(e, c, 1, st)
    has = map_has(e, m, k, ty)
    ref = e.mkG([(NT("R", r, tuple(p) + (("k", k),)), g) for g, r, p in tg])
    return opt(e, c.dty, has, ref), fresh(st)


@model("std::collections::HashMap::<K, V, S, A>::contains_key", "std::collections::HashMap::<K, V, S>::contains_key")
def m_mapck(e, c, st):
    m, tg, ty = deref(e, c, 0, st)
    return e.B(map_has(e, m, keyval(e, c, 1, st), ty)), fresh(st)


@model("re:<(&'a )?std::collections::HashMap<K, V, S(, A)?> as std::ops::Index<&Q>>::index")
def m_mapindex(e, c, st):
    m, tg, ty = deref(e, c, 0, st)
    k = keyval(e, c, 1, st)
    has = map_has(e, m, k, ty)
    bad = e.b.AND(st.g, e.b.NOT(has))
    if bad:
        e.panic(bad, "panic:map-index", c.span, c.fr, [k])
    s = fresh(st)
    s.g = e.b.AND(s.g, has)
    return e.mkG([(NT("R", r, tuple(p) + (("k", k),)), g) for g, r, p in tg]), s


@model("std::collections::HashMap::<K, V, S, A>::insert", "std::collections::HashMap::<K, V, S>::insert")
def m_mapinsert(e, c, st):
    m, tg, ty = deref(e, c, 0, st)
    k = keyval(e, c, 1, st)
    has = map_has(e, m, k, ty)
    old = e.geti(m, ty, k, True)
    s = fresh(st)
    new = putmap(e, m, ty, k, c.args[2])
    e.wr(s, tg, new)
    return opt(e, c.dty, has, old), s


def putmap(e, m, ty, k, v):
    if m.k == "G" and len(m.a[0]) == 1:
        t = m.a[0][0][0]
        if t.k == "X" and t.a[0] == "put" and e.veq(t.a[3], k) == 1:
            m = t.a[2]
    return e.app("put", ty, m, k, v)


@model("std::collections::HashMap::<K, V, S, A>::entry", "std::collections::HashMap::<K, V, S>::entry")
def m_entry(e, c, st):
    # Entry is kept as a record (map reference, key); see or_* below
    k = keyval(e, c, 1, st)
    return e.G1(NT("X", "entry", c.dty, c.args[0], k)), fresh(st)


def _entry(e, c, st):
    al = e.galts(c.args[0])
    if len(al) != 1 or al[0][0].k != "X" or al[0][0].a[0] != "entry":
        return None
    mref, k = al[0][0].a[2], al[0][0].a[3]
    for t, g in e.galts(mref):
        if t.k == "R":
            mty = e.pathty(e.rootty(t.a[0]), t.a[1])
            break
    else:
        return None
    tg = e.targets(mref, mty, st)
    m = None
    for g, r, p in tg:
        v = e.rd(st, r, p)
        m = v if m is None else e.mux(g, v, m)
    return m, tg, mty, k


def _or(e, c, st, mkval):
    x = _entry(e, c, st)
    if x is None:
        return NotImplemented
    m, tg, mty, k = x
    has = map_has(e, m, k, mty)
    s = fresh(st)
    cur = e.geti(m, mty, k, True)
    if has != 1:
        ins = St(e.b.AND(st.g, e.b.NOT(has)), dict(st.m))
        if ins.g:
            v, ins = mkval(e, ins)
            new = e.mux(has, m, putmap(e, m, mty, k, v))
            # only the map changes (default constructors are effect-free)
            e.wr(s, tg, new)
    ref = e.mkG([(NT("R", r, tuple(p) + (("k", k),)), g) for g, r, p in tg])
    return ref, s


@model("std::collections::hash_map::Entry::<'a, K, V>::or_insert", "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert")
def m_orinsert(e, c, st):
    return _or(e, c, st, lambda e, s: (c.args[1], s))


@model("re:std::collections::hash_map::Entry::<'a, K, V(, A)?>::or_insert_with")
def m_orinsertw(e, c, st):
    def mk(e, s):
        return callclosure(e, c.args[1], c.atys[1], [], [], s, c)
    return _or(e, c, st, mk)


@model("re:std::collections::hash_map::Entry::<'a, K, V(, A)?>::or_default")
def m_ordefault(e, c, st):
    vty = e.prog.types[c.dty]["e"]
    def mk(e, s):
        t = e.prog.types[vty]
        if t["k"] in ("uint", "int"):
            return e.I(0), s
        for i in e.prog.insts:
            if i.get("item") == "default" and i["local"] and i.get("self") and t["n"].endswith(i["self"].split("<")[0]):
                rv, s2 = e.call_inst(i, [], s, c.span)
                return rv, s2
        return e.app("default", vty), s
    return _or(e, c, st, mk)


@model("re:std::collections::hash_map::Entry::<'a, K, V(, A)?>::and_modify")
def m_andmodify(e, c, st):
    x = _entry(e, c, st)
    if x is None:
        return NotImplemented
    m, tg, mty, k = x
    has = map_has(e, m, k, mty)
    s1 = St(e.b.AND(st.g, has), dict(st.m))
    s0 = St(e.b.AND(st.g, e.b.NOT(has)), dict(st.m))
    outs = [s0]
    if s1.g:
        ref = e.mkG([(NT("R", r, tuple(p) + (("k", k),)), g) for g, r, p in tg])
        rv, s2 = callclosure(e, c.args[1], c.atys[1], [ref], [None], s1, c)
        outs.append(s2)
    return c.args[0], e.merge(outs)


def callclosure(e, f, fty, args, atys, st, c):
    t = e.prog.types[fty]
    if t["k"] == "closure" and t.get("inst") is not None:
        inst = e.prog.insts[t["inst"]]
        # closure bodies take self by reference unless FnOnce
        bt = e.prog.types[inst["body"]["locals"][1]]
        s = fresh(st)
        if bt["k"] == "ref":
            root = ("loc", ("clo", e.frameid(inst)), 0)
            e.root_ty[root] = fty
            s.m[root] = f
            me = e.G1(NT("R", root, ()))
        else:
            me = f
        return e.call_inst(inst, [me] + args, s, c.span)
    if t["k"] == "fndef" and t.get("inst") is not None:
        inst = e.prog.insts[t["inst"]]
        if "body" in inst:
            return e.call_inst(inst, args, fresh(st), c.span)
    raise Imprecise("closure " + t["n"])


# ------------------------------------------------------------- Vec / VecDeque
@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default",
       "std::collections::VecDeque::<T>::new", "<std::collections::VecDeque<T> as std::default::Default>::default",
       "<std::collections::HashMap<K, V, S> as std::default::Default>::default", "std::collections::HashMap::<K, V>::new",
       "std::collections::HashMap::<K, V, S>::with_hasher", "std::collections::HashMap::<K, V, S>::with_capacity_and_hasher",
       "std::collections::VecDeque::<T>::with_capacity")
def m_new(e, c, st):
    return e.app("new", c.dty), fresh(st)


@model("std::boxed::Box::<T>::new_uninit")
def m_newuninit(e, c, st):
    """room for a boxed value that is written before anything reads it"""
    return e.app("newbox", c.dty), fresh(st)


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(e, c, st):
    """vec![a, b, ..]: the boxed array, as a vector with these elements"""
    bty = c.atys[0]
    mty = e.prog.types[bty]["args"][0]
    v, t = c.args[0], bty
    while e.prog.types[t]["k"] == "adt":
        f = e.prog.types[t]["vs"][0]["f"]
        v, t = e.getf(v, t, 0, 0), f[0]["t"]
    arr = None
    for g, r, p in e.targets(v, mty, st):
        path, ty = p, mty
        while e.prog.types[ty]["k"] == "adt":
            fs = e.prog.types[ty]["vs"][0]["f"]
            k = next(i for i, f in enumerate(fs) if f["n"] != "uninit")
            path, ty = path + (("f", 0, k),), fs[k]["t"]
        y = e.rd(st, r, path)
        arr = y if arr is None else e.mux(g, y, arr)
    out = e.app("new", c.dty)
    for i in range(e.prog.types[ty]["len"]):
        out = e.app("push", c.dty, out, e.content(e.geti(arr, ty, e.I(i)), e.prog.types[ty]["e"], st))
    return out, fresh(st)


@model("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back")
def m_push(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    s = fresh(st)
    e.wr(s, tg, e.app("push", ty, v, e.content(c.args[1], c.atys[1], st)))
    return unit(e, c.dty), s


@model("std::vec::Vec::<T, A>::clear", "std::collections::VecDeque::<T, A>::clear", "std::collections::HashMap::<K, V, S, A>::clear",
       "std::collections::HashMap::<K, V, S>::clear")
def m_clear(e, c, st):
    _, tg, ty = deref(e, c, 0, st)
    s = fresh(st)
    e.wr(s, tg, e.app("new", ty))
    return unit(e, c.dty), s


@model("std::vec::Vec::<T, A>::resize")
def m_resize(e, c, st):
    """filling up a new vector; any other is left alone by this model"""
    v, tg, ty = deref(e, c, 0, st)
    if not all(t.k == "X" and t.a[0] == "new" for t, _ in e.galts(v)):
        return NotImplemented
    s = fresh(st)
    e.wr(s, tg, e.app("filled", ty, c.args[1], e.content(c.args[2], c.atys[2], st)))
    return unit(e, c.dty), s


@model("std::vec::from_elem")
def m_fromelem(e, c, st):
    return e.app("filled", c.dty, c.args[1], e.content(c.args[0], c.atys[0], st)), fresh(st)


@model("std::vec::Vec::<T, A>::extend_from_slice")
def m_extend(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    x = e.content(c.args[1], c.atys[1], st)
    s = fresh(st)
    e.wr(s, tg, e.app("extend", ty, v, x))
    return unit(e, c.dty), s


@model("re:core::slice::<impl \\[T\\]>::rotate_(right|left)")
def m_rotate(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    ln, n = e.lenof(v, ty), c.args[1]
    bad = e.lt(ln, n)
    if e.b.AND(st.g, bad):
        e.panic(e.b.AND(st.g, bad), "rotate", c.span, c.fr, [n, ln])
    s = fresh(st)
    s.g = e.b.AND(s.g, e.b.NOT(bad))
    if c.inst["def"].endswith("left"):
        n = e.mux(e.eq(n, ln), e.I(0), e.sub(ln, n))
    e.wr(s, tg, e.app("rotr", ty, v, n, ln))
    return unit(e, c.dty), s


@model("re:core::slice::<impl \\[T\\]>::swap")
def m_sliceswap(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    i, j, ln = c.args[1], c.args[2], e.lenof(v, ty)
    bad = e.b.OR(e.b.NOT(e.lt(i, ln)), e.b.NOT(e.lt(j, ln)))
    if e.b.AND(st.g, bad):
        e.panic(e.b.AND(st.g, bad), "swap", c.span, c.fr, [i, j, ln])
    s = fresh(st)
    s.g = e.b.AND(s.g, e.b.NOT(bad))
    a, b = e.geti(v, ty, i), e.geti(v, ty, j)
    e.wr(s, tg, e.puti(e.puti(v, ty, i, b), ty, j, a))
    return unit(e, c.dty), s


@model("re:core::slice::<impl \\[T\\]>::(copy_from_slice|clone_from_slice)")
def m_copyfrom(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    x, _, xty = deref(e, c, 1, st)
    bad = e.b.NOT(e.veq(e.lenof(v, ty), e.lenof(x, xty)))
    badg = e.b.AND(st.g, bad)
    if badg:
        e.panic(badg, "copy_from_slice", c.span, c.fr, [e.lenof(v, ty), e.lenof(x, xty)])
    s = fresh(st)
    s.g = e.b.AND(s.g, e.b.NOT(bad))
    e.wr(s, tg, x)
    return unit(e, c.dty), s


def bounds(e, c, st, idx, ln, what):
    ok = e.b.AND(e.lt(idx, ln), e.b.NOT(e.below(idx)))
    bad = e.b.AND(st.g, e.b.NOT(ok))
    if bad:
        e.panic(bad, "bounds:" + what, c.span, c.fr, [ln, idx])
    s = fresh(st)
    s.g = e.b.AND(s.g, ok)
    return s


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       "re:core::slice::index::<impl std::ops::Index(Mut)?<I> for \\[T\\]>::index(_mut)?",
       "re:core::array::<impl std::ops::Index(Mut)?<I> for \\[T; N\\]>::index(_mut)?",
       "re:<std::collections::VecDeque<T, A> as std::ops::Index(Mut)?<usize>>::index(_mut)?")
def m_index(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    it = e.prog.types[c.atys[1]]
    if it["k"] == "uint":
        ln = e.lenof(v, ty)
        s = bounds(e, c, st, c.args[1], ln, "index")
        return e.mkG([(NT("R", r, e.pidx(p, c.args[1])), g) for g, r, p in tg]), s
    # range index: a sub-slice; panics unless start <= end <= len
    ln = e.lenof(v, ty)
    r = rangeof(e, c.args[1], c.atys[1], ln)
    if r is None:
        return NotImplemented
    if r == "full":
        return c.args[0], fresh(st)
    lo, hi = r
    bad = e.b.OR(e.lt(hi, lo), e.lt(ln, hi))
    badg = e.b.AND(st.g, bad)
    if badg:
        e.panic(badg, "bounds:slice", c.span, c.fr, [ln, lo, hi])
    s = fresh(st)
    s.g = e.b.AND(s.g, e.b.NOT(bad))
    return e.mkG([(NT("R", r, e.psub(p, lo, hi)), g) for g, r, p in tg]), s


def rangeof(e, a, aty, ln):
    n = e.prog.types[aty]["n"]
    if n.endswith("RangeFull"):
        return "full"
    if "RangeFrom<" in n:
        return e.getf(a, aty, 0, 0), ln
    if "RangeToInclusive<" in n:
        return e.I(0), e.add(e.getf(a, aty, 0, 0), e.I(1))
    if "RangeTo<" in n:
        return e.I(0), e.getf(a, aty, 0, 0)
    if "RangeInclusive<" in n:
        return None
    if "Range<" in n:
        return e.getf(a, aty, 0, 0), e.getf(a, aty, 0, 1)
    return None


def subslice(e, v, ty, ety, lo, hi):
    # of a subslice: compose offsets
    if v.k == "G" and len(v.a[0]) == 1:
        t = v.a[0][0][0]
        if t.k == "X" and t.a[0] == "slice":
            return subslice(e, t.a[2], None, ety, e.add(t.a[3], lo), e.add(t.a[3], hi))
        if t.k == "X" and t.a[0] == "extend":
            n = e.lenof(t.a[2], None)
            if e.veq(lo, n) == 1 and e.veq(hi, e.lent(t, e.prog.ty_by_name.get("usize"))) == 1:
                return t.a[3]
        if t.k == "X" and t.a[0] == "splice":
            base, l, h, new = t.a[2:]
            if e.veq(lo, l) == 1 and e.veq(hi, h) == 1:
                return new
            if e.lt(lo, h) == 0:
                return subslice(e, base, e.symty_of(t), ety, lo, hi)
    if e.eqc(lo, 0) == 1 and e.veq(hi, e.lenof(v, ty)) == 1:
        return v
    if v.k == "A":
        la, ha = e.galts(lo), e.galts(hi)
        if len(la) == len(ha) == 1 and la[0][0].k == "I" and ha[0][0].k == "I":
            return NT("A", ety, ((0, 1, v.a[1][0][2][la[0][0].a[0]:ha[0][0].a[0]]),))
    return e.app("slice", ety, v, lo, hi)


@model("re:core::slice::<impl \\[T\\]>::split_at(_unchecked)?")
def m_splitat(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    ln = e.lenof(v, ty)
    k = c.args[1]
    bad = e.lt(ln, k)
    badg = e.b.AND(st.g, bad)
    if badg:
        e.panic(badg, "bounds:split_at", c.span, c.fr, [ln, k])
    s = fresh(st)
    s.g = e.b.AND(s.g, e.b.NOT(bad))
    refs = []
    for lo, hi in ((e.I(0), k), (k, ln)):
        root = ("deref", NT("X", "slice", ty, v, lo, hi))
        e.root_ty[root] = ty
        s.m[root] = subslice(e, v, ty, ty, lo, hi)
        refs.append(e.G1(NT("R", root, ())))
    return e.mkA(c.dty, [(0, 1, tuple(refs))]), s


@model("re:core::slice::<impl \\[T\\]>::split_at_mut(_unchecked)?")
def m_splitatmut(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    ln = e.lenof(v, ty)
    k = c.args[1]
    bad = e.lt(ln, k)
    badg = e.b.AND(st.g, bad)
    if badg:
        e.panic(badg, "bounds:split_at_mut", c.span, c.fr, [ln, k])
    s = fresh(st)
    s.g = e.b.AND(s.g, e.b.NOT(bad))
    refs = [e.mkG([(NT("R", r, e.psub(p, lo, hi)), g) for g, r, p in tg]) for lo, hi in ((e.I(0), k), (k, ln))]
    return e.mkA(c.dty, [(0, 1, tuple(refs))]), s


@model("re:core::slice::<impl \\[T\\]>::get(_mut)?", "re:std::collections::VecDeque::<T, A>::get(_mut)?",)
def m_get(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    if len(c.args) > 1 and e.prog.types[c.atys[1]]["k"] == "uint":
        ok = e.lt(c.args[1], e.lenof(v, ty))
        ref = e.mkG([(NT("R", r, e.pidx(p, c.args[1])), g) for g, r, p in tg])
        return opt(e, c.dty, ok, ref), fresh(st)
    ln = e.lenof(v, ty)
    r = rangeof(e, c.args[1], c.atys[1], ln)
    if r is None or r == "full":
        return NotImplemented
    lo, hi = r
    bad = e.b.OR(e.lt(hi, lo), e.lt(ln, hi))
    return opt(e, c.dty, e.b.NOT(bad), e.mkG([(NT("R", r, e.psub(p, lo, hi)), g) for g, r, p in tg])), fresh(st)


@model("re:core::slice::<impl \\[T\\]>::get_unchecked(_mut)?")
def m_getun(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    if e.prog.types[c.atys[1]]["k"] == "uint":
        return e.mkG([(NT("R", r, e.pidx(p, c.args[1])), g) for g, r, p in tg]), fresh(st)
    return NotImplemented


@model("re:std::collections::VecDeque::<T, A>::front(_mut)?", "re:core::slice::<impl \\[T\\]>::first(_mut)?")
def m_front(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    ok = e.b.NOT(e.eqc(e.lenof(v, ty), 0))
    ref = e.mkG([(NT("R", r, e.pidx(p, e.I(0))), g) for g, r, p in tg])
    return opt(e, c.dty, ok, ref), fresh(st)


@model("re:std::collections::VecDeque::<T, A>::back(_mut)?", "re:core::slice::<impl \\[T\\]>::last(_mut)?")
def m_back(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    ln = e.lenof(v, ty)
    ok = e.b.NOT(e.eqc(ln, 0))
    ref = e.mkG([(NT("R", r, e.pidx(p, e.sub(ln, e.I(1)))), g) for g, r, p in tg])
    return opt(e, c.dty, ok, ref), fresh(st)


@model("std::collections::VecDeque::<T, A>::pop_front")
def m_popfront(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    ln = e.lenof(v, ty)
    ok = e.b.NOT(e.eqc(ln, 0))
    s = fresh(st)
    e.wr(s, tg, e.mux(ok, e.app("popfront", ty, v), v))
    return opt(e, c.dty, ok, e.geti(v, ty, e.I(0))), s


@model("std::collections::VecDeque::<T, A>::pop_back", "std::vec::Vec::<T, A>::pop")
def m_popback(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    ln = e.lenof(v, ty)
    ok = e.b.NOT(e.eqc(ln, 0))
    last = e.sub(ln, e.I(1))
    s = fresh(st)
    rest = []
    for t, g in e.galts(v):
        # what was written at the end goes away with it; so does what was pushed
        if t.k == "X" and t.a[0] == "push" and len(t.a) == 4:
            rest.append((g, t.a[2]))
            continue
        while t.k == "X" and t.a[0] == "put" and e.veq(t.a[3], e.sub(e.lenof(e.G1(t), ty), e.I(1))) == 1:
            b = t.a[2]
            t = e.galts(b)[0][0] if b.k == "G" and len(e.galts(b)) == 1 else None
            if t is None:
                t = NT("X", "popback", ty, b)
                break
        else:
            t = NT("X", "popback", ty, e.G1(t))
        rest.append((g, e.G1(t)))
    out = None
    for g, x in rest:
        out = x if out is None else e.mux(g, x, out)
    e.wr(s, tg, e.mux(ok, out, v))
    return opt(e, c.dty, ok, e.geti(v, ty, last)), s


@model("std::collections::VecDeque::<T, A>::insert", "std::vec::Vec::<T, A>::insert")
def m_insertat(e, c, st):
    v, tg, ty = deref(e, c, 0, st)
    i = c.args[1]
    bad = e.lt(e.lenof(v, ty), i)
    badg = e.b.AND(st.g, bad)
    if badg:
        e.panic(badg, "bounds:insert", c.span, c.fr, [i])
    s = fresh(st)
    s.g = e.b.AND(s.g, e.b.NOT(bad))
    e.wr(s, tg, e.app("insertat", ty, v, i, c.args[2]))
    return unit(e, c.dty), s


# -------------------------------------------------------------- comparisons
@model("std::intrinsics::raw_eq", "std::intrinsics::compare_bytes")
def m_raweq(e, c, st):
    a = e.content(c.args[0], c.atys[0], st)
    b = e.content(c.args[1], c.atys[1], st)
    if e.prog.types[c.dty]["k"] == "bool":
        q = e.veq(a, b)
        if q == 1:
            return e.B(1), fresh(st)
        x, y = sorted([a, b], key=lambda n: n.id)
        return e.app("bytes_eq", c.dty, x, y), fresh(st)
    return NotImplemented


@model("re:core::slice::cmp::<impl std::cmp::PartialEq<\\[U\\]> for \\[T\\]>::(eq|ne)", "re:core::array::equality::<impl std::cmp::PartialEq<.*>::(eq|ne)")
def m_sliceeq(e, c, st):
    a = e.content(c.args[0], c.atys[0], st)
    b = e.content(c.args[1], c.atys[1], st)
    q = e.veq(a, b)
    ne = c.inst["def"].endswith("::ne")
    if q == 1:
        return e.B(0 if ne else 1), fresh(st)
    x, y = sorted([a, b], key=lambda n: n.id)
    bty = c.dty
    g = e.atom("bool", NT("X", "bytes_eq", bty, x, y))
    return e.B(e.b.NOT(g) if ne else g), fresh(st)


# ---------------------------------------------------- default() for integers
@model("re:<?(u|i)(8|16|32|64|128|size) as std::default::Default>?::default", "re:<(u|i)(8|16|32|64|128|size) as std::default::Default>::default")
def m_default0(e, c, st):
    return e.I(0), fresh(st)


# ------------------------------------------------------ indirect closure calls
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_callonce(e, c, st):
    t = e.prog.types[c.atys[0]]
    f = c.args[0]
    fty = c.atys[0]
    if t["k"] == "ref":
        f = deref(e, c, 0, st)[0]
        fty = t["e"]
        t = e.prog.types[fty]
    if t["k"] == "fndef" and t.get("inst") is not None:
        inst = e.prog.insts[t["inst"]]
        tt = c.atys[1]
        n = len(e.prog.types[tt]["es"])
        args = [e.getf(c.args[1], tt, 0, i) for i in range(n)]
        atys = [e.prog.types[tt]["es"][i] for i in range(n)]
        return e.dispatch(inst, t, args, atys, c.dty, st, c.span, c.fr)
    return NotImplemented


# ------------------------------------------------------------------ iterators
# An iterator over a map, slice or deque is the collection's reference; `next`
# yields an arbitrary element of it (or None).  Inside a loop, which is analysed
# for one arbitrary iteration, this stands for "every element once".
ITERS = {
    "iter": "re:(std::collections::HashMap::<K, V, S(, A)?>::iter|core::slice::<impl \\[T\\]>::iter|std::collections::VecDeque::<T, A>::iter|<&'a std::collections::HashMap<K, V, S(, A)?> as std::iter::IntoIterator>::into_iter|<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter|<&'a \\[T\\] as std::iter::IntoIterator>::into_iter|core::slice::iter::<impl std::iter::IntoIterator for &'a \\[T\\]>::into_iter)",
    "iter_mut": "re:(std::collections::HashMap::<K, V, S(, A)?>::iter_mut|core::slice::<impl \\[T\\]>::iter_mut|std::collections::VecDeque::<T, A>::iter_mut|<&'a mut std::collections::HashMap<K, V, S(, A)?> as std::iter::IntoIterator>::into_iter|<&'a mut std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter|core::slice::iter::<impl std::iter::IntoIterator for &'a mut \\[T\\]>::into_iter)",
    "values": "re:std::collections::HashMap::<K, V, S(, A)?>::values(_mut)?",
    "keys": "re:std::collections::HashMap::<K, V, S(, A)?>::keys",
}


def mk_iter(kind):
    def f(e, c, st):
        return e.G1(NT("X", "iterover:" + kind, c.dty, c.args[0])), fresh(st)
    return f


for _k, _p in ITERS.items():
    model(_p)(mk_iter(_k))


def site(e, c):
    return tuple((s[0]["id"], str(s[2])) for s in e.stack) + (str(c.span),)


def iter_over(e, c, st):
    """[(guard, kind, ref to the collection)] behind an iterator reference, or None"""
    v, tg, ty = deref(e, c, 0, st)
    if v.k != "G":
        return None
    out = []
    for t, g in e.galts(v):
        if t.k != "X" or not str(t.a[0]).startswith("iterover:"):
            return None
        out.append((g, t.a[0][9:], t.a[2]))
    return out, ty


@model("re:<std::(collections::hash_map|slice|collections::vec_deque)::(Iter|IterMut|Values|ValuesMut|Keys)<'a, .*> as std::iter::(Iterator|DoubleEndedIterator)>::next(_back)?",
       "re:<core::slice::(Iter|IterMut)<'a, .*> as std::iter::Iterator>::next")
def m_iternext(e, c, st):
    x = iter_over(e, c, st)
    if x is None:
        return NotImplemented
    al, ity = x
    if len(al) != 1:
        return NotImplemented
    g, kind, ref = al[0]
    oty = e.prog.types[c.dty]
    some = next(i for i, v in enumerate(oty["vs"]) if v["n"] == "Some")
    pty = e.prog.field_ty(c.dty, some, 0)
    sk = site(e, c)
    cty = None
    for t, _ in e.galts(ref):
        if t.k == "R":
            cty = e.pathty(e.rootty(t.a[0]), t.a[1])
        else:
            cty = e.prog.types[e.symty_of(t)].get("e") if e.symty_of(t) is not None else None
        break
    if cty is None:
        return NotImplemented
    has = e.atom("bool", NT("X", "iterhas", None, ref, sk))
    if e.loopstack:
        e.iterloops[(ref, sk)] = e.loops[e.loopstack[-1]].key
    s = fresh(st)
    tg = e.targets(ref, cty, st)
    ct = e.prog.types[cty]
    if ct["k"] == "adt" and ct["def"].endswith("HashMap"):
        kty = ct["args"][0]
        key = e.app("iterkey", kty, ref, sk)
        vref = e.mkG([(NT("R", r, tuple(p) + (("k", key),)), g) for g, r, p in tg])
        if kind == "values":
            return opt(e, c.dty, has, vref), s
        kroot = ("const", NT("X", "iterkeyref", kty, ref, sk))
        e.root_ty[kroot] = kty
        e.consts[kroot] = key
        kref = e.G1(NT("R", kroot, ()))
        if kind == "keys":
            return opt(e, c.dty, has, kref), s
        return opt(e, c.dty, has, e.mkA(pty, [(0, 1, (kref, vref))])), s
    us = next((i for i, t in enumerate(e.prog.types) if t["n"] == "usize"), None)
    idx = e.app("iteridx", us, ref, sk)
    v = None
    for g, r, p in tg:
        y = e.rd(st, r, p)
        v = y if v is None else e.mux(g, y, v)
    e.assume = e.b.AND(e.assume, e.b.IMP(has, e.lt(idx, e.lenof(v, cty))))
    if c.inst["def"].endswith("next_back"):
        e.backward.add((ref, sk))
        idx = e.sub(e.sub(e.lenof(v, cty), e.I(1)), idx)
    eref = e.mkG([(NT("R", r, e.pidx(p, idx)), g) for g, r, p in tg])
    return opt(e, c.dty, has, eref), s


@model("re:<(std|core)::slice::(iter::)?(Iter|IterMut)<'_, T> as std::iter::ExactSizeIterator>::len", "re:std::iter::ExactSizeIterator::len",
       "re:<std::collections::(hash_map|vec_deque)::(Iter|IterMut|Values|ValuesMut|Keys)<'_, .*> as std::iter::ExactSizeIterator>::len")
def m_iterlen(e, c, st):
    """the number of elements behind an iterator nothing was taken from yet"""
    x = iter_over(e, c, st)
    if x is None or len(x[0]) != 1:
        return NotImplemented
    ref = x[0][0][2]
    if any(r is ref for r, _ in e.iterloops):
        return NotImplemented
    for t, _ in e.galts(ref):
        if t.k != "R":
            return NotImplemented
        cty = e.pathty(e.rootty(t.a[0]), t.a[1])
    v = None
    for g, r, p in e.targets(ref, cty, st):
        y = e.rd(st, r, p)
        v = y if v is None else e.mux(g, y, v)
    return e.lenof(v, cty), fresh(st)


@model("re:<std::(collections::hash_map|slice|collections::vec_deque)::(Iter|IterMut|Values|ValuesMut|Keys)<'a, .*> as std::iter::Iterator>::fold",
       "re:<core::slice::(Iter|IterMut)<'a, .*> as std::iter::Iterator>::fold")
def m_fold(e, c, st):
    """acc = init; while let Some(x) = next() { acc = f(acc, x) }"""
    ity = c.atys[0]
    froot = ("loc", ("fold", e.frameid(None)), 0)
    iroot = ("loc", ("fold", e.frameid(None)), 1)
    aroot = ("loc", ("fold", e.frameid(None)), 2)
    e.root_ty[froot], e.root_ty[iroot], e.root_ty[aroot] = c.atys[2], ity, c.atys[1]
    s0 = fresh(st)
    s0.m[iroot], s0.m[aroot], s0.m[froot] = c.args[0], c.args[1], c.args[2]
    ft = e.prog.types[c.atys[2]]
    if ft["k"] != "closure" or ft.get("inst") is None:
        return NotImplemented
    finst = e.prog.insts[ft["inst"]]
    ety = finst["body"]["locals"][-1 + 1 + finst["body"]["nargs"]]
    oty = None
    for i, t in enumerate(e.prog.types):
        if t["k"] == "adt" and t["def"].endswith("option::Option") and t["args"] and t["args"][0] == ety:
            oty = i
    if oty is None:
        oty = mkopt(e, ety)
    some = next(i for i, v in enumerate(e.prog.types[oty]["vs"]) if v["n"] == "Some")

    def runner(start):
        c2 = type("C", (), {})()
        c2.inst, c2.fty, c2.args, c2.atys, c2.dty, c2.span, c2.fr = c.inst, c.fty, [e.G1(NT("R", iroot, ()))], [reft], oty, c.span, c.fr
        r = m_iternext(e, c2, start)
        if r is NotImplemented:
            raise Imprecise("fold over an unknown iterator")
        v, s = r
        g = 0
        for vv, gg, fs in e.expand(v, oty).a[1]:
            if vv == some:
                g = gg
        out = St(e.b.AND(s.g, e.b.NOT(g)), dict(s.m))
        go = St(e.b.AND(s.g, g), dict(s.m))
        res = {"back": [], "exit": [out] if out.g else []}
        if go.g:
            bt = e.prog.types[finst["body"]["locals"][1]]
            me = e.G1(NT("R", froot, ())) if bt["k"] == "ref" else go.m[froot]
            rv, s2 = e.call_inst(finst, [me, go.m[aroot], e.getf(v, oty, some, 0)], go, c.span)
            if s2 is not None:
                s2.m[aroot] = rv
                res["back"] = [s2]
        return res
    reft = None
    for i, t in enumerate(e.prog.types):
        if t["k"] == "ref" and t.get("e") == ity:
            reft = i
    if reft is None:
        e.prog.types.append({"k": "ref", "e": ity, "mut": True, "n": "&mut " + e.prog.types[ity]["n"]})
        reft = len(e.prog.types) - 1
    leave = e.loop(None, None, None, s0, c.fr, [], runner=runner, key="fold:" + (c.fr.inst["def"] if c.fr else "?"))
    out = e.merge(leave["exit"])
    rv = out.m.pop(aroot)
    for r in (iroot, froot):
        out.m.pop(r, None)
    return rv, out


@model("std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def m_arrayinto(e, c, st):
    e.__dict__.setdefault("arrayiters", {})[c.dty] = c.atys[0]
    return e.app("arrayiter", c.dty, c.args[0], e.I(0)), fresh(st)


@model("<std::array::IntoIter<T, N> as std::iter::Iterator>::next")
def m_arraynext(e, c, st):
    """elements of an array by value; the loop around it is unrolled"""
    v, tg, ty = deref(e, c, 0, st)
    ts = e.galts(v)
    if len(ts) != 1 or ts[0][0].k != "X" or ts[0][0].a[0] != "arrayiter":
        raise Imprecise("an iterator over an array in an unknown state")
    arr, pos = ts[0][0].a[2:4]
    aty = e.arrayiters.get(ty)
    if aty is None:
        raise Imprecise("an iterator over an array in an unknown state")
    k = next((k for k in range(17) if e.I(k) is pos), None)
    if k is None:
        raise Imprecise("an iterator over an array in an unknown state")
    s = fresh(st)
    ln = e.prog.types[aty]["len"]
    if k >= ln:
        return opt(e, c.dty, 0, UNDEF), s
    e.wr(s, tg, e.app("arrayiter", ty, arr, e.I(k + 1)))
    return opt(e, c.dty, 1, e.geti(arr, aty, e.I(k))), s


@model("re:<(std|core)::slice::(iter::)?(Iter|IterMut)<'a, .*> as std::iter::Iterator>::(for_each|all|any|find|find_map|position)")
def m_slicewalk(e, c, st):
    """while let Some(x) = next() { .. }, left early by all but for_each"""
    what = c.inst["def"].rsplit("::", 1)[1]
    fid = e.frameid(None)
    froot, iroot, aroot, nroot = (("loc", ("walk", fid), k) for k in range(4))
    byref = what != "for_each"
    ity = e.prog.types[c.atys[0]]["e"] if byref else c.atys[0]
    ft = e.prog.types[c.atys[1]]
    if ft["k"] != "closure" or ft.get("inst") is None:
        return NotImplemented
    finst = e.prog.insts[ft["inst"]]
    et = finst["body"]["locals"][2]
    us = next(i for i, t in enumerate(e.prog.types) if t["n"] == "usize")
    ety = e.prog.types[et]["e"] if what == "find" else et
    oty = opttype(e, ety)
    rty = finst["body"]["locals"][0]
    e.root_ty[froot], e.root_ty[aroot], e.root_ty[nroot], e.root_ty[iroot] = c.atys[1], c.dty, us, ity
    s0 = fresh(st)
    s0.m[froot], s0.m[nroot] = c.args[1], e.I(0)
    if byref:
        it = c.args[0]
    else:
        s0.m[iroot] = c.args[0]
        it = e.G1(NT("R", iroot, ()))
    end = {"for_each": lambda: unit(e, c.dty), "all": lambda: e.B(1), "any": lambda: e.B(0)}.get(what, lambda: opt(e, c.dty, 0, UNDEF))()

    def runner(start):
        c2 = type("C", (), {})()
        c2.inst, c2.fty, c2.args, c2.atys, c2.dty, c2.span, c2.fr = c.inst, c.fty, [it], [reftype(e, ity, True)], oty, c.span, c.fr
        r = m_iternext(e, c2, start)
        if r is NotImplemented:
            raise Imprecise("a walk over an unknown iterator")
        v, s = r
        g = issome(e, v, oty)
        out = St(e.b.AND(s.g, e.b.NOT(g)), dict(s.m))
        out.m[aroot] = end
        go = St(e.b.AND(s.g, g), dict(s.m))
        res = {"back": [], "exit": [out] if out.g else []}
        if not go.g:
            return res
        x = arg = e.getf(v, oty, 1, 0)
        if what == "find":
            xr = ("loc", ("walk", fid), 4)
            e.root_ty[xr] = ety
            go.m[xr] = x
            arg = e.G1(NT("R", xr, ()))
        bt = e.prog.types[finst["body"]["locals"][1]]
        me = e.G1(NT("R", froot, ())) if bt["k"] == "ref" else go.m[froot]
        rv, s2 = e.call_inst(finst, [me, arg], go, c.span)
        if s2 is None:
            return res
        if what == "find":
            s2.m.pop(xr, None)
        if what == "for_each":
            stop, val = 0, None
        elif what == "find_map":
            stop, val = issome(e, rv, rty), rv
        else:
            stop = rv.a[0]
            if what == "all":
                stop, val = e.b.NOT(stop), e.B(0)
            elif what == "any":
                val = e.B(1)
            else:
                val = opt(e, c.dty, 1, x if what == "find" else s2.m[nroot])
        if e.b.AND(s2.g, stop):
            left = St(e.b.AND(s2.g, stop), dict(s2.m))
            left.m[aroot] = val
            res["exit"].append(left)
        s2 = St(e.b.AND(s2.g, e.b.NOT(stop)), dict(s2.m))
        if s2.g:
            if what == "position":
                s2.m[nroot] = e.add(s2.m[nroot], e.I(1))
            res["back"] = [s2]
        return res
    leave = e.loop(None, None, None, s0, c.fr, [], runner=runner, key=what + ":" + (c.fr.inst["def"] if c.fr else "?"))
    out = e.merge(leave["exit"])
    rv = out.m.pop(aroot)
    for r in (iroot, froot, nroot):
        out.m.pop(r, None)
    return rv, out


def reftype(e, ty, mut=False):
    for i, t in enumerate(e.prog.types):
        if t["k"] == "ref" and t.get("e") == ty and bool(t.get("mut")) == mut:
            return i
    e.prog.types.append({"k": "ref", "e": ty, "mut": mut, "n": ("&mut " if mut else "&") + e.prog.types[ty]["n"]})
    return len(e.prog.types) - 1


def opttype(e, ty):
    for i, t in enumerate(e.prog.types):
        if t["k"] == "adt" and t["def"].endswith("option::Option") and t["args"] and t["args"][0] == ty:
            return i
    return mkopt(e, ty)


def tupletype(e, es):
    for i, t in enumerate(e.prog.types):
        if t["k"] == "tuple" and t["es"] == es:
            return i
    e.prog.types.append({"k": "tuple", "es": list(es), "n": "(" + ", ".join(e.prog.types[x]["n"] for x in es) + ")"})
    return len(e.prog.types) - 1


def call_like(c, args, atys, dty, idef=None):
    c2 = type("C", (), {})()
    c2.inst, c2.fty, c2.args, c2.atys, c2.dty, c2.span, c2.fr = c.inst if idef is None else {"def": idef}, c.fty, args, atys, dty, c.span, c.fr
    return c2


def snext(e, root, path, ity, st, c, back=False):
    """next() of an iterator built from adapters over a slice: (has, item, its
    type, number of the round, state), or None if it is not one of those"""
    t = e.prog.types[ity]
    if t["k"] != "adt":
        return None
    d = t["def"]
    us = e.prog.ty_by_name["usize"]

    def field(name):
        names = e.prog.field_names(ity)
        return names.index(name) if name in names else None
    if d in ("std::slice::Iter", "std::slice::IterMut"):
        elt = next((a for a in t["args"] if isinstance(a, int)), None)
        if elt is None:
            return None
        item = reftype(e, elt, d.endswith("Mut"))
        oty = opttype(e, item)
        v = e.rd(st, root, path)
        al = e.galts(v) if v is not UNDEF and v.k == "G" else []
        if len(al) != 1 or al[0][0].k != "X" or not str(al[0][0].a[0]).startswith("iterover:"):
            return None
        c2 = call_like(c, [e.G1(NT("R", root, tuple(path)))], [reftype(e, ity, True)], oty, "next_back" if back else "next")
        r = m_iternext(e, c2, st)
        if r is NotImplemented:
            return None
        v2, s = r
        some = next(i for i, x in enumerate(e.prog.types[oty]["vs"]) if x["n"] == "Some")
        has = 0
        for vv, g, fs in e.expand(v2, oty).a[1]:
            if vv == some:
                has = g
        return has, e.getf(v2, oty, some, 0), item, e.app("iteridx", us, al[0][0].a[2], site(e, c)), s
    if d == "std::iter::Enumerate":
        i, k = field("iter"), field("count")
        if i is None or k is None:
            return None
        r = snext(e, root, tuple(path) + (("f", 0, i),), e.prog.field_ty(ity, 0, i), st, c, back)
        if r is None or back:
            return None
        has, v, vt, n, s = r
        cnt = e.getf(e.rd(st, root, path), ity, 0, k)
        tt = tupletype(e, [us, vt])
        return has, e.mkA(tt, [(0, 1, (e.add(cnt, n), v))]), tt, n, s
    if d == "std::iter::Rev":
        i = field("iter")
        return None if i is None else snext(e, root, tuple(path) + (("f", 0, i),), e.prog.field_ty(ity, 0, i), st, c, not back)
    if d in ("std::iter::Copied", "std::iter::Cloned"):
        i = field("it")
        r = None if i is None else snext(e, root, tuple(path) + (("f", 0, i),), e.prog.field_ty(ity, 0, i), st, c, back)
        if r is None or e.prog.types[r[2]]["k"] != "ref":
            return None
        has, v, vt, n, s = r
        ety = e.prog.types[vt]["e"]
        out = None
        for g, rr, pp in e.targets(v, ety, s):
            x = e.rd(s, rr, pp)
            out = x if out is None else e.mux(g, x, out)
        return has, out, ety, n, s
    if d == "std::iter::Map":
        i, k = field("iter"), field("f")
        if i is None or k is None:
            return None
        r = snext(e, root, tuple(path) + (("f", 0, i),), e.prog.field_ty(ity, 0, i), st, c, back)
        if r is None:
            return None
        has, v, vt, n, s = r
        fty = e.prog.field_ty(ity, 0, k)
        ft = e.prog.types[fty]
        if ft.get("inst") is None or "body" not in e.prog.insts[ft["inst"]]:
            return None
        b = e.prog.insts[ft["inst"]]["body"]
        f = e.rd(s, root, tuple(path) + (("f", 0, k),))
        st2 = St(e.b.AND(s.g, has), dict(s.m))
        if st2.g == 0:
            return None
        rv, s2 = callclosure(e, f, fty, [v], [vt], st2, c)
        if s2 is None:
            return None
        s3 = e.merge([x for x in (s2, St(e.b.AND(s.g, e.b.NOT(has)), dict(s.m))) if x.g])
        return has, rv, b["locals"][0], n, s3
    return None


@model("<std::iter::Enumerate<I> as std::iter::Iterator>::next")
def m_enumnext(e, c, st):
    t = e.prog.types[c.atys[0]]
    tg = e.targets(c.args[0], t["e"], st)
    if len(tg) != 1:
        return NotImplemented
    r = snext(e, tg[0][1], tg[0][2], t["e"], st, c)
    if r is None:
        return NotImplemented
    has, v, vt, n, s = r
    return opt(e, c.dty, has, v), s


def m_search(kind):
    """the searching methods of an iterator: one arbitrary round of
    `while let Some(x) = next() { .. }`"""
    def model_(e, c, st):
        t = e.prog.types[c.atys[0]]
        byref = t["k"] == "ref"
        if not byref:
            return NotImplemented
        tg = e.targets(c.args[0], t["e"], st)
        if len(tg) != 1:
            return NotImplemented
        d = e.prog.types[t["e"]].get("def", "")
        if d not in ("std::slice::Iter", "std::iter::Enumerate", "std::iter::Rev", "std::iter::Copied", "std::iter::Cloned", "std::iter::Map"):
            return NotImplemented
        root, path = tg[0][1], tg[0][2]
        fty = c.atys[1]
        ft = e.prog.types[fty]
        if ft.get("inst") is None or "body" not in e.prog.insts[ft["inst"]]:
            return NotImplemented
        fb = e.prog.insts[ft["inst"]]["body"]
        fid = e.frameid(None)
        froot, rroot = ("loc", ("srch", fid), 0), ("loc", ("srch", fid), 1)
        e.root_ty[froot], e.root_ty[rroot] = fty, c.dty
        s0 = fresh(st)
        s0.m[froot] = c.args[1]
        probe = snext(e, root, path, t["e"], fresh(st), c)
        if probe is None:
            return NotImplemented
        some = none = None
        if e.prog.types[c.dty]["k"] == "adt":
            ix = {v["n"]: i for i, v in enumerate(e.prog.types[c.dty]["vs"])}
            some, none = ix.get("Some"), ix.get("None")

        def runner(start):
            has, v, vt, n, s = snext(e, root, path, t["e"], start, c)
            out = St(e.b.AND(s.g, e.b.NOT(has)), dict(s.m))
            go = St(e.b.AND(s.g, has), dict(s.m))
            res = {"back": [], "exit": []}
            if out.g:
                if kind in ("any", "all"):
                    out.m[rroot] = e.B(0 if kind == "any" else 1)
                else:
                    out.m[rroot] = e.mkA(c.dty, [(none, 1, ())])
                res["exit"].append(out)
            if go.g:
                me = e.G1(NT("R", froot, ())) if e.prog.types[fb["locals"][1]]["k"] == "ref" else go.m[froot]
                arg = v
                if kind == "find":
                    vr = ("loc", ("srch", fid), 2)
                    e.root_ty[vr] = vt
                    go.m[vr] = v
                    arg = e.G1(NT("R", vr, ()))
                args = [me, arg] if ft["k"] == "closure" else [arg]
                rv, s2 = e.call_inst(e.prog.insts[ft["inst"]], args, go, c.span)
                if s2 is not None:
                    if kind == "find_map":
                        hit = 0
                        for vv, gg, fs in e.expand(rv, c.dty).a[1]:
                            if vv == some:
                                hit = gg
                        val = rv
                    else:
                        hit = rv.a[0] if rv.k == "B" else e.eqc(rv, 1)
                        if kind == "all":
                            hit = e.b.NOT(hit)
                        val = e.B(1 if kind == "any" else 0) if kind in ("any", "all") else opt(e, c.dty, 1, n if kind == "position" else v)
                    h = St(e.b.AND(s2.g, hit), dict(s2.m))
                    if h.g:
                        h.m[rroot] = val
                        res["exit"].append(h)
                    b = St(e.b.AND(s2.g, e.b.NOT(hit)), dict(s2.m))
                    if b.g:
                        res["back"] = [b]
            return res
        leave = e.loop(None, None, None, s0, c.fr, [], runner=runner, key=kind + ":" + (c.fr.inst["def"] if c.fr else "?"))
        out = e.merge(leave["exit"])
        rv = out.m.pop(rroot)
        for r in (froot, ("loc", ("srch", fid), 2)):
            out.m.pop(r, None)
        return rv, out
    return model_


for _k in ("find_map", "find", "position", "any", "all"):
    model("re:(std::iter::Iterator|<.* as std::iter::Iterator>)::" + _k)(m_search(_k))


# ------------------------------------------------------------------ clones
@model("re:<std::collections::HashMap<K, V, S(, A)?> as std::clone::Clone>::clone", "re:<std::vec::Vec<T, A> as std::clone::Clone>::clone",
       "re:<std::collections::VecDeque<T, A> as std::clone::Clone>::clone", "re:<std::boxed::Box<T, A> as std::clone::Clone>::clone")
def m_clone(e, c, st):
    """element types of the crate's collections are plain data (checked by the
    rule over Clone impls): a clone is an equal value"""
    return deref(e, c, 0, st)[0], fresh(st)

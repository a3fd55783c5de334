"""Rules over the replica's public entry points (replica.rs): the integration
gates, the local edits, the clocks, fork/decode, argument checks."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF

REP = "replica::Replica"
FRONTIER = [
    r"cola::run_tree::RunTree::(insert|delete|merge_insertion|merge_deletion|resolve_anchor|create_anchor|len|new)",
    r"cola::backlog::Backlog::insert_(insertion|deletion)",
    r"cola::gtree::.*",
    r"cola::run_indices::.*",
    r"<cola::version_map::.* as std::cmp::PartialOrd>::(partial_cmp|lt|le|gt|ge)",
    r"cola::encoded_replica::EncodedReplica::<.*>::to_replica",
    r"cola::EncodedReplica::.*",
    r"<cola::run_tree::RunTree as std::clone::Clone>::clone",
    r"<cola::backlog::Backlog as std::clone::Clone>::clone",
]
F = "cola::replica::Replica::"


def lab(c, extra=(), cfg="rel"):
    L = Lab(c.prog(cfg), opaque=FRONTIER + list(extra))
    L.c = c
    return L


def done(c, L):
    c.analysed |= L.e.analysed


def evs(L, name, seq=0):
    return [ev for ev in L.e.events[seq:] if ev.kind == "call" and ev.inst["def"].endswith(name)]


def vm_get(L, replica, which, rid, state):
    """what the version/deletion map answers for `rid` in `state`"""
    ty = L.fty(REP, which)
    m = L.f(L.get(replica, state), L.ty(REP), which)
    r = ("arg", f"probe{L.n}")
    L.n += 1
    L.e.root_ty[r] = ty
    st = type(L.st)(1, dict(state.m))
    st.m[r] = m
    d = "cola::version_map::BaseMap::<T>::get"
    l = [i for i in L.prog.find(r"cola::version_map::BaseMap::<T>::get") if i["body"]["locals"][0] == L.prog.field_ty(ty, 0, L.prog.field_names(ty).index("this_value"))]
    from gvf import MissingAnchor
    if not l:
        raise MissingAnchor(d)
    return L.pure(l[0], L.ref(r), rid, state=st)


def where(L, fn):
    i = L.fn(fn)
    return i["def"] + " @ " + str(i["body"]["span"])


def run_entry(L, fn, *args):
    """Run an entry point from the current state; returns (ret, retty, post, events, panics)"""
    e0, p0 = len(L.e.events), len(L.e.panics)
    rv, out, rty = L.call(F + fn, *args)
    return rv, rty, out, L.e.events[e0:], L.e.panics[p0:]


def only_changed(c, rule, L, root, pre, post, allowed, pc, fn):
    """every field of the struct at `root` outside `allowed` is the same after"""
    ty = L.rootty(root)
    a, b = L.get(root, pre), L.get(root, post)
    for i, f in enumerate(L.prog.field_names(ty)):
        if f in allowed:
            continue
        d = L.diff(L.e.getf(a, ty, 0, i), L.e.getf(b, ty, 0, i), pc)
        c.check(d == 0, rule, f"{fn}:{f} unchanged", lambda: f"{fn} changes `{f}` although it must not, when {L.why(d)}", where(L, F + fn))


# ------------------------------------------------------------------ insertions
def ins_setup(c):
    L = lab(c)
    me = L.place("self", REP)
    ins = L.place("insertion", "insertion::Insertion")
    T = L.ty("insertion::Insertion")
    iv = L.get(ins)
    by = L.f(iv, T, "text.inserted_by")
    s, t = L.f(iv, T, "text.range.start"), L.f(iv, T, "text.range.end")
    an = L.f(iv, T, "anchor")
    AT = L.fty(T, "anchor")
    pre = type(L.st)(1, dict(L.st.m))
    have = vm_get(L, me, "version_map", by, pre)
    # what any pair of replicas can produce: ordered ranges, whole insertions
    L.assume(L.NOT(L.e.lt(t, s)))
    L.assume(L.OR(L.NOT(L.e.lt(s, have)), L.NOT(L.e.lt(have, t))))
    arep, aoff = L.f(an, AT, "replica_id"), L.f(an, AT, "offset")
    zero = L.e.eqc(arep, 0)
    L.assume(L.OR(L.NOT(zero), L.e.eqc(aoff, 0)))
    seen = L.OR(zero, L.NOT(L.e.lt(vm_get(L, me, "version_map", arep, pre), aoff)))
    return L, me, ins, pre, iv, T, by, s, t, have, seen


def insertion_gate(c):
    R = "insertion-gate"
    L, me, ins, pre, iv, T, by, s, t, have, seen = ins_setup(c)
    noop = L.e.eq(s, t)
    merged = L.e.lt(s, have)
    ready = L.AND(L.e.eq(have, s), seen)
    merge = L.AND(L.NOT(noop), L.NOT(merged), ready)
    hold = L.AND(L.NOT(noop), L.NOT(merged), L.NOT(ready))
    rv, rty, post, events, panics = run_entry(L, "integrate_insertion", L.ref(me), L.ref(ins))
    w = where(L, F + "integrate_insertion")
    mi = [e for e in events if e.kind == "call" and e.inst["def"].endswith("RunTree::merge_insertion")]
    bl = [e for e in events if e.kind == "call" and e.inst["def"].endswith("Backlog::insert_insertion")]
    c.floor("merge_insertion call sites reached from integrate_insertion", len(mi), 1)
    c.floor("backlog call sites reached from integrate_insertion", len(bl), 1)
    gm = 0
    for e in mi:
        c.check(L.feasible(L.AND(gm, e.g)) == 0, R, "merged at most once", "an insertion can be merged twice in one integration", w)
        gm = L.OR(gm, e.g)
        d = L.diff(e.args[1], iv, e.g)
        c.check(d == 0, R, "the insertion itself is merged", lambda: f"merge_insertion is not given the integrated insertion when {L.why(d)}", w)
        d2 = L.diff(e.args[0], L.f(L.get(me, pre), L.ty(REP), "run_tree"), e.g)
        c.check(d2 == 0, R, "merged into the replica's own run tree", lambda: "the insertion is merged into something else than the replica's current run tree", w)
    x = L.feasible(L.AND(gm, L.NOT(merge)))
    c.check(x == 0, R, "merged only when ready", lambda: f"an insertion is merged although it must not be: {L.why(x)}", w)
    y = L.feasible(L.AND(merge, L.NOT(gm)))
    c.check(y == 0, R, "merged whenever ready", lambda: f"a ready insertion is not merged: {L.why(y)}", w)
    gb = 0
    for e in bl:
        c.check(L.feasible(L.AND(gb, e.g)) == 0, R, "backlogged at most once", "an insertion can be backlogged twice in one integration", w)
        gb = L.OR(gb, e.g)
        d = L.diff(e.args[1], iv, e.g)
        c.check(d == 0, R, "the insertion itself is backlogged", lambda: f"the backlog is not given the integrated insertion when {L.why(d)}", w)
    x2 = L.feasible(L.AND(gb, L.NOT(hold)))
    c.check(x2 == 0, R, "backlogged only when not ready", lambda: f"an insertion is backlogged although it must not be: {L.why(x2)}", w)
    y2 = L.feasible(L.AND(hold, L.NOT(gb)))
    c.check(y2 == 0, R, "backlogged whenever not ready", lambda: f"an early insertion is lost: {L.why(y2)}", w)
    for p in panics:
        z = L.feasible(p.g)
        c.check(z == 0, R, "does not panic", lambda: f"integrating panics ({p.extra}) when {L.why(z)}", w)
    # result
    some = L.isv(rv, rty, "Some")
    c.check(L.equiv(some, gm), R, "returns an offset iff merged", lambda: "the returned Option does not say whether the insertion was merged", w)
    pay = L.payload(rv, rty, "Some")
    for e in mi:
        d = L.diff(pay, e.ret, L.AND(e.g, some))
        c.check(d == 0, R, "returns the merge offset", lambda: f"the returned offset is not the one of the merge when {L.why(d)}", w)
    # bookkeeping: the version map answers, for an arbitrary replica
    x = L.sym("any_replica", "u64")
    before, after = vm_get(L, me, "version_map", x, pre), vm_get(L, me, "version_map", x, post)
    isby = L.e.eq(x, by)
    want = L.e.mux(L.AND(merge, isby), t, before)
    d = L.diff(after, want)
    c.check(d == 0, R, "version map advances to the end of the merged text, for its author only",
            lambda: f"after integrating, the known length of some replica is {trunc(after)} instead of {trunc(want)} when {L.why(d)}", w)
    # Lamport clock strictly above what was merged
    lam0 = L.f(L.get(me, pre), L.ty(REP), "lamport_clock.0")
    lam1 = L.f(L.get(me, post), L.ty(REP), "lamport_clock.0")
    ts = L.f(iv, T, "lamport_ts")
    nxt = L.e.add(ts, L.e.I(1))
    want = L.e.mux(merge, L.e.mux(L.e.lt(ts, lam0), lam0, nxt), lam0)
    d = L.diff(lam1, want)
    c.check(d == 0, R, "Lamport clock moves past the merged timestamp", lambda: f"the Lamport clock becomes {trunc(lam1)} instead of {trunc(want)} when {L.why(d)}", w)
    only_changed(c, R, L, me, pre, post, {"run_tree", "version_map", "lamport_clock", "backlog"}, 1, "integrate_insertion")
    tree0, tree1 = (L.f(L.get(me, s_), L.ty(REP), "run_tree") for s_ in (pre, post))
    d = L.diff(tree0, tree1, L.NOT(merge))
    c.check(d == 0, R, "document untouched unless merged", lambda: f"the document changes without a merge when {L.why(d)}", w)
    b0, b1 = (L.f(L.get(me, s_), L.ty(REP), "backlog") for s_ in (pre, post))
    d = L.diff(b0, b1, L.NOT(hold))
    c.check(d == 0, R, "backlog untouched unless held", lambda: f"the backlog changes although the insertion was not held back, when {L.why(d)}", w)
    done(c, L)
    c.samples.append(f"integrate_insertion merges iff {L.e.ppg(gm)}")


# ------------------------------------------------------------------ deletions
def dominance(L):
    """Version-map comparison as an uninterpreted partial order (its own
    definition is decided by rules/maps.py)."""
    e = L.e

    def dom(a, b):
        return e.atom("bool", NT("X", "knows at least as much as", None, a, b))
    L.dom = dom

    def cmp(e, c, st):
        import models
        a = models.deref(e, c, 0, st)[0]
        b = models.deref(e, c, 1, st)[0]
        ge, le = dom(a, b), dom(b, a)
        names = {v["n"]: i for i, v in enumerate(e.prog.types[c.dty]["vs"])}
        oty = e.prog.field_ty(c.dty, names["Some"], 0)
        on = {v["n"]: i for i, v in enumerate(e.prog.types[oty]["vs"])}
        A, O, NO = e.b.AND, e.b.OR, e.b.NOT
        o = e.mkA(oty, [(on["Less"], A(le, NO(ge)), ()), (on["Equal"], A(le, ge), ()), (on["Greater"], A(ge, NO(le)), ())])
        return models.opt(e, c.dty, O(ge, le), o), models.fresh(st)
    for i in L.prog.find(r"<cola::version_map::.* as std::cmp::PartialOrd(<.*>)?>::partial_cmp"):
        L.e.userm[i["def"]] = cmp


def del_setup(c):
    L = lab(c)
    dominance(L)
    identity_clone(L)
    me = L.place("self", REP)
    d = L.place("deletion", "deletion::Deletion")
    T = L.ty("deletion::Deletion")
    pre = type(L.st)(1, dict(L.st.m))
    dv = L.get(d)
    by = L.f(dv, T, "version_map.this_id")
    ts = L.f(dv, T, "deletion_ts")
    done_ = vm_get(L, me, "deletion_map", by, pre)
    # a no-op ends nowhere and has no place among its author's deletions; every other deletion
    # ends in somebody's text and is its author's first, second, ...
    noop = L.nowhere(L.f(dv, T, "end"), L.fty(T, "end"))
    L.assume(L.NOT(L.b.XOR(noop, L.e.eqc(ts, 0))))
    # counters do not wrap
    mx = L.e.I((1 << 64) - 1)
    L.assume(L.e.lt(done_, mx))
    return L, me, d, pre, dv, T, by, ts, done_, noop


def deletion_gate(c):
    R = "deletion-gate"
    L, me, d, pre, dv, T, by, ts, have, noop = del_setup(c)
    vm0 = L.f(L.get(me, pre), L.ty(REP), "version_map")
    knows = L.dom(vm0, L.f(dv, T, "version_map"))
    merged = L.NOT(L.e.lt(have, ts))
    ready = L.AND(L.e.eq(L.e.add(have, L.e.I(1)), ts), knows)
    merge = L.AND(L.NOT(noop), L.NOT(merged), ready)
    hold = L.AND(L.NOT(noop), L.NOT(merged), L.NOT(ready))
    rv, rty, post, events, panics = run_entry(L, "integrate_deletion", L.ref(me), L.ref(d))
    w = where(L, F + "integrate_deletion")
    md = calls(events, "RunTree::merge_deletion")
    bl = calls(events, "Backlog::insert_deletion")
    c.floor("merge_deletion call sites reached from integrate_deletion", len(md), 1)
    c.floor("backlog call sites reached from integrate_deletion", len(bl), 1)
    gm = exactly(c, R, L, md, merge, "deletion", "merged", w, dv)
    gb = exactly(c, R, L, bl, hold, "deletion", "backlogged", w, dv)
    for ev in md:
        d2 = L.diff(ev.args[0], L.f(L.get(me, pre), L.ty(REP), "run_tree"), ev.g)
        c.check(d2 == 0, R, "merged into the replica's own run tree", "the deletion is merged into something else than the replica's current document", w)
    nopanic(c, R, L, panics, "integrating a deletion", w)
    # result
    empty = L.e.eqc(L.e.lenof(rv, rty), 0)
    c.check(L.implies(L.NOT(gm), empty), R, "returns no ranges unless merged", "ranges are returned although nothing was merged", w)
    for ev in md:
        x = L.diff(rv, ev.ret, ev.g)
        c.check(x == 0, R, "returns the ranges of the merge", lambda: f"the returned ranges are not those of the merge when {L.why(x)}", w)
    any_ = L.sym("any_replica", "u64")
    before, after = vm_get(L, me, "deletion_map", any_, pre), vm_get(L, me, "deletion_map", any_, post)
    want = L.e.mux(L.AND(merge, L.e.eq(any_, by)), ts, before)
    x = L.diff(after, want)
    c.check(x == 0, R, "deletion count advances by the merged one, for its author only",
            lambda: f"after integrating, the deletions known of some replica are {trunc(after)} instead of {trunc(want)} when {L.why(x)}", w)
    only_changed(c, R, L, me, pre, post, {"run_tree", "deletion_map", "backlog"}, 1, "integrate_deletion")
    unless(c, R, L, me, pre, post, "run_tree", merge, "document untouched unless merged", w)
    unless(c, R, L, me, pre, post, "backlog", hold, "backlog untouched unless held", w)
    done(c, L)
    c.samples.append(f"integrate_deletion merges iff {L.e.ppg(gm)}")


def calls(events, suffix):
    return [e for e in events if e.kind == "call" and e.inst["def"].endswith(suffix)]


def exactly(c, R, L, evs_, when, noun, verb, w, val=None):
    """the events happen exactly once, exactly when `when`"""
    g = 0
    for ev in evs_:
        c.check(L.feasible(L.AND(g, ev.g)) == 0, R, f"{verb} at most once", f"the {noun} can be {verb} twice", w)
        g = L.OR(g, ev.g)
        if val is not None:
            x = L.diff(ev.args[1], val, ev.g)
            c.check(x == 0, R, f"the {noun} itself is {verb}", lambda: f"something else than the given {noun} is {verb} when {L.why(x)}", w)
    y = L.feasible(L.AND(g, L.NOT(when)))
    c.check(y == 0, R, f"{verb} only when it should be", lambda: f"a {noun} is {verb} although it must not be: {L.why(y)}", w)
    z = L.feasible(L.AND(when, L.NOT(g)))
    c.check(z == 0, R, f"{verb} whenever it should be", lambda: f"a {noun} is not {verb} although it must be: {L.why(z)}", w)
    return g


def nopanic(c, R, L, panics, what, w):
    for p in panics:
        z = L.feasible(p.g)
        c.check(z == 0, R, "does not panic", lambda: f"{what} panics ({p.extra} at {p.span}) when {L.why(z)}", w)


def unless(c, R, L, me, pre, post, field, g, inst, w):
    a, b = (L.f(L.get(me, s), L.ty(REP), field) for s in (pre, post))
    d = L.diff(a, b, L.NOT(g))
    c.check(d == 0, R, inst, lambda: f"`{field}` changes when {L.why(d)}", w)


# ------------------------------------------------------------ local insertions
def snapshot(L):
    return type(L.st)(1, dict(L.st.m))


def doc_len(L, me, st):
    return L.pure(F + "len", L.ref(me), state=st)


def local_insertion(c):
    R = "local-insertion"
    L = lab(c)
    me = L.place("self", REP)
    at, n = L.sym("at_offset", "usize"), L.sym("len", "usize")
    pre = snapshot(L)
    dl = doc_len(L, me, pre)
    oob = L.e.lt(dl, at)
    zero = L.e.eqc(n, 0)
    go = L.AND(L.NOT(oob), L.NOT(zero))
    w = where(L, F + "inserted")
    rv, rty, post, events, panics = run_entry(L, "inserted", L.ref(me), at, n)
    ins = calls(events, "RunTree::insert")
    c.floor("RunTree::insert call sites reached from inserted", len(ins), 1)
    g = exactly(c, R, L, ins, go, "insertion", "applied to the document", w)
    sv = L.get(me, pre)
    RT = L.ty(REP)
    ident = L.f(sv, RT, "id")
    this0 = L.pure("cola::version_map::BaseMap::<T>::this", field_ref(L, me, "version_map", pre)) if False else vm_this(L, me, pre)
    end = L.e.add(this0, n)
    TT = L.ty("text::Text")
    for ev in ins:
        chk(c, R, L, ev.args[0], L.f(sv, RT, "run_tree"), ev.g, "applied to the current document", w)
        chk(c, R, L, ev.args[1], at, ev.g, "applied at the given offset", w)
        tx = ev.args[2]
        chk(c, R, L, L.f(tx, TT, "inserted_by"), ident, ev.g, "stored text carries the replica's id", w)
        chk(c, R, L, L.f(tx, TT, "range.start"), this0, ev.g, "stored text starts where the history ends", w)
        chk(c, R, L, L.f(tx, TT, "range.end"), end, ev.g, "stored text is as long as the insertion", w)
        chk(c, R, L, ev.args[3], L.f(sv, RT, "run_clock"), ev.g, "the replica's own run clock is used", w)
        chk(c, R, L, ev.args[4], L.f(sv, RT, "lamport_clock"), ev.g, "the replica's own Lamport clock is used", w)
        IT = rty
        chk(c, R, L, L.f(rv, IT, "text.inserted_by"), ident, ev.g, "returned text carries the replica's id", w)
        chk(c, R, L, L.f(rv, IT, "text.range.start"), this0, ev.g, "returned text starts where the history ends", w)
        chk(c, R, L, L.f(rv, IT, "text.range.end"), end, ev.g, "returned text is as long as the insertion", w)
        chk(c, R, L, L.f(rv, IT, "anchor"), ev.ret, ev.g, "returned anchor is where the text was put", w)
        lam1 = L.f(L.get(me, post), RT, "lamport_clock.0")
        run1 = L.f(L.get(me, post), RT, "run_clock.0")
        # both clocks are positive once something was inserted
        L.assume(L.AND(L.NOT(L.e.eqc(lam1, 0)), L.NOT(L.e.eqc(run1, 0))))
        chk(c, R, L, L.f(rv, IT, "lamport_ts"), L.e.sub(lam1, L.e.I(1)), ev.g, "returned Lamport timestamp is the clock's latest", w)
        chk(c, R, L, L.f(rv, IT, "run_ts"), L.e.sub(run1, L.e.I(1)), ev.g, "returned run timestamp is the clock's latest", w)
        chk(c, R, L, L.f(L.get(me, post), RT, "lamport_clock"), ev.post.get(4), ev.g, "the Lamport clock is the one the document advanced", w)
        chk(c, R, L, L.f(L.get(me, post), RT, "run_clock"), ev.post.get(3), ev.g, "the run clock is the one the document advanced", w)
        chk(c, R, L, L.f(L.get(me, post), RT, "run_tree"), ev.post.get(0), ev.g, "the document is the edited one", w)
    x = L.sym("any_replica", "u64")
    # the map's own id is the replica's id (established by new/fork/decode)
    b, a = vm_get(L, me, "version_map", x, pre), vm_get(L, me, "version_map", x, post)
    L.assume(L.e.eq(L.f(sv, RT, "version_map.this_id"), ident))
    want = L.e.mux(L.AND(go, L.e.eq(x, ident)), end, b)
    d = L.diff(a, want, L.NOT(oob))
    c.check(d == 0, R, "own history grows by the inserted length only",
            lambda: f"after inserting, the history length of some replica is {trunc(a)} instead of {trunc(want)} when {L.why(d)}", w)
    pc = L.NOT(oob)
    only_changed(c, R, L, me, pre, post, {"run_tree", "version_map", "lamport_clock", "run_clock"}, pc, "inserted")
    done(c, L)


def vm_this(L, me, st):
    return L.f(L.get(me, st), L.ty(REP), "version_map.this_value")


def field_ref(L, me, field, st):
    raise NotImplementedError


def chk(c, R, L, a, b, g, inst, w):
    if a is None or b is None:
        c.check(False, R, inst, f"{inst}: the value does not exist", w)
        return
    d = L.diff(a, b, g)
    c.check(d == 0, R, inst, lambda: f"not established: {inst}: {trunc(a)} vs {trunc(b)} when {L.why(d)}", w)


def panics_exactly(c, R, L, panics, want, fn, me=None, pre=None):
    w = where(L, F + fn)
    g = 0
    for p in panics:
        g = L.OR(g, p.g)
    x = L.feasible(L.AND(g, L.NOT(want)))
    c.check(x == 0, R, f"{fn}: no undocumented panic", lambda: f"{fn} panics on valid arguments: {L.why(x)}; panics: {[(p.extra, p.span) for p in panics if L.feasible(L.AND(p.g, x))][:3]}", w)
    y = L.feasible(L.AND(want, L.NOT(g)))
    c.check(y == 0, R, f"{fn}: invalid arguments are rejected", lambda: f"{fn} accepts invalid arguments: {L.why(y)}", w)
    if me is not None:
        for p in panics:
            m = p.post.get("m")
            if m is None:
                continue
            st = type(pre)(1, m)
            d = L.diff(L.get(me, pre), L.get(me, st), p.g)
            c.check(d == 0, R, f"{fn}: nothing is modified before an argument is rejected",
                    lambda: f"{fn} modifies the replica before panicking on invalid arguments, when {L.why(d)}", w)
    return g


def argument_checks(c):
    R = "argument-checks"
    # inserted
    L = lab(c)
    me = L.place("self", REP)
    at, n = L.sym("at_offset", "usize"), L.sym("len", "usize")
    pre = snapshot(L)
    oob = L.e.lt(doc_len(L, me, pre), at)
    *_, panics = run_entry(L, "inserted", L.ref(me), at, n)
    panics_exactly(c, R, L, panics, oob, "inserted", me, pre)
    done(c, L)
    # deleted: (start, end) as the range denotes them
    L, me, rng, pre, start, end, dl = del_local_setup(c)
    bad = L.OR(L.e.lt(dl, end), L.e.lt(end, start))
    *_, panics = run_entry(L, "deleted", L.ref(me), rng)
    panics_exactly(c, R, L, panics, bad, "deleted", me, pre)
    done(c, L)
    # create_anchor
    L = lab(c)
    me = L.place("self", REP)
    at = L.sym("at_offset", "usize")
    bias = L.sym("bias", "anchor::AnchorBias")
    pre = snapshot(L)
    oob = L.e.lt(doc_len(L, me, pre), at)
    *_, panics = run_entry(L, "create_anchor", L.ref(me), at, bias)
    panics_exactly(c, R, L, panics, oob, "create_anchor", me, pre)
    done(c, L)
    # fork
    L = lab(c)
    me = L.place("self", REP)
    nid = L.sym("new_id", "u64")
    pre = snapshot(L)
    ident = L.f(L.get(me), L.ty(REP), "id")
    *_, panics = run_entry(L, "fork", L.ref(me), nid)
    panics_exactly(c, R, L, panics, L.OR(L.e.eqc(nid, 0), L.e.eq(nid, ident)), "fork", me, pre)
    done(c, L)
    # new
    L = lab(c)
    nid, n = L.sym("id", "u64"), L.sym("len", "usize")
    *_, panics = run_entry(L, "new", nid, n)
    panics_exactly(c, R, L, panics, L.e.eqc(nid, 0), "new")
    done(c, L)
    # decode
    if L.prog.find(F + "decode"):
        L = lab(c)
        nid = L.sym("id", "u64")
        er = L.place("encoded", L.prog.types[L.fn(F + "decode")["body"]["locals"][2]]["e"])
        *_, panics = run_entry(L, "decode", nid, L.ref(er))
        panics_exactly(c, R, L, panics, L.e.eqc(nid, 0), "decode")
        done(c, L)
    # reads with no preconditions never panic
    for fn in ("id", "len", "encode", "backlogged_insertions", "backlogged_deletions"):
        if not L.prog.find(F + fn):
            continue
        L = lab(c, extra=[r"cola::encoded_replica::EncodedReplica::from_replica", r"cola::encoded_replica::EncodedReplica::<'static>::from_replica", r"cola::backlog::Backlogged.*::from_replica"])
        me = L.place("self", REP)
        *_, panics = run_entry(L, fn, L.ref(me))
        nopanic(c, R, L, panics, fn, where(L, F + fn))
        done(c, L)


def del_local_setup(c):
    L = lab(c)
    me = L.place("self", REP)
    fn = L.fn(F + "deleted")
    rty = fn["body"]["locals"][2]
    rng = L.sym("range", rty)
    pre = snapshot(L)
    dl = doc_len(L, me, pre)
    bt = L.prog.types[rty]["es"]
    one, mx = L.e.I(1), L.e.I((1 << 64) - 1)
    b0, b1 = L.e.getf(rng, rty, 0, 0), L.e.getf(rng, rty, 0, 1)

    def sat1(v):
        return L.e.mux(L.e.lt(v, mx), L.e.add(v, one), mx)
    inc, exc, unb = (L.variant(bt[0], n) for n in ("Included", "Excluded", "Unbounded"))

    def pick(v, inc_v, exc_v, unb_v):
        return L.e.mux(L.isv(v, bt[0], "Included"), inc_v, L.e.mux(L.isv(v, bt[0], "Excluded"), exc_v, unb_v))
    start = pick(b0, L.payload(b0, bt[0], "Included"), sat1(L.payload(b0, bt[0], "Excluded")), L.e.I(0))
    end = pick(b1, sat1(L.payload(b1, bt[0], "Included")), L.payload(b1, bt[0], "Excluded"), dl)
    # a document can't have 2^64-1 characters
    L.assume(L.e.lt(dl, mx))
    return L, me, rng, pre, start, end, dl


def local_deletion(c):
    R = "local-deletion"
    L, me, rng, pre, start, end, dl = del_local_setup(c)
    w = where(L, F + "deleted")
    bad = L.OR(L.e.lt(dl, end), L.e.lt(end, start))
    go = L.AND(L.NOT(bad), L.e.lt(start, end))
    RT = L.ty(REP)
    sv = L.get(me, pre)
    ident = L.f(sv, RT, "id")
    L.assume(L.e.eq(L.f(sv, RT, "version_map.this_id"), ident))
    L.assume(L.e.eq(L.f(sv, RT, "deletion_map.this_id"), ident))
    own0 = vm_get(L, me, "deletion_map", ident, pre)
    rv, rty, post, events, panics = run_entry(L, "deleted", L.ref(me), rng)
    dels = calls(events, "RunTree::delete")
    c.floor("RunTree::delete call sites reached from deleted", len(dels), 1)
    exactly(c, R, L, dels, go, "deletion", "applied to the document", w)
    one = L.e.I(1)
    for ev in dels:
        pg = L.AND(ev.g, post.g)
        chk(c, R, L, ev.args[0], L.f(sv, RT, "run_tree"), ev.g, "applied to the current document", w)
        aty = ev.inst["body"]["locals"][2]
        chk(c, R, L, L.f(ev.args[1], aty, "start"), start, ev.g, "deletes from the start of the range", w)
        chk(c, R, L, L.f(ev.args[1], aty, "end"), end, ev.g, "deletes to the end of the range", w)
        VT = L.fty(RT, "version_map")
        fresh = ev.args[2]
        chk(c, R, L, L.f(fresh, VT, "this_id"), ident, ev.g, "the context is collected under the replica's id", w)
        tt = ev.inst["body"]["locals"][0]
        chk(c, R, L, L.f(rv, rty, "start"), L.e.getf(ev.ret, tt, 0, 0), pg, "returned start anchor is the document's", w)
        chk(c, R, L, L.f(rv, rty, "end"), L.e.getf(ev.ret, tt, 0, 1), pg, "returned end anchor is the document's", w)
        chk(c, R, L, L.f(rv, rty, "deletion_ts"), L.e.add(own0, one), pg, "deletions are numbered consecutively", w)
        # RunTree::delete adds ids to the map, it doesn't touch its owner (rule run-tree)
        col = ev.post.get(2)
        L.assume(L.e.eq(L.f(col, VT, "this_id"), ident))
        chk(c, R, L, L.f(rv, rty, "version_map.this_id"), ident, pg, "the deletion names its author", w)
        # every collected id gets the length known of it
        mapped(c, R, L, me, pre, ev, L.f(rv, rty, "version_map"), VT, col, w, pg)
        chk(c, R, L, L.f(L.get(me, post), RT, "run_tree"), ev.post.get(0), pg, "the document is the edited one", w)
    x = L.sym("any_replica", "u64")
    b, a = vm_get(L, me, "deletion_map", x, pre), vm_get(L, me, "deletion_map", x, post)
    want = L.e.mux(L.AND(go, L.e.eq(x, ident)), L.e.add(own0, one), b)
    d = L.diff(a, want, L.AND(post.g, L.NOT(bad)))
    c.check(d == 0, R, "own deletions are counted, nobody else's", lambda: f"after deleting, the deletion count of some replica is {trunc(a)} instead of {trunc(want)} when {L.why(d)}", w)
    only_changed(c, R, L, me, pre, post, {"run_tree", "deletion_map"}, L.AND(post.g, L.NOT(bad)), "deleted")
    done(c, L)


def rec_of(L, term):
    """the loop whose phi `term` is"""
    for r in L.e.loops:
        if term in getattr(r, "phis", {}):
            return r
    return None


def mapped(c, R, L, me, pre, ev, out, VT, col, w, pg):
    """`out` is `col` with every value replaced by what the replica knows of
    its key (an in-place sweep over every entry)."""
    rest_ty = L.fty(VT, "rest")
    for fld in ("this_value", "rest"):
        v = L.f(out, VT, fld)
        terms = [t for t, g in L.e.galts(v) if L.feasible(L.AND(g, pg))]
        ok = len(terms) == 1
        rec = rec_of(L, terms[0]) if ok else None
        if not c.check(rec is not None, R, f"context values are rewritten ({fld})",
                       lambda: f"the deletion's causal context does not contain what the author knows: its {fld} is {trunc(v)}", w):
            continue
        init, back, _ = rec.phis[terms[0]]
        d = L.diff(init, L.f(col, VT, fld), ev.g)
        c.check(d == 0, R, f"context sweep starts from the collected ids ({fld})", "the deletion's context does not start from the ids the document collected", w)
        covered = 0
        for t, g in L.e.galts(back):
            g = L.AND(g, rec.cont)
            if not L.feasible(g):
                continue
            if t is terms[0]:
                continue
            if fld == "rest":
                if not c.check(t.k == "X" and t.a[0] == "put" and L.e.galts(t.a[2])[0][0] is terms[0], R, "context sweep updates entries in place",
                               lambda: f"the context sweep does something else than updating an entry: {trunc(back)}", w):
                    continue
                key, val = t.a[3], t.a[4]
                c.check("iterkey" in trunc(key, 4000), R, "context sweep updates the visited entry", lambda: f"the sweep updates {trunc(key)}", w)
            else:
                key, val = L.f(col, VT, "this_id"), L.e.G1(t)
            want = vm_get(L, me, "version_map", key, pre)
            x = L.diff(val, want, g)
            c.check(x == 0, R, f"context carries what the author knows ({fld})",
                    lambda: f"the deletion's context gets {trunc(val)} for a replica of which the author knows {trunc(want)}, when {L.why(x)}", w)
            covered = L.OR(covered, g)
        c.check(L.feasible(covered) != 0, R, f"context sweep reaches {fld}", f"the causal context's {fld} is never filled in", w)


# ------------------------------------------------------------------- no-ops
def noops(c):
    R = "no-op"
    L = lab(c)
    me = L.place("self", REP)
    at, n = L.sym("at_offset", "usize"), L.e.I(0)
    pre = snapshot(L)
    ok = L.NOT(L.e.lt(doc_len(L, me, pre), at))
    rv, rty, post, events, panics = run_entry(L, "inserted", L.ref(me), at, n)
    w = where(L, F + "inserted")
    d = L.diff(L.get(me, pre), L.get(me, post), ok)
    c.check(d == 0, R, "inserting nothing changes nothing", lambda: f"inserting zero characters changes the replica when {L.why(d)}", w)
    r = L.place("ins", rty, rv)
    isno = L.G(L.pure("cola::insertion::Insertion::is_no_op", L.ref(r)))
    c.check(L.implies(ok, isno), R, "inserting nothing yields a no-op insertion", "inserting zero characters yields an insertion that is not a no-op", w)
    # ... which any replica ignores
    other = L.place("other", REP)
    pre2 = snapshot(L)
    r2, r2ty, post2, ev2, p2 = run_entry(L, "integrate_insertion", L.ref(other), L.ref(r))
    w2 = where(L, F + "integrate_insertion")
    d = L.diff(L.get(other, pre2), L.get(other, post2), ok)
    c.check(d == 0, R, "integrating a no-op insertion changes nothing", lambda: f"integrating a no-op insertion changes the replica when {L.why(d)}", w2)
    c.check(L.implies(ok, L.isv(r2, r2ty, "None")), R, "integrating a no-op insertion yields nothing", "integrating a no-op insertion yields an offset", w2)
    nopanic(c, R, L, [p for p in p2 if L.feasible(L.AND(p.g, ok))], "integrating a no-op insertion", w2)
    done(c, L)
    # every insertion that isn't empty is not a no-op
    L = lab(c)
    i = L.place("ins", "insertion::Insertion")
    T = L.ty("insertion::Insertion")
    s, t = L.f(L.get(i), T, "text.range.start"), L.f(L.get(i), T, "text.range.end")
    L.assume(L.NOT(L.e.lt(t, s)))
    isno = L.G(L.pure("cola::insertion::Insertion::is_no_op", L.ref(i)))
    c.check(L.equiv(isno, L.e.eq(s, t)), R, "an insertion is a no-op iff it is empty", "is_no_op does not say whether the insertion is empty", where(L, "cola::insertion::Insertion::is_no_op"))
    done(c, L)
    # deletions
    L, me, rng, pre, start, end, dl = del_local_setup(c)
    w = where(L, F + "deleted")
    ok = L.AND(L.e.eq(start, end), L.NOT(L.e.lt(dl, end)))
    rv, rty, post, events, panics = run_entry(L, "deleted", L.ref(me), rng)
    d = L.diff(L.get(me, pre), L.get(me, post), ok)
    c.check(d == 0, R, "deleting nothing changes nothing", lambda: f"deleting an empty range changes the replica when {L.why(d)}", w)
    r = L.place("del", rty, rv)
    isno = L.G(L.pure("cola::deletion::Deletion::is_no_op", L.ref(r)))
    c.check(L.implies(ok, isno), R, "deleting nothing yields a no-op deletion", "deleting an empty range yields a deletion that is not a no-op", w)
    done(c, L)
    L, me, d_, pre, dv, T, by, ts, have, noop = del_setup(c)
    rv, rty, post, events, panics = run_entry(L, "integrate_deletion", L.ref(me), L.ref(d_))
    w = where(L, F + "integrate_deletion")
    d = L.diff(L.get(me, pre), L.get(me, post), noop)
    c.check(d == 0, R, "integrating a no-op deletion changes nothing", lambda: f"integrating a no-op deletion changes the replica when {L.why(d)}", w)
    c.check(L.implies(noop, L.e.eqc(L.e.lenof(rv, rty), 0)), R, "integrating a no-op deletion yields nothing", "integrating a no-op deletion yields ranges", w)
    isno = L.G(L.pure("cola::deletion::Deletion::is_no_op", L.ref(d_)))
    c.check(L.equiv(isno, noop), R, "a deletion is a no-op iff it ends in no text",
            "is_no_op does not say whether the deletion ends in any text", where(L, "cola::deletion::Deletion::is_no_op"))
    done(c, L)


# --------------------------------------------------------------- fork/decode
def identity_clone(L):
    import models

    def ident(e, c, st):
        return models.deref(e, c, 0, st)[0], models.fresh(st)
    for i in L.prog.find(r"<cola::(run_tree::RunTree|backlog::Backlog|version_map::BaseMap<.*>) as std::clone::Clone>::clone"):
        L.e.userm[i["def"]] = ident


def joining(c):
    R = "joining"
    L = lab(c)
    identity_clone(L)
    me = L.place("self", REP)
    nid = L.sym("new_id", "u64")
    RT = L.ty(REP)
    sv = L.get(me)
    ident = L.f(sv, RT, "id")
    L.assume(L.AND(L.NOT(L.e.eqc(nid, 0)), L.NOT(L.e.eq(nid, ident))))
    pre = snapshot(L)
    fk, fty, post, events, panics = run_entry(L, "fork", L.ref(me), nid)
    w = where(L, F + "fork")
    d = L.diff(L.get(me, pre), L.get(me, post))
    c.check(d == 0, R, "forking does not change the forked replica", "fork changes the replica it forks", w)
    cmpjoin(c, R, L, me, pre, fk, "fork", nid, w)
    done(c, L)
    # decode: to_replica answers with this replica's own parts
    L2 = lab(c)
    identity_clone(L2)
    me = L2.place("self", REP)
    nid = L2.sym("new_id", "u64")
    sv = L2.get(me)
    ident = L2.f(sv, RT, "id")
    L2.assume(L2.AND(L2.NOT(L2.e.eqc(nid, 0)), L2.NOT(L2.e.eq(nid, ident))))
    pre = snapshot(L2)
    dfn = L2.fn(F + "decode")
    er = L2.place("encoded", L2.prog.types[dfn["body"]["locals"][2]]["e"])
    ok = L2.e.atom("bool", NT("X", "the payload is valid", None))
    tr = L2.prog.find(r"cola::encoded_replica::EncodedReplica::<.*>::to_replica")
    c.floor("EncodedReplica::to_replica", len(tr), 1)
    hold = {}

    def to_replica(e, cc, st):
        import models
        rt = e.prog.types[cc.dty]
        names = {v["n"]: i for i, v in enumerate(rt["vs"])}
        tt = e.prog.field_ty(cc.dty, names["Ok"], 0)
        by = {}
        for i, f in enumerate(e.prog.field_names(RT)):
            by[e.prog.field_ty(RT, 0, i)] = e.getf(sv, RT, 0, i)
        tup = e.mkA(tt, [(0, 1, tuple(by[x] for x in e.prog.types[tt]["es"]))])
        err = e.symval(N("S", "the error", e.prog.field_ty(cc.dty, names["Err"], 0)), e.prog.field_ty(cc.dty, names["Err"], 0))
        hold["err"] = err
        hold["n"] = hold.get("n", 0) + 1
        return e.mkA(cc.dty, [(names["Ok"], ok, (tup,)), (names["Err"], e.b.NOT(ok), (err,))]), models.fresh(st)
    L2.e.userm[tr[0]["def"]] = to_replica
    dv, dty, post, events, panics = run_entry(L2, "decode", nid, L2.ref(er))
    w = where(L2, F + "decode")
    c.check(hold.get("n", 0) == 1, R, "decode reads the encoded replica once", "decode does not read the encoded replica exactly once", w)
    c.check(L2.equiv(L2.isv(dv, dty, "Ok"), ok), R, "decode succeeds iff the payload is valid", "decode's verdict is not the payload's", w)
    x = L2.diff(L2.payload(dv, dty, "Err"), hold.get("err"), L2.NOT(ok))
    c.check(x == 0, R, "decode passes the error on", "decode returns another error than the payload's", w)
    L2.assume(ok)
    cmpjoin(c, R, L2, me, pre, L2.payload(dv, dty, "Ok"), "decode", nid, w)
    done(c, L2)
    # a new replica
    L = lab(c)
    nid, n = L.sym("id", "u64"), L.sym("len", "usize")
    L.assume(L.NOT(L.e.eqc(nid, 0)))
    rv, rty, post, events, panics = run_entry(L, "new", nid, n)
    w = where(L, F + "new")
    chk(c, R, L, L.f(rv, RT, "id"), nid, 1, "new: has the given id", w)
    r = L.place("made", REP, rv)
    st = snapshot(L)
    x = L.sym("any_replica", "u64")
    chk(c, R, L, vm_get(L, r, "version_map", x, st), L.e.mux(L.e.eq(x, nid), n, L.e.I(0)), 1, "new: knows its initial text only", w)
    chk(c, R, L, vm_get(L, r, "deletion_map", x, st), L.e.I(0), 1, "new: knows no deletions", w)
    for f in ("version_map", "deletion_map"):
        chk(c, R, L, L.f(rv, RT, f + ".this_id"), nid, 1, f"new: {f} belongs to the replica", w)
    mk = calls(events, "RunTree::new")
    c.floor("RunTree::new call sites reached from new", len(mk), 1)
    for ev in mk:
        et = ev.inst["body"]["locals"][1]
        run = ev.args[0]
        chk(c, R, L, L.f(run, et, "text.inserted_by"), nid, ev.g, "new: initial text carries the id", w)
        chk(c, R, L, L.f(run, et, "text.range.start"), L.e.I(0), ev.g, "new: initial text starts at 0", w)
        chk(c, R, L, L.f(run, et, "text.range.end"), n, ev.g, "new: initial text has the given length", w)
        chk(c, R, L, L.f(run, et, "is_deleted"), L.e.B(0), ev.g, "new: initial text is visible", w)
        chk(c, R, L, L.e.add(L.f(run, et, "lamport_ts"), L.e.I(1)), L.f(rv, RT, "lamport_clock.0"), ev.g, "new: the Lamport clock is past the initial run", w)
        chk(c, R, L, L.e.add(L.f(run, et, "run_ts"), L.e.I(1)), L.f(rv, RT, "run_clock.0"), ev.g, "new: the run clock is past the initial run", w)
        chk(c, R, L, L.f(run, et, "run_ts"), L.e.I(0), ev.g, "new: the initial run is run 0", w)
        chk(c, R, L, L.f(rv, RT, "run_tree"), ev.ret, ev.g, "new: the document is the initial text", w)
    done(c, L)


def cmpjoin(c, R, L, me, pre, v, fn, nid, w):
    RT = L.ty(REP)
    sv = L.get(me, pre)
    chk(c, R, L, L.f(v, RT, "id"), nid, 1, f"{fn}: has the new id", w)
    for f in ("run_tree", "lamport_clock", "backlog"):
        chk(c, R, L, L.f(v, RT, f), L.f(sv, RT, f), 1, f"{fn}: keeps the {f}", w)
    chk(c, R, L, L.f(v, RT, "run_clock.0"), L.e.I(0), 1, f"{fn}: starts its own runs at 0", w)
    r = L.place("joined", REP, v)
    st = snapshot(L)
    x = L.sym("any_replica", "u64")
    for f in ("version_map", "deletion_map"):
        chk(c, R, L, L.f(v, RT, f + ".this_id"), nid, 1, f"{fn}: the {f} belongs to the new replica", w)
        # the forked replica's map belongs to it
        L.assume(L.e.eq(L.f(sv, RT, f + ".this_id"), L.f(sv, RT, "id")))
        want = L.e.mux(L.e.eq(x, nid), L.e.I(0), vm_get(L, me, f, x, pre))
        chk(c, R, L, vm_get(L, r, f, x, st), want, 1, f"{fn}: knows what the other knew, and nothing of its own ({f})", w)


# ----------------------------------------------------------- monotone knowledge
def monotone(c):
    R = "monotone"
    L, me, ins, pre, iv, T, by, s, t, have, seen = ins_setup(c)
    rv, rty, post, events, panics = run_entry(L, "integrate_insertion", L.ref(me), L.ref(ins))
    grows(c, R, L, me, pre, post, "integrate_insertion")
    L, me, d, pre, dv, T, by, ts, have, noop = del_setup(c)
    rv, rty, post, events, panics = run_entry(L, "integrate_deletion", L.ref(me), L.ref(d))
    grows(c, R, L, me, pre, post, "integrate_deletion")
    L = lab(c)
    me = L.place("self", REP)
    pre = snapshot(L)
    a, b = L.sym("at_offset", "usize"), L.sym("len", "usize")
    L.assume(L.NOT(L.e.overflow("Add", L.e.add(vm_this(L, me, pre), b), L.ty("usize"))))
    *_, post, ev, pa = run_entry(L, "inserted", L.ref(me), a, b)
    for x in calls(ev, "RunTree::insert"):
        # decided by the rule over RunTree::insert
        for k, f in ((3, "run_clock"), (4, "lamport_clock")):
            L.assume(L.NOT(L.e.lt(L.f(x.post[k], L.fty(REP, f), "0"), L.f(L.get(me, pre), L.ty(REP), f + ".0"))))
    grows(c, R, L, me, pre, post, "inserted")
    L, me, rng, pre, st_, en, dl = del_local_setup(c)
    *_, post, ev, pa = run_entry(L, "deleted", L.ref(me), rng)
    grows(c, R, L, me, pre, post, "deleted")


def grows(c, R, L, me, pre, post, fn):
    w = where(L, F + fn)
    x = L.sym("any_replica", "u64")
    pg = post.g
    mx = L.e.I((1 << 64) - 1)
    ident = L.f(L.get(me, pre), L.ty(REP), "id")
    for f in ("version_map", "deletion_map"):
        # the maps belong to the replica (new/fork/decode), and don't wrap
        L.assume(L.e.eq(L.f(L.get(me, pre), L.ty(REP), f + ".this_id"), ident))
    for f in ("version_map", "deletion_map"):
        b, a = vm_get(L, me, f, x, pre), vm_get(L, me, f, x, post)
        if f == "deletion_map":
            L.assume(L.e.lt(b, mx))
            L.assume(L.e.lt(L.f(L.get(me, pre), L.ty(REP), "deletion_map.this_value"), mx))
        z = L.feasible(L.AND(pg, L.e.lt(a, b)))
        c.check(z == 0, R, f"{fn}: {f} never goes backwards", lambda: f"{fn} can forget what the replica knew of a peer ({f} goes from {trunc(b)} to {trunc(a)}) when {L.why(z)}", w)
    for f in ("lamport_clock", "run_clock"):
        b, a = (L.f(L.get(me, s), L.ty(REP), f + ".0") for s in (pre, post))
        z = L.feasible(L.AND(pg, L.e.lt(a, b)))
        c.check(z == 0, R, f"{fn}: {f} never goes backwards", lambda: f"{fn} can turn the {f} back when {L.why(z)}", w)
    d = L.diff(L.f(L.get(me, pre), L.ty(REP), "id"), L.f(L.get(me, post), L.ty(REP), "id"), pg)
    c.check(d == 0, R, f"{fn}: the id is kept", f"{fn} changes the replica's id", w)
    for f in ("version_map", "deletion_map"):
        d = L.diff(L.f(L.get(me, pre), L.ty(REP), f + ".this_id"), L.f(L.get(me, post), L.ty(REP), f + ".this_id"), pg)
        c.check(d == 0, R, f"{fn}: {f} stays the replica's own", f"{fn} changes the owner of {f}", w)
    done(c, L)

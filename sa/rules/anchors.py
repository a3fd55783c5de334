"""Anchors: what an anchor is attached to, and where it resolves to."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St
import models
from rules.runtree import Tree, Order, where, chk0, same, RT, T, G, RUN
from rules import replica

AN = "anchor::Anchor"
BIAS = "anchor::AnchorBias"


def setup(c):
    t = Tree(c)
    L = t.L
    e = L.e
    o = t.o = Order(t)
    o.pairs = {}
    t.me = L.place("self", RT)
    t.gt0 = L.f(L.get(t.me), RT, "gtree")
    t.found, t.vis = [], []
    us = L.ty("usize")
    for m in ("leaf_at_offset", "offset_of_leaf", "len"):
        e.userm[G + m] = {"leaf_at_offset": at_offset, "offset_of_leaf": offset_of, "len": length}[m](t, us)
    t.total = e.G1(NT("X", "visible length", us, t.gt0))
    return t


def before(t, us, gt, p):
    return t.L.e.G1(NT("X", "visible text before", us, gt, p))


def at_offset(t, us):
    def f(e, c, st):
        """the leaf whose visible text contains the character before `offset`"""
        if not t.o.isrun(c):
            return NotImplemented
        L = t.L
        gt = t.o.gt(c, st)
        off = c.args[1]
        p = NT("X", "leaf at", us, gt, off)
        it, ot = e.prog.types[c.dty]["es"]
        lo = before(t, us, gt, p)
        run = t.o.runat(gt, p)
        n = t.len(run)
        pos = L.NOT(e.eqc(off, 0))
        L.assume(L.OR(L.NOT(pos), L.AND(e.lt(lo, off), L.NOT(e.lt(e.add(lo, n), off)), L.NOT(t.dead(run)))))
        t.found.append((st.g, gt, off, p))
        return e.mkA(c.dty, [(0, 1, (t.o.mkidx(it, p), lo))]), models.fresh(st)
    return f


def offset_of(t, us):
    def f(e, c, st):
        if not t.o.isrun(c):
            return NotImplemented
        gt = t.o.gt(c, st)
        out = None
        for p, g in t.o.pos(c.args[1], c.atys[1]):
            v = before(t, us, gt, p)
            out = v if out is None else e.mux(g, v, out)
        t.vis.append((st.g, gt, c.args[1], c.atys[1], out))
        return out, models.fresh(st)
    return f


def length(t, us):
    def f(e, c, st):
        if not t.o.isrun(c):
            return NotImplemented
        return e.G1(NT("X", "visible length", us, t.o.gt(c, st))), models.fresh(st)
    return f


def creation(c):
    """the character an anchor is attached to"""
    R = "anchor-creation"
    t = setup(c)
    L, o = t.L, t.o
    e = L.e
    fn = T + "create_anchor"
    w = where(L, fn)
    inst = L.fn(fn)
    at = L.sym("offset", inst["body"]["locals"][2])
    bias = L.sym("bias", inst["body"]["locals"][3])
    bty = inst["body"]["locals"][3]
    left, right = L.isv(bias, bty, "Left"), L.isv(bias, bty, "Right")
    L.assume(L.NOT(e.lt(t.total, at)))
    rv, out, rty = L.call(fn, L.ref(t.me), at, bias)
    if not c.check(out is not None, R, "returns", "creating an anchor never returns", w):
        return
    z0, atend = e.eqc(at, 0), e.eq(at, t.total)
    end = L.AND(atend, right)
    begin = L.AND(z0, left)
    mid = L.AND(out.g, L.NOT(end), L.NOT(begin))
    AT = rty
    for name, g, side in (("start_of_document", begin, "Left"), ("end_of_document", end, "Right")):
        here = L.AND(out.g, g)
        inner0, IT0 = L.f(rv, AT, "inner"), L.fty(AT, "inner")
        what = f"the anchor at the {name.replace('_', ' ')} is wrong"
        for f in ("replica_id", "offset", "contained_in"):
            same(c, R, L, L.f(inner0, IT0, f), e.I(0), here, f"{name} is in nobody's text ({f})", what, w)
        chk0(c, R, L, L.AND(here, L.NOT(L.isv(L.f(rv, AT, "bias"), L.fty(AT, "bias"), side))), f"{name} is special", what, w)
    same(c, R, L, L.f(rv, AT, "bias"), bias, mid, "the bias is kept", "the anchor has another bias", w)
    c.check(L.feasible(L.AND(begin, L.NOT(out.g))) == 0, R, "the start has an anchor", "no anchor can be made at the start of the document", w)
    c.check(L.feasible(L.AND(end, L.NOT(out.g))) == 0, R, "the end has an anchor", "no anchor can be made at the end of the document", w)
    # searches for the next visible run
    loops = {}
    for ls, g, gt, s, term in o.nexts:
        for i in ls[-1:]:
            loops.setdefault(i, []).append((g, gt, s, term))
    exits = {}
    for i, l in loops.items():
        r = e.loops[i]
        c.check(len(l) >= 1, R, "search looks at runs", "the search for a visible run looks at nothing", w)
        l = [x for x in l if x[3] in r.phis]
        for g, gt, s, term in l:
            run = o.runat(gt, s)
            same(c, R, L, gt, t.gt0, g, "the search runs over the document", "the search runs over something else", w)
            chk0(c, R, L, L.AND(r.cont, g, L.NOT(t.dead(run))), "no visible run is passed over", "a visible run is passed over", w)
            for ph, (i0, i1, _) in r.phis.items():
                if ph is term:
                    exits[s] = (i0, i1, ph, r)
                    for u, h in e.galts(i1):
                        z = L.feasible(L.AND(h, r.cont))
                        if z:
                            c.check(o.itpos(u)[1] is s, R, "runs are visited one after the other", "the search for a visible run skips runs", w)
    # the returned anchor: alternatives over the run it's in
    inner, IT = L.f(rv, AT, "inner"), L.fty(AT, "inner")
    cases = []
    for g, gt, off, p in t.found:
        cases.append(("found", p, L.AND(g, out.g)))
        same(c, R, L, off, at, L.AND(g, mid), "the run is looked up at the offset", "the run is looked up at another offset", w)
    covered = 0
    for kind, p, g in cases:
        run = o.runat(t.gt0, p)
        lo = before(t, L.ty("usize"), t.gt0, p)
        n = t.len(run)
        last = e.eq(e.add(lo, n), at)
        own = L.AND(mid, g, L.OR(left, L.NOT(last)))
        covered = L.OR(covered, own)
        attached(c, R, t, inner, IT, run, e.add(t.start(run), e.sub(at, lo)), own, "the run that contains the offset", w)
        nxt = L.AND(mid, g, right, last)
        got = 0
        for s, (i0, i1, ph, r) in exits.items():
            for u, h in e.galts(i0):
                if o.itpos(u)[1] is p:
                    got = L.OR(got, L.AND(nxt, h))
                    # (there is visible text after the offset, so the search finds some)
                    hh = L.AND(nxt, h, o.has(t.gt0, term_pos(o, ph), False))
                    nr = o.runat(t.gt0, s)
                    attached(c, R, t, inner, IT, nr, t.start(nr), hh, "the next visible run", w)
                    chk0(c, R, L, L.AND(hh, t.dead(nr)), "right-biased anchors are attached to visible text", "the anchor is attached to a deleted run", w)
        covered = L.OR(covered, nxt)
        chk0(c, R, L, L.AND(nxt, L.NOT(got)), "at the end of a run the next visible one is searched", "a right-biased anchor at the end of a run isn't attached to the next visible one", w)
    fst = L.AND(mid, z0, right)
    got = 0
    for s, (i0, i1, ph, r) in exits.items():
        for u, h in e.galts(i0):
            q = o.itpos(u)[1]
            if q.k == "X" and q.a[0] == "before" and q.a[3].k == "X" and q.a[3].a[0] == "first":
                got = L.OR(got, L.AND(fst, h, r.g))
                hh = L.AND(fst, h, r.g, o.has(t.gt0, term_pos(o, ph), False))
                nr = o.runat(t.gt0, s)
                attached(c, R, t, inner, IT, nr, t.start(nr), hh, "the first visible run", w)
                chk0(c, R, L, L.AND(hh, t.dead(nr)), "right-biased anchors are attached to visible text", "the anchor is attached to a deleted run", w)
    chk0(c, R, L, L.AND(fst, L.NOT(got)), "at the start the first visible run is searched", "a right-biased anchor at the start isn't attached to the first visible run", w)
    chk0(c, R, L, L.AND(mid, L.NOT(L.OR(covered, fst))), "every anchor is attached to a run", "an anchor isn't attached to any run", w)
    # panics: only the search's running out of visible runs
    for p in e.panics:
        ran = L.OR(*[L.NOT(o.has(gt, term_pos(o, term), False)) for _, _, gt, s, term in o.nexts] or [0])
        chk0(c, R, L, L.AND(p.g, L.NOT(ran)), "does not panic", f"creating an anchor panics ({p.extra} at {p.span})", w)
    c.floor("runs an anchor can be attached to", len(cases) + len(exits), 3)
    c.analysed |= e.analysed


def term_pos(o, term):
    return o.itpos(term)[1]


def attached(c, R, t, inner, IT, run, off, g, what, w):
    L = t.L
    same(c, R, L, L.f(inner, IT, "replica_id"), t.by(run), g, f"attached to {what}: author", f"the anchor in {what} names the wrong author", w)
    same(c, R, L, L.f(inner, IT, "contained_in"), t.f(run, "run_ts"), g, f"attached to {what}: run", f"the anchor in {what} names the wrong run", w)
    same(c, R, L, L.f(inner, IT, "offset"), off, g, f"attached to {what}: character", f"the anchor in {what} has the wrong offset", w)


def resolution(c):
    """where an anchor resolves to"""
    R = "anchor-resolution"
    t = setup(c)
    L, o = t.L, t.o
    e = L.e
    fn = T + "resolve_anchor"
    w = where(L, fn)
    inst = L.fn(fn)
    AT = inst["body"]["locals"][2]
    a = L.sym("anchor", AT)
    inner, IT = L.f(a, AT, "inner"), L.fty(AT, "inner")
    bias = L.f(a, AT, "bias")
    bty = L.fty(AT, "bias")
    zero = L.nowhere(inner, IT)
    rv, out, rty = L.call(fn, L.ref(t.me), a)
    if not c.check(out is not None, R, "returns", "resolving an anchor never returns", w):
        return
    left = L.isv(bias, bty, "Left")
    same(c, R, L, rv, e.I(0), L.AND(zero, left, out.g), "the start of the document is offset 0", "the start of the document doesn't resolve to 0", w)
    same(c, R, L, rv, t.total, L.AND(zero, L.NOT(left), out.g), "the end of the document is its length", "the end of the document doesn't resolve to the document's length", w)
    at = [ev for ev in e.events if ev.kind == "call" and ev.inst["def"].endswith("RunIndices::idx_at_anchor")]
    looked = 0
    for ev in at:
        looked = L.OR(looked, ev.g)
        same(c, R, L, ev.args[1], inner, ev.g, "the anchor's own run is looked up", "another anchor is looked up", w)
        same(c, R, L, ev.args[2], bias, ev.g, "it's looked up with its bias", "the anchor is looked up with another bias", w)
        same(c, R, L, ev.args[0], L.f(L.get(t.me), RT, "run_indices"), ev.g, "it's looked up in the document's index", "the anchor is looked up elsewhere", w)
    go = L.AND(L.NOT(zero), out.g)
    chk0(c, R, L, L.AND(go, L.NOT(looked)), "anchors are looked up", "an anchor isn't looked up", w)
    for ev in at:
        for p, g in o.pos(ev.ret, ev.inst["body"]["locals"][0]):
            gg = L.AND(go, ev.g, g)
            run = o.runat(t.gt0, p)
            lo = before(t, L.ty("usize"), t.gt0, p)
            # the index answers with the run that contains the anchor
            L.assume(L.NOT(e.lt(L.f(inner, IT, "offset"), t.start(run))))
            same(c, R, L, rv, lo, L.AND(gg, t.dead(run)), "anchors in deleted text resolve to where it was", "an anchor in deleted text resolves elsewhere", w)
            same(c, R, L, rv, e.add(lo, e.sub(L.f(inner, IT, "offset"), t.start(run))), L.AND(gg, L.NOT(t.dead(run))), "anchors in visible text resolve to their character", "an anchor in visible text resolves elsewhere", w)
    for p in e.panics:
        chk0(c, R, L, p.g, "does not panic", f"resolving an anchor panics ({p.extra} at {p.span})", w)
    c.floor("index lookups of anchors", len(at), 1)
    c.analysed |= e.analysed


def gate(c):
    """which anchors a replica resolves"""
    R = "anchor-gate"
    L = replica.lab(c)
    e = L.e
    me = L.place("self", replica.REP)
    inst = L.fn(replica.F + "resolve_anchor")
    AT = inst["body"]["locals"][2]
    a = L.sym("anchor", AT)
    inner, IT = L.f(a, AT, "inner"), L.fty(AT, "inner")
    by, off = L.f(inner, IT, "replica_id"), L.f(inner, IT, "offset")
    zero = L.nowhere(inner, IT)
    L.assume(L.OR(L.NOT(zero), L.AND(e.eqc(off, 0), e.eqc(by, 0))))
    left = L.isv(L.f(a, AT, "bias"), L.fty(AT, "bias"), "Left")
    pre = replica.snapshot(L)
    rv, rty, post, events, panics = replica.run_entry(L, "resolve_anchor", L.ref(me), a)
    w = replica.where(L, replica.F + "resolve_anchor")
    v = replica.vm_get(L, me, "version_map", by, pre)
    known = L.OR(zero, e.lt(off, v), L.AND(left, e.eq(off, v)))
    z = L.feasible(L.b.XOR(L.isv(rv, rty, "Some"), known))
    c.check(z == 0, R, "resolved exactly if the replica has the text it is attached to", lambda: f"an anchor is resolved although its text is unknown, or the other way round, when {L.why(z)}", w)
    ev = [x for x in events if x.kind == "call" and x.inst["def"].endswith("RunTree::resolve_anchor")]
    c.floor("resolutions in the document", len(ev), 1)
    got = 0
    for x in ev:
        got = L.OR(got, x.g)
        same(c, R, L, x.args[1], a, x.g, "the anchor itself is resolved", "another anchor is resolved", w)
        same(c, R, L, L.payload(rv, rty, "Some"), x.ret, L.AND(x.g, known), "the document's answer is returned", "another offset is returned", w)
    chk0(c, R, L, L.AND(known, L.NOT(got)), "known anchors are resolved in the document", "a known anchor isn't resolved in the document", w)
    for p in panics:
        chk0(c, R, L, p.g, "does not panic", f"resolving an anchor panics ({p.extra} at {p.span})", w)
    d = L.diff(L.get(me, pre), L.get(me, post))
    c.check(d == 0, R, "resolving changes nothing", "resolving an anchor changes the replica", w)
    # creating
    L2 = replica.lab(c)
    me = L2.place("self", replica.REP)
    inst = L2.fn(replica.F + "create_anchor")
    at, b = L2.sym("offset", inst["body"]["locals"][2]), L2.sym("bias", inst["body"]["locals"][3])
    rv, rty, post, events, panics = replica.run_entry(L2, "create_anchor", L2.ref(me), at, b)
    w = replica.where(L2, replica.F + "create_anchor")
    ev = [x for x in events if x.kind == "call" and x.inst["def"].endswith("RunTree::create_anchor")]
    c.floor("anchors made by the document", len(ev), 1)
    got = 0
    for x in ev:
        got = L2.OR(got, x.g)
        same(c, R, L2, x.args[1], at, x.g, "made at the offset", "the anchor is made at another offset", w)
        same(c, R, L2, x.args[2], b, x.g, "made with the bias", "the anchor is made with another bias", w)
        same(c, R, L2, rv, x.ret, L2.AND(x.g, post.g), "the document's anchor is returned", "another anchor is returned", w)
    chk0(c, R, L2, L2.AND(post.g, L2.NOT(got)), "anchors are made by the document", "an anchor isn't made by the document", w)
    c.analysed |= L.e.analysed | L2.e.analysed

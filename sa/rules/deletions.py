"""Deletions by other replicas: which characters merge_deletion deletes, which
ranges it reports, and that deleting never moves or loses text."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St
import models
from rules.runtree import Tree, Order, where, chk0, same, RT, T, G, RUN

DL = T + "delete_leaf_range"


def setup(c):
    t = Tree(c, extra=[r"cola::run_tree::RunTree::delete_leaf_range"])
    L = t.L
    e = L.e
    o = t.o = Order(t)
    o.pairs = {}
    t.us = L.ty("usize")
    me = t.me = L.place("self", RT)
    gty = t.gty = L.fty(L.ty(RT), "gtree")
    t.ity = L.fty(L.ty(RT), "run_indices")
    e.atomic = frozenset(e.atomic) | {gty, t.ity}
    t.gt0 = L.f(L.get(me), RT, "gtree")
    t.droot = L.place("deletion", "deletion::Deletion")
    e.userm["<cola::gtree::LeafIdx<L> as std::cmp::PartialEq>::eq"] = lambda e, c, st: idxeq(t, e, c, st)
    return t


def idxeq(t, e, c, st):
    o, L = t.o, t.L
    if not o.isrun(c):
        return NotImplemented
    a, _, aty = models.deref(e, c, 0, st)
    b, _, bty = models.deref(e, c, 1, st)
    r = 0
    for p, g in o.pos(a, aty):
        for q, h in o.pos(b, bty):
            r = L.OR(r, L.AND(g, h, 1 if p is q else e.eq(e.G1(p), e.G1(q))))
    return e.B(r), st


class Soft:
    """Collects the outcome of alternative readings of a rule."""

    def __init__(self):
        self.out = []

    def check(self, ok, rule, inst, msg="", where=""):
        self.out.append((bool(ok), rule, inst, (msg() if callable(msg) else msg) if not ok else "", where))
        return ok

    def bad(self):
        return sum(not o[0] for o in self.out)

    def into(self, c):
        for o in self.out:
            c.check(*o)


def best(c, tries):
    """the first reading that holds, otherwise the one that nearly does"""
    l = []
    for f in tries:
        s = Soft()
        f(s)
        l.append(s)
        if not s.bad():
            break
    s = min(l, key=lambda s: s.bad())
    s.into(c)


def version(t, by):
    """what the deletion's version map says of a replica"""
    L = t.L
    d = L.get(t.droot)
    ty = L.ty("deletion::Deletion")
    mty = L.fty(ty, "version_map")
    if not hasattr(t, "vroot"):
        t.vroot = L.place("the_version_map", mty, L.f(d, ty, "version_map"))
        want = L.fty(mty, "this_value")
        t.vget = [i for i in L.prog.find(r"cola::version_map::BaseMap::<T>::get") if i["body"]["locals"][0] == want]
        if not t.vget:
            raise MissingAnchor("BaseMap::get")
    return L.pure(t.vget[0], L.ref(t.vroot), by)


class Step:
    """What happens at one leaf: `lo` characters are passed over, `n` are
    deleted, `skip` are passed over; nothing if it's not visible."""

    def __init__(self, name, g, pos, gt, run, lo, hi, deletes):
        self.name, self.g, self.pos, self.gt, self.run, self.lo, self.hi, self.deletes = name, g, pos, gt, run, lo, hi, deletes


def merge(c):
    """which text a merged deletion deletes, and which ranges it reports"""
    R = "merge-deletion"
    t = setup(c)
    L, o = t.L, t.o
    e = L.e
    fn = T + "merge_deletion"
    w = where(L, fn)
    e.userm[G + "offset_of_leaf"] = offset_of(t)
    DT = L.ty("deletion::Deletion")
    d = L.get(t.droot)
    AT = L.fty(DT, "start")
    a1, a2 = L.f(d, DT, "start"), L.f(d, DT, "end")
    zero = L.nowhere(a1, AT)
    so, eo = L.f(a1, AT, "offset"), L.f(a2, AT, "offset")
    rv, out, rty = L.call(fn, L.ref(t.me), L.ref(t.droot))
    if not c.check(out is not None, R, "returns", "merging a deletion never returns", w):
        return
    # the two ends
    at = [ev for ev in e.events if ev.kind == "call" and ev.inst["def"].endswith("RunIndices::idx_at_anchor")]
    c.floor("lookups of the ends of a deletion", len(at), 2)
    first, last = [], []
    bias = {}
    for ev in at:
        ity = ev.inst["body"]["locals"][0]
        right = L.isv(ev.args[2], ev.inst["body"]["locals"][3], "Right")
        isfirst = L.diff(ev.args[1], a1, ev.g) == 0
        islast = L.diff(ev.args[1], a2, ev.g) == 0
        c.check(isfirst or islast, R, "the ends of the deletion are looked up", "something else than the ends of the deletion is looked up", w)
        ps = [(p, L.AND(ev.g, g)) for p, g in o.pos(ev.ret, ity)]
        if isfirst:
            chk0(c, R, L, L.AND(ev.g, zero), "a deletion from the start of the document has no first run to look up", "the start of the document is looked up", w)
            chk0(c, R, L, L.AND(ev.g, L.NOT(right)), "the first deleted character is looked up", "the start of the deletion is looked up with the wrong bias", w)
            first += [(p, g) for p, g in ps]
        else:
            chk0(c, R, L, L.AND(ev.g, right), "the last deleted character is looked up", "the end of the deletion is looked up with the wrong bias", w)
            last += ps
        same(c, R, L, ev.args[0], L.f(L.get(t.me), RT, "run_indices"), L.AND(ev.g, L.OR(isfirst and 1 or 0, 0)), "looked up in the index", "the start of the deletion is looked up elsewhere", w)
    for p, g in first:
        run = o.runat(t.gt0, p)
        L.assume(L.OR(zero, L.AND(L.NOT(e.lt(so, t.start(run))), e.lt(so, t.end(run)))))
    # loops over the document
    loops = {}
    for ls, g, gt, s, term in o.nexts:
        if ls:
            loops.setdefault(ls[-1], []).append((g, gt, s, term))
    search, main = [], []
    for i, l in loops.items():
        if i >= len(e.loops):
            continue
        r = e.loops[i]
        l = [x for x in l if x[3] in r.phis]
        for x in l:
            init = r.phis[x[3]][0]
            q = [o.itpos(u)[1] for u, h in e.galts(init)]
            fromfirst = all(u.k == "X" and u.a[0] == "before" and u.a[3].k == "X" and u.a[3].a[0] == "first" for u in q)
            (search if fromfirst else main).append((r,) + x)
    if not c.check(len(search) == 1 and len(main) == 1, R, "two walks", lambda: f"merging a deletion walks the document in {len(search)} + {len(main)} ways instead of searching the first run and then walking to the last", w):
        return
    # the first run of a deletion from the start of the document
    r, g, gt, s, term = search[0]
    same(c, R, L, gt, t.gt0, g, "the search runs over the document", "the first run is searched elsewhere", w)
    run = o.runat(gt, s)
    known = e.lt(t.start(run), version(t, t.by(run)))
    chk0(c, R, L, L.AND(r.cont, g, known), "no known run is passed over", "a run the deleting replica knew is passed over", w)
    for u, h in e.galts(r.phis[term][1]):
        if L.feasible(L.AND(h, r.cont)):
            c.check(o.itpos(u)[1] is s, R, "runs are searched one after the other", "the search for the first run skips runs", w)
    first.append((s, L.AND(g, zero)))
    chk0(c, R, L, L.AND(out.g, g, L.NOT(r.cont), zero, L.NOT(known)), "the first run was known", "a deletion from the start begins with a run the deleting replica didn't know", w)
    # steps
    m, mg, mgt, ms, mterm = main[0]
    steps = []
    same0 = 0
    begin = 0
    for p, g in first:
        run = o.runat(t.gt0, p)
        lo = e.mux(zero, e.I(0), e.sub(so, t.start(run)))
        v = version(t, t.by(run))
        one = L.AND(e.eq(t.by(run), L.f(a2, AT, "replica_id")), e.lt(t.start(run), eo), L.NOT(e.lt(t.end(run), eo)))
        # the ends are in order, and the deleting replica knew them
        L.assume(L.OR(L.NOT(g), zero, e.lt(so, v)))
        L.assume(L.OR(L.NOT(g), zero, L.NOT(one), e.lt(so, eo)))
        L.assume(L.OR(L.NOT(g), L.NOT(one), L.NOT(e.lt(v, eo))))
        hi = e.mux(one, eo, e.mux(e.lt(v, t.end(run)), v, t.end(run)))
        same0 = L.OR(same0, L.AND(g, one))
        begin = L.OR(begin, g)
        steps.append(Step("the first run", L.AND(g, out.g), p, t.gt0, run, lo, e.sub(hi, t.start(run)), L.NOT(t.dead(run))))
    inloop = L.AND(m.g, L.NOT(same0))
    chk0(c, R, L, L.AND(m.g, same0), "a deletion inside one run ends there", "a deletion inside one run goes on after it", w)
    chk0(c, R, L, L.AND(out.g, L.NOT(m.g), L.NOT(same0)), "a deletion of many runs goes on after the first", "a deletion ends with its first run although its end is elsewhere", w)
    chk0(c, R, L, L.AND(out.g, L.NOT(begin)), "a deletion begins somewhere", "a deletion has no first run", w)
    run = o.runat(mgt, ms)
    v = version(t, t.by(run))
    isend = 0
    for p, g in last:
        isend = L.OR(isend, L.AND(g, e.eq(e.G1(p), e.G1(ms))))
    L.assume(L.OR(L.NOT(isend), e.lt(t.start(run), eo)))
    L.assume(e.lt(t.start(run), t.end(run)))
    partial = e.mux(e.lt(v, t.end(run)), v, t.end(run))
    hi = e.mux(isend, eo, partial)
    it = Step("a later run", mg, ms, mgt, run, e.I(0), e.sub(hi, t.start(run)), L.AND(L.NOT(t.dead(run)), L.OR(isend, e.lt(t.start(run), v))))
    steps.append(it)
    chk0(c, R, L, L.AND(m.cont, mg, isend), "the walk ends with the last run", "the walk goes on after the last run of the deletion", w)
    chk0(c, R, L, L.AND(out.g, m.g, mg, L.NOT(m.cont), L.NOT(isend)), "the walk doesn't end before the last run", "the walk ends before the last run of the deletion", w)
    # deletions
    dels = []
    for ev in e.events:
        if ev.kind == "call" and ev.inst["def"] == DL:
            tys = ev.inst["body"]["locals"]
            rg = (e.getf(ev.args[3], tys[4], 0, 0), e.getf(ev.args[3], tys[4], 0, 1))
            RTy = L.ty(RT)
            gt = e.getf(ev.args[0], RTy, 0, L.prog.field_names(RTy).index("gtree"))
            dels.append(("part", ev.g, ev.args[1], tys[2], rg, ev, gt))
    for k in t.calls:
        if k["kind"] == "with" and all(i < len(e.loops) for i in k["loop"]) and any(p is ms for p, g in o.pos(k["idx"], k["ity"])) == bool(k["loop"]):
            dels.append(("whole", k["g"], k["idx"], k["ity"], k, None, k["gt"]))
    c.floor("places where text is deleted", len(dels), 3)
    lastpos = {p for p, g in last}
    done = {id(x): 0 for x in steps}
    for kind, g, idx, ity, what, ev, gt in dels:
        n = 0
        for p, h in o.pos(idx, ity):
            gg = L.AND(g, h)
            if not L.feasible(gg):
                continue
            hit = [x for x in steps if x.pos is p]
            if not hit and p in lastpos:
                hit = [it]
                chk0(c, R, L, L.AND(gg, L.NOT(isend)), "the last run is deleted when it's reached", "the last run is deleted before it is reached", w)
            if not c.check(bool(hit), R, "only visited runs are deleted", lambda: f"text is deleted in {trunc(p)}, which isn't the run being visited", w):
                continue
            for x in hit:
                n += 1
                hh = L.AND(gg, x.g)
                chk0(c, R, L, L.AND(hh, done[id(x)]), "deleted once", f"{x.name} is deleted twice", w)
                done[id(x)] = L.OR(done[id(x)], hh)
                chk0(c, R, L, L.AND(hh, t.dead(x.run)), "only visible text is deleted", f"{x.name} is deleted although it's already deleted", w)
                chk0(c, R, L, L.AND(hh, L.NOT(x.deletes)), "only known text is deleted", f"{x.name} is deleted although the deleting replica didn't know it", w)
                same(c, R, L, gt, x.gt, hh, "deleted in the current document", f"{x.name} is deleted in another document", w)
                if kind == "part":
                    same(c, R, L, what[0], x.lo, hh, f"{x.name} is deleted from the right character", f"{x.name} is deleted from the wrong character", w)
                    same(c, R, L, what[1], x.hi, hh, f"{x.name} is deleted up to the right character", f"{x.name} is deleted up to the wrong character", w)
                else:
                    wholly(c, R, t, x, what, hh, w)
    for x in steps:
        chk0(c, R, L, L.AND(x.g, x.deletes, L.NOT(done[id(x)]), L.OR(out.g, m.cont)), "what the deleting replica saw is deleted", f"known text of {x.name} isn't deleted", w)
    # the walk
    partof = []
    for kind, g, idx, ity, what, ev, gt in dels:
        if kind == "part":
            for q, h in o.pos(ev.ret, ev.inst["body"]["locals"][0]):
                partof.append((q, L.AND(g, h), [p for p, h in o.pos(idx, ity)]))
    for x, val, g in [(x, m.phis[mterm][0], m.g) for x in steps[:-1]] + [(it, m.phis[mterm][1], m.cont)]:
        g = L.AND(g, x.g)
        dpart = 0
        for q, h, ps in partof:
            if x.pos in ps:
                dpart = L.OR(dpart, h)
        for u, h in e.galts(val):
            gu, p = o.itpos(u)
            hh = L.AND(g, h)
            if not L.feasible(hh):
                continue
            if gu is None:
                c.check(False, R, "the walk moves on", f"after {x.name} the walk doesn't move on", w)
                continue
            nx = o.succ(gu, p)
            after = [(q, k) for q, k, ps in partof if q is nx and x.pos in ps]
            if after:
                chk0(c, R, L, L.AND(hh, *[L.NOT(k) for q, k in after]), "the walk continues with the rest of the run", f"after {x.name} the walk continues with another run", w)
            else:
                old = nx is o.succ(gu, x.pos) or nx is o.succ(t.gt0, x.pos)
                c.check(old, R, "the walk visits every run", lambda: f"after {x.name} the walk continues with {trunc(nx)}", w)
                chk0(c, R, L, L.AND(hh, dpart), "the walk continues with the rest of the run", f"after a part of {x.name} is deleted the walk continues with another run", w)
    # ranges
    us = [(ph, x) for ph, x in m.phis.items() if o.tyofphi(m, ph) == t.us and x[2][1][-1:] != (("disc",),)]
    flags = []
    for ph, (i0, i1, (root, path)) in m.phis.items():
        if path[-1:] == (("disc",),):
            ty = e.pathty(e.root_ty[root], path[:-1])
            for k, v in enumerate(L.prog.types[ty]["vs"]):
                def vg(val, k=k, ty=ty):
                    return L.isv(val, ty, L.prog.types[ty]["vs"][k]["n"])
                pays = [q for q, y in m.phis.items() if y[2][0] == root and y[2][1] == path[:-1] + (("f", k, 0),)]
                flags.append((e.is_variant(ph, k, ty), vg(i0), vg(i1), pays))
        elif L.prog.types[o.tyofphi(m, ph)]["k"] == "bool":
            for neg in (False, True):
                f = (lambda x: L.NOT(L.G(x))) if neg else L.G
                flags.append((f(e.symval(ph, o.tyofphi(m, ph))), f(i0), f(i1), [q for q, y in us]))
    vec = [ph for ph, x in m.phis.items() if o.tyofphi(m, ph) == rty]
    if not c.check(len(vec) == 1, R, "ranges are collected", "the walk doesn't collect ranges", w):
        return
    vec = vec[0]

    def pushes(val, g, base):
        """[(guard, pushed range or None)] relative to the value `base`"""
        res = []
        for u, h in e.galts(val):
            hh = L.AND(g, h)
            if not L.feasible(hh):
                continue
            if base(u):
                res.append((hh, None))
            elif u.k == "X" and u.a[0] == "push":
                seq, el = u.a[2], u.a[3]
                seqs = e.galts(seq) if seq.k == "G" else [(seq, 1)]
                for v, h2 in seqs:
                    h3 = L.AND(hh, h2)
                    if base(v):
                        res.append((h3, el))
                    elif L.feasible(h3):
                        raise Imprecise("several ranges at once: " + trunc(v))
            else:
                raise Imprecise("ranges: " + trunc(u))
        return res

    def isnew(u):
        return e.lenof(e.G1(u), rty) is e.I(0) or trunc(u).startswith("new(")

    def step(S, x, g, pend, s, vo, pushed, pend2, s2, vo2, final=False):
        n = e.sub(x.hi, x.lo)
        pos = L.AND(x.deletes, 1)
        has = L.OR(pend, pos)
        base = e.mux(pend, s, e.add(vo, x.lo)) if pend else e.add(vo, x.lo)
        end = e.mux(pos, e.add(e.add(vo, x.lo), n), vo)
        skips = L.AND(L.NOT(t.dead(x.run)), L.NOT(x.deletes))
        vnew = e.mux(skips, e.add(vo, t.len(x.run)), end)
        for h, el in pushed:
            hh = L.AND(g, h)
            if el is None:
                if final:
                    chk0(S, R, L, L.AND(hh, has), "every deleted range is reported", f"text deleted up to {x.name} isn't reported", w)
                    continue
                chk0(S, R, L, L.AND(hh, has, skips), "ranges end where kept text begins", f"a reported range goes on although {x.name} is kept", w)
                chk0(S, R, L, L.AND(hh, L.b.XOR(has, pend2)), "ranges are kept until they're reported", f"after {x.name} a deleted range is forgotten or reported twice", w)
                same(S, R, L, s2, base, L.AND(hh, has), "ranges start where the deletion does", f"after {x.name} the reported range has another start", w)
            else:
                chk0(S, R, L, L.AND(hh, L.NOT(has)), "only deleted text is reported", f"a range is reported at {x.name} although nothing was deleted", w)
                rt = rangety
                same(S, R, L, e.getf(el, rt, 0, 0), base, L.AND(hh, has), "reported ranges start where the deletion does", f"the range reported at {x.name} has the wrong start", w)
                same(S, R, L, e.getf(el, rt, 0, 1), end, L.AND(hh, has), "reported ranges end where the deletion does", f"the range reported at {x.name} has the wrong end", w)
                if not final:
                    chk0(S, R, L, L.AND(hh, pend2), "ranges are reported once", f"a range is reported at {x.name} and again later", w)
        if not final:
            same(S, R, L, vo2, vnew, g, "the visible offset is counted", f"after {x.name} the visible offset is wrong", w)

    RG = [i for i, ty in enumerate(L.prog.types) if ty["k"] == "adt" and ty["n"].endswith("ops::Range<usize>")]
    rangety = RG[0] if RG else L.ty("std::ops::Range<usize>")
    init = pushes(m.phis[vec][0], m.g, isnew)
    back = pushes(m.phis[vec][1], m.cont, lambda u: u is vec)
    ret0 = pushes(rv, L.AND(out.g, L.NOT(m.g)), lambda u: u is not vec and isnew(u)) if L.feasible(L.AND(out.g, L.NOT(m.g))) else []
    ret1 = pushes(rv, L.AND(out.g, m.g), lambda u: u is vec)

    def reading(flag, s, vo):
        def f(S):
            pd, pd0, pd1, _ = flag
            for x in steps[:-1]:
                b = before(t, t.gt0, x.pos)
                step(S, x, L.AND(x.g, m.g), 0, None, b, init, pd0, m.phis[s][0], m.phis[vo][0])
                step(S, x, L.AND(x.g, L.NOT(m.g)), 0, None, b, ret0, None, None, None, True)
            sv, vv = e.G1(s), e.G1(vo)
            step(S, it, L.AND(it.g, m.cont), pd, sv, vv, back, pd1, m.phis[s][1], m.phis[vo][1])
            step(S, it, L.AND(it.g, out.g, L.NOT(m.cont)), pd, sv, vv, ret1, None, None, None, True)
        return f
    tries = [reading(fl, s, vo) for fl in flags for s in fl[3] for vo, _ in us]
    c.check(bool(tries), R, "the walk tracks the range being deleted", "the walk doesn't track the range being deleted", w)
    if tries:
        best(c, tries)

    # the offset of the run, as told to the deletion of a part of it
    def told(lf):
        def f(S):
            for x in steps[:-1]:
                b = before(t, t.gt0, x.pos)
                if lf is not None:
                    same(S, R, L, m.phis[lf][0], e.mux(x.deletes, e.add(b, x.lo), b), L.AND(x.g, m.g), "the run's offset is tracked", f"after {x.name} the offset of the next run is wrong", w)
            if lf is not None:
                kept = L.AND(L.NOT(t.dead(it.run)), L.NOT(it.deletes))
                same(S, R, L, m.phis[lf][1], e.mux(kept, e.add(e.G1(lf), t.len(it.run)), e.G1(lf)), L.AND(it.g, m.cont), "the run's offset is tracked", "the offset of the next run is wrong", w)
            for kind, g, idx, ity, what, ev, gt in dels:
                if kind != "part":
                    continue
                for p, h in o.pos(idx, ity):
                    hh = L.AND(g, h)
                    hit = [x for x in steps if x.pos is p] or ([it] if p in lastpos else [])
                    for x in hit:
                        want = before(t, gt, p)
                        if x is it and L.diff(ev.args[2], want, hh) and lf is not None:
                            want = e.G1(lf)
                        same(S, R, L, ev.args[2], want, L.AND(hh, x.g), "runs are deleted at their offset", f"{x.name} is deleted at another offset than its own", w)
        return f
    best(c, [told(ph) for ph, x in us] + [told(None)])
    for p in e.panics:
        ok = L.feasible(p.g)
        c.check(ok == 0 or "unwrap" in p.extra or "overflow:Add" in p.extra, R, "does not panic", lambda: f"merging a deletion panics ({p.extra} at {p.span}) when {L.why(ok)}", w)
    c.analysed |= e.analysed


def before(t, gt, p):
    return t.L.e.G1(NT("X", "visible text before", t.us, gt, p))


def offset_of(t):
    def f(e, c, st):
        if not t.o.isrun(c):
            return NotImplemented
        gt = t.o.gt(c, st)
        out = None
        for p, g in t.o.pos(c.args[1], c.atys[1]):
            v = before(t, gt, p)
            out = v if out is None else e.mux(g, v, out)
        return out, models.fresh(st)
    return f


def wholly(c, R, t, x, k, g, w):
    """with_leaf_mut must delete the run and nothing else"""
    L = t.L
    pre, post = k["pre"], k["post"]
    chk0(c, R, L, L.AND(g, L.NOT(t.dead(post))), "whole runs are deleted", f"{x.name} isn't deleted", w)
    for f in ("text.range.start", "text.range.end", "text.inserted_by", "run_ts", "lamport_ts"):
        same(c, R, L, t.f(post, f), t.f(pre, f), g, f"deleting a run keeps its {f}", f"deleting {x.name} changes its {f}", w)
    same(c, R, L, x.lo, L.e.I(0), g, "whole runs are deleted from their start", f"{x.name} is deleted whole instead of from inside", w)
    same(c, R, L, x.hi, t.len(x.run), g, "whole runs are deleted to their end", f"{x.name} is deleted whole instead of in part", w)


# ------------------------------------------------ what is done to the runs
def rangety(L, inst, i):
    """the crate's own range type"""
    return inst["body"]["locals"][i]


class Cut:
    """Contracts of Gtree::delete and Gtree::delete_leaf_range: which closure is
    called on which run, and what the caller is told."""

    def __init__(self, t):
        self.t, self.L = t, t.L
        self.rec = []
        t.L.e.userm[G + "delete"] = self.delete
        t.L.e.userm[G + "delete_leaf_range"] = self.leaf

    def sym(self, name):
        e = self.L.e
        return e.symval(N("S", name, self.t.us), self.t.us)

    def one(self, e, c, st, gt, i_before, i_del, rty, val, cond):
        """before_delete, then one closure, on one visible run"""
        t, L = self.t, self.L
        s = models.fresh(st)
        root = t.newleaf(e, s)
        if val is not None:
            s.m[root] = val
        pre = s.m[root]
        L.assume(L.NOT(t.dead(pre)))
        L.assume(e.lt(t.start(pre), t.end(pre)))
        a = cond(pre)
        ref = e.G1(NT("R", root, ()))
        if i_before is not None:
            _, s = t.closure(e, c, s, i_before, [ref])
            bad = L.diff(s.m[root], pre, s.g)
            t.c.check(bad == 0, "deleted-runs", "looking at a run doesn't change it", "a run is changed before it is deleted", t.w)
        mid = s
        rv, s = t.closure(e, c, s, i_del, [ref] + a)
        ty = e.prog.types[c.atys[i_del]]
        rt = e.prog.insts[ty["inst"]]["body"]["locals"][0] if ty.get("inst") is not None else None
        return dict(pre=pre, post=s.m[root], rv=rv, rty=rt, args=a, before=mid, after=s, g=st.g)

    def differ(self, e, i1, i2, it):
        """different runs have different indices"""
        t, L = self.t, self.L
        ty = opty(e, dict(it=it), t)
        x, y = L.payload(i1, ty, "Some"), L.payload(i2, ty, "Some")
        if x is not UNDEF and y is not UNDEF:
            L.assume(L.NOT(idxsame(t, x, y, it)))

    def rng(self, e, ty, a, b):
        fn = e.prog.field_names(ty)
        fs = {"start": a, "end": b}
        return e.mkA(ty, [(0, 1, tuple(fs[n] for n in fn))])

    def inside(self, e, c, st, gt, i_before, i_del, rty, fixed=None, val=None):
        t, L = self.t, self.L
        k = len(self.rec)
        if fixed is None:
            a, b = self.sym(f"from{k}"), self.sym(f"to{k}")
        else:
            a, b = fixed
        rg = self.rng(e, rty, a, b)

        def cond(pre):
            L.assume(L.OR(L.NOT(st.g), L.AND(e.lt(a, b), L.NOT(e.lt(t.len(pre), b)))))
            return [rg]
        r = self.one(e, c, st, gt, i_before, i_del, rty, val, cond)
        r.update(kind="inside", a=a, b=b)
        es = e.prog.types[r["rty"]]["es"]
        one, two = e.getf(r["rv"], r["rty"], 0, 0), e.getf(r["rv"], r["rty"], 0, 1)
        h1, h2 = t.some(one, es[0]), t.some(two, es[1])
        r.update(p1=L.payload(one, es[0], "Some"), p2=L.payload(two, es[1], "Some"), h1=h1, h2=h2)
        merged = L.AND(h1, L.NOT(h2), e.atom("bool", NT("X", "joins its neighbour", self.t.us, gt)))
        i1, it = t.opt(e, c.dty, 0, L.AND(h1, L.NOT(merged)), "idx of first", gt)
        i2, _ = t.opt(e, c.dty, 1, h2, "idx of second", gt)
        self.differ(e, i1, i2, it)
        r.update(i1=i1, i2=i2, it=it, merged=merged, ret=e.mkA(c.dty, [(0, 1, (i1, i2))]), gt=gt)
        self.rec.append(r)
        return r

    def leaf(self, e, c, st):
        """delete_leaf_range(idx, offset, range, before, delete_with)"""
        t, L = self.t, self.L
        gt, tg, gty = models.deref(e, c, 0, st)
        rty = c.atys[3]
        fn = e.prog.field_names(rty)
        a, b = (e.getf(c.args[3], rty, 0, fn.index(n)) for n in ("start", "end"))
        r = self.inside(e, c, st, gt, 4, 5, rty, (a, b), t.leafval(e, c, st, gt))
        r.update(idx=c.args[1], ity=c.atys[1], off=c.args[2])
        s = models.fresh(r["after"])
        e.wr(s, tg, e.app("after deleting", gty, gt, c.args[1], c.args[3]))
        return r["ret"], s

    def delete(self, e, c, st):
        """delete(range, before, delete_range, delete_from, delete_up_to)"""
        t, L = self.t, self.L
        gt, tg, gty = models.deref(e, c, 0, st)
        mode = e.atom("bool", NT("X", "inside one run", t.us, gt))
        sR = models.fresh(st)
        sR.g = L.AND(st.g, mode)
        rty = c.atys[1]
        R = self.inside(e, c, sR, gt, 2, 3, rty)
        R.update(range=c.args[1], rty2=rty)
        s = models.fresh(st)
        s.g = L.AND(st.g, L.NOT(mode))
        o1, o2 = self.sym("from the first run"), self.sym("up to the last run")

        def c1(pre):
            L.assume(e.lt(o1, t.len(pre)))
            return [o1]

        def c2(pre):
            L.assume(L.AND(e.lt(e.I(0), o2), L.NOT(e.lt(t.len(pre), o2))))
            return [o2]
        F = self.one(e, c, s, gt, 2, 4, None, None, c1)
        # a run in between
        s = models.fresh(F["after"])
        root = t.newleaf(e, s)
        L.assume(L.NOT(t.dead(s.m[root])))
        between = s.m[root]
        _, s = t.closure(e, c, s, 2, [e.G1(NT("R", root, ()))])
        U = self.one(e, c, s, gt, 2, 5, None, None, c2)
        hF, hU = t.some(F["rv"], F["rty"]), t.some(U["rv"], U["rty"])
        i1, it = t.opt(e, c.dty, 0, hF, "idx of rest of first", gt)
        i2, _ = t.opt(e, c.dty, 1, hU, "idx of rest of last", gt)
        self.differ(e, i1, i2, it)
        F.update(kind="from", off=o1, has=hF, idx=i1, range=c.args[1], rty2=rty, payload=L.payload(F["rv"], F["rty"], "Some"), it=it)
        U.update(kind="up to", off=o2, has=hU, idx=i2, payload=L.payload(U["rv"], U["rty"], "Some"), it=it)
        self.rec += [F, U]
        self.between = between
        out = e.merge([R["after"], U["after"]])
        s3 = models.fresh(out)
        e.wr(s3, tg, e.app("after deleting", gty, gt, c.args[1]))
        ret = e.mux(mode, R["ret"], e.mkA(c.dty, [(0, 1, (i1, i2))]))
        self.mode = mode
        return ret, s3


def piece(c, R, t, v, pre, lo, hi, dead, g, what, w):
    """v is the part [lo, hi) of the run `pre`, deleted or not"""
    L = t.L
    same(c, R, L, t.start(v), lo, g, f"{what} starts where it should", f"{what} starts at the wrong character", w)
    same(c, R, L, t.end(v), hi, g, f"{what} ends where it should", f"{what} ends at the wrong character", w)
    d = t.dead(v)
    chk0(c, R, L, L.AND(g, L.NOT(d) if dead else d), f"{what} is {'deleted' if dead else 'kept'}", f"{what} {'is still visible' if dead else 'is deleted too'}", w)
    for f in ("text.inserted_by", "run_ts", "lamport_ts"):
        same(c, R, L, t.f(v, f), t.f(pre, f), g, f"{what} keeps {f}", f"{what} changes its {f}", w)


def pieces(c, R, t, r, w):
    """the closure cut the run into the right pieces"""
    L = t.L
    e = L.e
    g = r["after"].g
    pre, post = r["pre"], r["post"]
    s, end = t.start(pre), t.end(pre)
    if r["kind"] == "inside":
        lo, hi = e.add(s, r["a"]), e.add(s, r["b"])
        a0, bl = e.eqc(r["a"], 0), e.eq(r["b"], t.len(pre))
        for guard, parts in ((L.AND(L.NOT(a0), L.NOT(bl)), ((post, s, lo, 0), (r["p1"], lo, hi, 1), (r["p2"], hi, end, 0))),
                             (L.AND(L.NOT(a0), bl), ((post, s, lo, 0), (r["p1"], lo, end, 1))),
                             (L.AND(a0, L.NOT(bl)), ((post, s, hi, 1), (r["p1"], hi, end, 0))),
                             (L.AND(a0, bl), ((post, s, end, 1),))):
            gg = L.AND(g, guard)
            n = len(parts)
            chk0(c, R, L, L.AND(gg, L.b.XOR(r["h1"], 1 if n > 1 else 0)), "deleting inside a run cuts it as often as needed", "deleting a part of a run cuts it wrongly", w)
            chk0(c, R, L, L.AND(gg, L.b.XOR(r["h2"], 1 if n > 2 else 0)), "deleting inside a run cuts it as often as needed", "deleting a part of a run cuts it wrongly", w)
            for v, x, y, d in parts:
                piece(c, R, t, v, pre, x, y, d, gg, "the deleted text" if d else "the rest of the run", w)
        return
    mid = e.add(s, r["off"])
    if r["kind"] == "from":
        whole, parts = e.eqc(r["off"], 0), ((post, s, mid, 0), (r["payload"], mid, end, 1))
    else:
        whole, parts = e.eq(r["off"], t.len(pre)), ((post, s, mid, 1), (r["payload"], mid, end, 0))
    chk0(c, R, L, L.AND(g, L.b.XOR(r["has"], L.NOT(whole))), "deleting from or up to a character cuts the run there", "deleting a part of a run cuts it wrongly", w)
    piece(c, R, t, post, pre, s, end, 1, L.AND(g, whole), "the deleted text", w)
    for v, x, y, d in parts:
        piece(c, R, t, v, pre, x, y, d, L.AND(g, L.NOT(whole)), "the deleted text" if d else "the rest of the run", w)


def cuts(c, which):
    """RunTree::delete or RunTree::delete_leaf_range over contracts"""
    t = Tree(c)
    L = t.L
    e = L.e
    t.us = L.ty("usize")
    o = t.o = Order(t)
    o.pairs = {}
    t.me = L.place("self", RT)
    t.w = where(L, T + which)
    k = t.k = Cut(t)
    inst = t.inst = L.fn(T + which)
    tys = inst["body"]["locals"]
    if which == "delete":
        rty = tys[2]
        t.rng = L.sym("range", rty)
        t.rngty = rty
        vt = e.prog.types[tys[3]]["e"]
        t.vm = L.place("collected", vt)
        t.vmty = vt
        e0 = len(e.events)
        t.rv, t.out, t.rty = L.call(inst, L.ref(t.me), t.rng, L.ref(t.vm))
    else:
        t.idx, t.off = L.sym("run", tys[2]), L.sym("offset", tys[3])
        t.rng, t.rngty = L.sym("range", tys[4]), tys[4]
        e0 = len(e.events)
        t.rv, t.out, t.rty = L.call(inst, L.ref(t.me), t.idx, t.off, t.rng)
    t.ev = e.events[e0:]
    return t


def index_updates(c, R, t, extra=()):
    """every change of the index must match what happened to the tree"""
    L = t.L
    e = L.e
    w = t.w
    spl, nxt, prv = (t.indices(t.ev, m) for m in ("split", "move_len_to_next_split", "move_len_to_prev_split"))
    bad = [ev for ev in t.ev if ev.kind == "call" and ev.inst["def"].startswith("cola::run_indices::") and ev.inst["def"].split("::")[-1] not in ("split", "move_len_to_next_split", "move_len_to_prev_split", "default", "len", "idx_at_anchor")]
    c.check(not bad, R, "only known index updates", lambda: "the index is changed in another way: " + ", ".join(x.inst["def"] for x in bad), w)
    want = []
    for r in t.k.rec:
        pre = r["pre"]
        g = L.AND(r["after"].g, t.out.g)
        s = t.start(pre)
        if r["kind"] == "inside":
            lo, hi = e.add(s, r["a"]), e.add(s, r["b"])
            a0 = e.eqc(r["a"], 0)
            vis = L.AND(g, r["h1"], L.NOT(r["merged"]))
            p1, p2 = L.payload(r["i1"], opty(e, r, t), "Some"), L.payload(r["i2"], opty(e, r, t), "Some")
            want.append((L.AND(vis, L.NOT(a0)), "split", pre, lo, p1))
            want.append((L.AND(vis, a0), "split", pre, hi, p1))
            want.append((L.AND(g, r["h2"]), "split", pre, hi, p2))
            want.append((L.AND(g, r["merged"], L.NOT(a0)), "next", pre, None, e.sub(r["b"], r["a"])))
            want.append((L.AND(g, r["merged"], a0), "prev", pre, None, e.sub(r["b"], r["a"])))
        else:
            want.append((L.AND(g, r["has"]), "split", pre, e.add(s, r["off"]), L.payload(r["idx"], opty(e, r, t), "Some")))
    c.floor("changes of the tree the index must follow", len(want), 5)
    got = [("split",) + x for x in spl] + [("next",) + x for x in nxt] + [("prev",) + x for x in prv]
    names = {"split": "a split", "next": "text joined to the next run", "prev": "text joined to the previous run"}
    matched = [0] * len(got)
    for g, what, pre, at, val in want:
        if not L.feasible(g):
            continue
        have = 0
        for i, (kind, ev, eg, k) in enumerate(got):
            if kind != what:
                continue
            gg = L.AND(g, eg)
            if not L.feasible(gg):
                continue
            # this event is that change where the arguments agree
            if kind == "split":
                ok = L.AND(e.eq(ev.args[2], at), idxsame(t, ev.args[3], val, ev.inst["body"]["locals"][4]))
            else:
                ok = L.AND(e.eq(ev.args[3], val), e.lt(t.start(pre), ev.args[2]), L.NOT(e.lt(t.end(pre), ev.args[2])))
            ok = L.AND(ok, e.eq(k, t.by(pre)) if k is not None else 0, e.eq(ev.args[1], t.f(pre, "run_ts")))
            hit = L.AND(gg, ok)
            chk0(c, R, L, L.AND(have, hit), f"{names[what]} is recorded once", f"{names[what]} is recorded twice in the index", w)
            have = L.OR(have, hit)
            matched[i] = L.OR(matched[i], hit)
        chk0(c, R, L, L.AND(g, L.NOT(have)), f"{names[what]} is recorded where it happened", f"{names[what]} isn't recorded in the index, or in the wrong place, with the wrong run or the wrong length", w)
    for (kind, ev, eg, k), m in zip(got, matched):
        chk0(c, R, L, L.AND(eg, t.out.g, L.NOT(m)), "the index changes only if the tree did", f"the index records {names[kind]} that didn't happen (at {ev.span})", w)


def opty(e, r, t):
    it = r["it"]
    if not hasattr(t, "opt_ty"):
        t.opt_ty = next(i for i, ty in enumerate(e.prog.types) if ty["k"] == "adt" and ty["n"].startswith("std::option::Option<") and e.prog.field_ty(i, next(k for k, v in enumerate(ty["vs"]) if v["n"] == "Some"), 0) == it)
    return t.opt_ty


def idxsame(t, a, b, ty):
    e, L = t.L.e, t.L
    r = 0
    for p, g in t.o.pos(a, ty):
        for q, h in t.o.pos(b, ty):
            r = L.OR(r, L.AND(g, h, 1 if p is q else e.eq(e.G1(p), e.G1(q))))
    return r


def local(c):
    """RunTree::delete: what is deleted, and how it's described"""
    R = "deleted-runs"
    t = cuts(c, "delete")
    L, w, k = t.L, t.w, t.k
    e = L.e
    c.floor("ways a local deletion touches runs", len(k.rec), 3)
    og = t.out.g
    calls = 0
    for r in k.rec:
        pieces(c, R, t, r, w)
        if "range" in r:
            for f in ("start", "end"):
                same(c, R, L, L.f(r["range"], r["rty2"], f), L.f(t.rng, t.rngty, f), L.AND(r["g"], og), "the requested range is deleted", "another range than the requested one is deleted", w)
    for fld, i, kinds in (("start", 0, ("inside", "from")), ("end", 1, ("inside", "up to"))):
        a, aty = e.getf(t.rv, t.rty, 0, i), e.prog.types[t.rty]["es"][i]
        for r in k.rec:
            if r["kind"] not in kinds:
                continue
            g = L.AND(og, r["after"].g)
            off = e.add(t.start(r["pre"]), r["a" if i == 0 else "b"] if r["kind"] == "inside" else r["off"])
            same(c, R, L, L.f(a, aty, "replica_id"), t.by(r["pre"]), g, f"the {fld} names its author", f"the {fld} of the deletion names the wrong author", w)
            same(c, R, L, L.f(a, aty, "contained_in"), t.f(r["pre"], "run_ts"), g, f"the {fld} names its run", f"the {fld} of the deletion names the wrong run", w)
            same(c, R, L, L.f(a, aty, "offset"), off, g, f"the {fld} names its character", f"the {fld} of the deletion has the wrong offset", w)
    # authors
    vm = L.get(t.vm, t.out)
    VT = t.vmty
    vm0 = L.get(t.vm)
    same(c, R, L, L.f(vm, VT, "this_id"), L.f(vm0, VT, "this_id"), og, "the deletion keeps its author", "collecting the authors changes whose deletion it is", w)
    for nm, pre, g in [(r["kind"], r["pre"], L.AND(og, r["after"].g)) for r in k.rec] + [("between", k.between, L.AND(og, L.NOT(k.mode)))]:
        has = L.OR(e.eq(t.by(pre), L.f(vm, VT, "this_id")), models.map_has(e, L.f(vm, VT, "rest"), t.by(pre), L.fty(VT, "rest")))
        chk0(c, R, L, L.AND(g, L.NOT(has)), f"deleted text's author is recorded ({nm})", "the author of deleted text isn't recorded in the deletion", w)
    for p in e.panics:
        ok = L.feasible(p.g)
        c.check(ok == 0 or "unwrap" in p.extra or "overflow:Add" in p.extra, R, "does not panic", lambda: f"deleting panics ({p.extra} at {p.span}) when {L.why(ok)}", w)
    c.analysed |= e.analysed


def local_index(c):
    R = "delete-index"
    t = cuts(c, "delete")
    index_updates(c, R, t)
    c.analysed |= t.L.e.analysed


def leaf_range(c):
    """RunTree::delete_leaf_range deletes exactly that part of that run"""
    R = "deleted-part"
    t = cuts(c, "delete_leaf_range")
    L, w, k, o = t.L, t.w, t.k, t.o
    e = L.e
    c.floor("deletions of a part of a run", len(k.rec), 1)
    og = t.out.g
    gt0 = L.f(L.get(t.me), RT, "gtree")
    RTy = L.ty(RT)
    total = 0
    for r in k.rec:
        g = L.AND(r["g"], og)
        pieces(c, R, t, r, w)
        total = once(c, R, L, total, r["g"], w)
        same(c, R, L, r["gt"], gt0, g, "deleted in the document", "the text is deleted elsewhere", w)
        chk0(c, R, L, L.AND(g, L.NOT(idxsame(t, r["idx"], t.idx, r["ity"]))), "the given run is deleted", "another run than the given one is deleted", w)
        same(c, R, L, r["off"], t.off, g, "deleted at the given offset", "the run is deleted at another offset", w)
        for f, v in (("start", r["a"]), ("end", r["b"])):
            same(c, R, L, v, L.f(t.rng, t.rngty, f), g, "the given part is deleted", "another part of the run is deleted", w)
    chk0(c, R, L, L.AND(og, L.NOT(total)), "always deleted", "the text isn't deleted", w)
    # where to go on
    gt = e.getf(L.get(t.me, t.out), RTy, 0, L.prog.field_names(RTy).index("gtree"))
    n = 0
    for r in k.rec:
        g = L.AND(r["after"].g, og)
        a0 = e.eqc(r["a"], 0)
        none = L.NOT(r["h1"])
        alone = L.AND(r["h1"], L.NOT(r["h2"]))
        p1 = L.payload(r["i1"], opty(e, r, t), "Some")
        p2 = L.payload(r["i2"], opty(e, r, t), "Some")
        # the rest of the run (or what follows it), or the deleted run before it
        for guard, here, after in ((r["h2"], (p1, p2), None), (L.AND(alone, L.NOT(r["merged"]), a0), (t.idx, p1), None), (L.AND(alone, L.NOT(r["merged"]), L.NOT(a0)), (p1,), p1),
                                   (L.AND(r["merged"], a0), (t.idx,), None), (L.AND(r["merged"], L.NOT(a0)), (), t.idx), (none, (t.idx,), t.idx)):
            gg = L.AND(g, guard)
            for q, h in o.pos(t.rv, t.rty):
                x = L.AND(gg, h)
                if not L.feasible(x):
                    continue
                n += 1
                ok = [p for v in here for p, h2 in o.pos(v, r["it"])]
                if after is not None:
                    ok += [o.succ(gt, p) for p, h2 in o.pos(after, r["it"])]
                c.check(any(q is p for p in ok), R, "goes on after the deleted text", lambda: f"after deleting a part of a run the caller is sent to {trunc(q)}", w)
    c.floor("ways a partial deletion goes on", n, 5)
    for p in e.panics:
        ok = L.feasible(p.g)
        c.check(ok == 0 or "unwrap" in p.extra or "overflow:Add" in p.extra, R, "does not panic", lambda: f"deleting a part of a run panics ({p.extra} at {p.span}) when {L.why(ok)}", w)
    c.analysed |= e.analysed


def once(c, R, L, total, g, w):
    chk0(c, R, L, L.AND(total, g), "deleted once", "the text is deleted twice", w)
    return L.OR(total, g)


def leaf_range_index(c):
    R = "delete-part-index"
    t = cuts(c, "delete_leaf_range")
    index_updates(c, R, t)
    c.analysed |= t.L.e.analysed


def forgotten(c):
    """Hiding a run that comes before the remembered position moves that position:
    merging a deletion forgets it."""
    R = "tree-cursor"
    t = setup(c)
    L = t.L
    e = L.e
    fn = T + "merge_deletion"
    w = where(L, fn)
    e.userm[G + "offset_of_leaf"] = offset_of(t)
    rv, out, rty = L.call(fn, L.ref(t.me), L.ref(t.droot))
    rc = [ev for ev in e.events if ev.kind == "call" and ev.inst["def"] == G + "remove_cursor"]
    ks = [k for k in t.calls if k["kind"] == "with" and any(ev is k["note"] for ev in e.events)]
    c.floor("places where a whole run is hidden", len(ks), 1)
    for k in ks:
        g = 0
        for ev in rc:
            lp = tuple(ev.loop or ())
            if lp == tuple(k["loop"])[:len(lp)]:
                g = L.OR(g, ev.g)
        chk0(c, R, L, L.AND(k["g"], L.NOT(g)), "merging a deletion: the remembered position", "merging a deletion hides a run and keeps a remembered position that may come after it", w)
    c.analysed |= e.analysed

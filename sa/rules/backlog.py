"""The backlog: edits that arrive early are kept, and applied when they have
become ready."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St, Event
import models
from rules.replica import REP, FRONTIER, dominance, identity_clone, vm_get
from rules.runtree import where, chk0, same

R = "backlog"
KINDS = {
    "insertion": dict(item="insertion::Insertion", list="backlog::InsertionsBacklog", next="<cola::backlog::BackloggedInsertions<'_> as std::iter::Iterator>::next",
                      new="cola::backlog::BackloggedInsertions::<'a>::from_replica", merge="cola::replica::Replica::merge_unchecked_insertion",
                      put="cola::backlog::Backlog::insert_insertion", field="insertions", asked="cola::replica::Replica::backlogged_insertions"),
    "deletion": dict(item="deletion::Deletion", list="backlog::DeletionsBacklog", next="<cola::backlog::BackloggedDeletions<'_> as std::iter::Iterator>::next",
                     new="cola::backlog::BackloggedDeletions::<'a>::from_replica", merge="cola::replica::Replica::merge_unchecked_deletion",
                     put="cola::backlog::Backlog::insert_deletion", field="deletions", asked="cola::replica::Replica::backlogged_deletions"),
}


class Kind:
    def __init__(self, c, kind, opaque=()):
        self.c, self.kind = c, kind
        self.k = KINDS[kind]
        L = self.L = Lab(c.prog("rel"), opaque=[x for x in FRONTIER if "Backlog::insert" not in x] + list(opaque))
        e = L.e
        dominance(L)
        identity_clone(L)
        self.IT, self.LT = L.ty(self.k["item"]), L.ty(self.k["list"])
        # the deque inside the per-author list
        ds = [i for i, f in enumerate(L.prog.types[self.LT]["vs"][0]["f"]) if L.prog.types[f["t"]].get("def", "").endswith(("VecDeque", "::Vec"))]
        if len(ds) != 1:
            raise MissingAnchor("the list of " + self.k["list"])
        self.di = ds[0]
        self.DT = L.prog.field_ty(self.LT, 0, self.di)
        self.n = 0

    def deque(self, lv):
        return self.L.e.getf(lv, self.LT, 0, self.di)

    def at(self, dq, i):
        return self.L.e.geti(dq, self.DT, i)

    def len(self, dq):
        return self.L.e.lenof(dq, self.DT)

    # ---- what is said of an edit
    def st(self, **roots):
        s = St(1, dict(self.L.st.m))
        for k, (ty, v) in roots.items():
            r = ("arg", f"{k}{self.n}")
            self.L.e.root_ty[r] = ty
            s.m[r] = v
            roots[k] = r
        self.n += 1
        return s, roots

    def author(self, x):
        return self.L.f(x, self.IT, "text.inserted_by" if self.kind == "insertion" else "version_map.this_id")

    def order(self, x):
        """the edit's place in its author's sequence"""
        return self.L.f(x, self.IT, "text.range.start" if self.kind == "insertion" else "deletion_ts")

    def status(self, rep, x):
        """(merged, ready): what the replica's value says about an edit"""
        L, e = self.L, self.L.e
        s, r = self.st(rep=(L.ty(REP), rep))
        g = lambda which, id: vm_get(L, r["rep"], which, id, s)
        by, at = self.author(x), self.order(x)
        if self.kind == "insertion":
            have = g("version_map", by)
            AT = L.fty(self.IT, "anchor")
            an = L.f(x, self.IT, "anchor")
            zero = e.eqc(L.f(an, AT, "replica_id"), 0)
            L.assume(L.OR(L.NOT(zero), e.eqc(L.f(an, AT, "offset"), 0)))
            seen = L.OR(zero, L.NOT(e.lt(g("version_map", L.f(an, AT, "replica_id")), L.f(an, AT, "offset"))))
            return e.lt(at, have), L.AND(e.eq(have, at), seen)
        have = g("deletion_map", by)
        L.assume(e.lt(have, e.I((1 << 64) - 1)))
        knows = L.dom(L.f(rep, L.ty(REP), "version_map"), L.f(x, self.IT, "version_map"))
        return L.NOT(e.lt(have, at)), L.AND(e.eq(e.add(have, e.I(1)), at), knows)

    def settled(self, rep, dq):
        """nothing more can be taken from an author's list"""
        L = self.L
        m, r = self.status(rep, self.at(dq, L.e.I(0)))
        return L.OR(L.e.eqc(self.len(dq), 0), L.AND(L.NOT(m), L.NOT(r)))


# ------------------------------------------------------------- keeping an edit
def kept(c):
    """An early edit is kept in its author's list, in the author's order, once."""
    for kind in KINDS:
        keep(c, kind)


def keep(c, kind):
    t = Kind(c, kind)
    L, e = t.L, t.L.e
    BT = L.ty("backlog::Backlog")
    me = L.place("self", BT)
    x = L.sym("edit", t.IT)
    found = []

    def search(e, cc, st):
        v, tg, ty = models.deref(e, cc, 0, st)
        if e.elty(ty) != t.IT:
            return NotImplemented
        name = cc.inst["def"].split("::")[-1]
        ln = e.lenof(v, ty)
        i = e.app("position", L.ty("usize"), v, e.I(len(found)))
        root = ("arg", f"probe{len(found)}")
        e.root_ty[root] = t.IT

        def ask(idx):
            s = models.fresh(st)
            s.m[root] = e.geti(v, ty, idx)
            args = [e.G1(NT("R", root, ()))]
            rv, s2 = models.callclosure(e, cc.args[-1], cc.atys[-1], args, [None], s, cc)
            return rv
        prev = e.sub(i, e.I(1))
        assume = []
        if name == "partition_point":
            a, b = L.G(ask(prev)), L.G(ask(i))
            assume += [L.NOT(e.lt(ln, i)), L.OR(e.eqc(i, 0), a), L.OR(L.NOT(e.lt(i, ln)), L.NOT(b))]
            for q in assume:
                L.assume(L.OR(L.NOT(st.g), q))
            found.append((st.g, 0, i, v))
            return i, models.fresh(st)
        if name == "binary_search_by":
            ot = None

            def cmp(idx, want):
                rv = ask(idx)
                ty_ = e.symty_of(e.galts(rv)[0][0]) if rv.k == "G" else rv.a[0]
                return L.isv(rv, ty_, want)
        elif name == "binary_search_by_key":
            key = e.content(cc.args[1], cc.atys[1], st)

            def cmp(idx, want):
                k = ask(idx)
                return {"Less": e.lt(k, key), "Equal": e.eq(k, key), "Greater": e.lt(key, k)}[want]
        else:
            return NotImplemented
        ok = e.atom("bool", NT("X", "found", None, v, e.I(len(found))))
        assume += [L.OR(L.NOT(ok), L.AND(e.lt(i, ln), cmp(i, "Equal"))),
                   L.OR(ok, L.AND(L.NOT(e.lt(ln, i)), L.OR(e.eqc(i, 0), cmp(prev, "Less")), L.OR(L.NOT(e.lt(i, ln)), cmp(i, "Greater"))))]
        for q in assume:
            L.assume(L.OR(L.NOT(st.g), q))
        found.append((L.AND(st.g, ok), 1, i, v))
        ix = {q["n"]: n for n, q in enumerate(e.prog.types[cc.dty]["vs"])}
        return e.mkA(cc.dty, [(ix["Ok"], ok, (i,)), (ix["Err"], L.NOT(ok), (i,))]), models.fresh(st)
    for n in ("binary_search_by", "binary_search_by_key", "partition_point"):
        for p in ("std::collections::VecDeque::<T, A>::", "core::slice::<impl [T]>::"):
            e.userm[p + n] = search
    fn = t.k["put"]
    w = where(L, fn)
    rv, out, rty = L.call(fn, L.ref(me), x)
    pre, post = L.get(me), L.get(me, out)
    chk0(c, R, L, L.NOT(out.g), f"keeping an {kind} succeeds", f"keeping an early {kind} fails", w)
    by, key = t.author(x), t.order(x)
    maps = {}
    for i, f in enumerate(L.prog.types[BT]["vs"][0]["f"]):
        a, b = e.getf(pre, BT, 0, i), e.getf(post, BT, 0, i)
        ft = L.prog.types[f["t"]]
        if ft.get("def", "").endswith("HashMap") and ft["args"][1] == t.LT:
            maps[i] = (a, b, f["t"])
        else:
            same(c, R, L, b, a, 1, f"keeping an {kind} leaves {f['n']}", f"keeping an early {kind} changes what else is kept ({f['n']})", w)
    c.floor(f"maps of kept {kind}s", len(maps), 1)
    for a, b, mty in maps.values():
        has = models.map_has(e, a, by, mty)
        chk0(c, R, L, L.NOT(models.map_has(e, b, by, mty)), f"the {kind}'s author has a list", f"an early {kind} is not kept under its author", w)
        j = L.sym("any author", L.ty("u64"))
        oth = L.NOT(e.veq(j, by))
        h0, h1 = models.map_has(e, a, j, mty), models.map_has(e, b, j, mty)
        chk0(c, R, L, L.AND(oth, L.b.XOR(h0, h1)), f"other authors' {kind}s are kept", f"keeping an early {kind} loses another author's, or adds to it", w)
        same(c, R, L, e.geti(b, mty, j, True), e.geti(a, mty, j, True), L.AND(oth, h0), f"other authors' {kind}s stay", f"keeping an early {kind} changes another author's list", w)
        old = t.deque(e.geti(a, mty, by, True))
        new = t.deque(e.geti(b, mty, by, True))
        seen = 0
        for tm, g in e.galts(new):
            v = e.G1(tm)
            if tm.k == "X" and tm.a[0] == "insertat":
                base, i, y = tm.a[2:]
                same(c, R, L, y, x, g, f"the {kind} itself is kept", f"not the early {kind} itself is kept", w)
                same(c, R, L, base, old, L.AND(g, has), f"the {kind} joins its author's others", f"an early {kind} replaces its author's others", w)
                chk0(c, R, L, L.AND(g, L.NOT(has), e.lt(e.I(0), t.len(base))), f"the first {kind} of an author starts a list", f"the first early {kind} of an author joins others", w)
                p = t.at(base, e.sub(i, e.I(1)))
                n = t.at(base, i)
                chk0(c, R, L, L.AND(g, e.lt(e.I(0), i), L.NOT(e.lt(t.order(p), key))), f"an {kind} is kept behind its author's earlier ones", f"an early {kind} is put behind one that its author made later (or the same one)", w)
                chk0(c, R, L, L.AND(g, e.lt(i, t.len(base)), L.NOT(e.lt(key, t.order(n)))), f"an {kind} is kept before its author's later ones", f"an early {kind} is put before one that its author made earlier (or the same one)", w)
                seen = L.OR(seen, g)
            elif tm.k == "X" and tm.a[0] == "push":
                base, y = tm.a[2:]
                same(c, R, L, y, x, g, f"the {kind} itself is kept", f"not the early {kind} itself is kept", w)
                last = e.sub(t.len(base), e.I(1))
                chk0(c, R, L, L.AND(g, e.lt(e.I(0), t.len(base)), L.NOT(e.lt(t.order(t.at(base, last)), key))), f"an {kind} is put last only if it is", f"an early {kind} is put behind one that its author made later", w)
                seen = L.OR(seen, g)
            else:
                same(c, R, L, v, old, L.AND(g, has), f"its author's other {kind}s stay", f"an early {kind} changes its author's list", w)
                dup = 0
                for fg, _, i, lv in found:
                    dup = L.OR(dup, L.AND(fg, e.eq(t.order(t.at(lv, i)), key)))
                chk0(c, R, L, L.AND(g, L.NOT(dup)), f"an {kind} is dropped only if it is kept already", f"an early {kind} is lost although it is not the one that is kept already", w)
        d = L.feasible(seen)
        c.check(d != 0, R, f"{kind}s are kept", f"early {kind}s are never kept", w)
    c.analysed.add(fn)


# ------------------------------------------------------------ applying what is ready
def applied(c):
    """Asking for the backlogged edits applies, in order, those that have become
    ready, each once, and gives up only when none is."""
    for kind in KINDS:
        ready(c, kind)
        begin(c, kind)


class Walk(Kind):
    """Walks over all authors' lists, and what is taken from them."""

    def __init__(self, c, kind):
        Kind.__init__(self, c, kind, opaque=[r"cola::replica::Replica::merge_unchecked_.*"])
        L, e = self.L, self.L.e
        self.rep = L.place("replica", REP)
        BT = L.ty("backlog::Backlog")
        self.MT = next(f["t"] for f in L.prog.types[BT]["vs"][0]["f"] if L.prog.types[f["t"]].get("def", "").endswith("HashMap") and L.prog.types[f["t"]]["args"][1] == self.LT)
        self.map = L.place("map", self.MT)
        self.listroot = ("arg", "list")
        e.root_ty[self.listroot] = self.LT
        for n in ("values_mut", "iter_mut"):
            e.userm[f"std::collections::HashMap::<K, V, S, A>::{n}"] = self.begin
            e.userm[f"std::collections::HashMap::<K, V, S>::{n}"] = self.begin
        e.userm["<&'a mut std::collections::HashMap<K, V, S> as std::iter::IntoIterator>::into_iter"] = self.begin
        e.userm["<&'a mut std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter"] = self.begin
        for n in ("ValuesMut", "IterMut"):
            e.userm[f"<std::collections::hash_map::{n}<'a, K, V> as std::iter::Iterator>::next"] = self.step
        e.userm["std::collections::VecDeque::<T, A>::pop_front"] = self.take
        for i, t in enumerate(L.prog.types):
            if t.get("def", "").endswith(("hash_map::ValuesMut", "hash_map::IterMut")):
                e.atomic = frozenset(e.atomic) | {i}

    def note(self, kind, c, st, *args):
        e = self.L.e
        e.events.append(Event(kind="note:" + kind, inst=None, args=list(args), raw=[], g=st.g, loop=tuple(e.loopstack), span=c.span, ret=None, fn=None, seq=len(e.events), stack=()))

    def notes(self, kind):
        return [ev for ev in self.ev if ev.kind == "note:" + kind]

    def begin(self, e, c, st):
        v, tg, ty = models.deref(e, c, 0, st)
        if ty != self.MT:
            return NotImplemented
        self.note("walk", c, st, c.args[0])
        return e.symval(NT("X", "walk", c.dty, c.args[0]), c.dty), models.fresh(st)

    def step(self, e, c, st):
        it, tg, ty = models.deref(e, c, 0, st)
        vs = {v["n"]: i for i, v in enumerate(e.prog.types[c.dty]["vs"])}
        pt = e.prog.field_ty(c.dty, vs["Some"], 0)
        t = e.prog.types[pt]
        lt = t["es"][1] if t["k"] == "tuple" else pt
        if e.prog.types[lt].get("e") != self.LT:
            return NotImplemented
        has = e.atom("bool", NT("X", "more", None, it, models.site(e, c)))
        cur = e.root_value(st, self.listroot)
        self.note("step", c, st, it, self.deque(cur), e.root_value(st, self.rep), e.B(has))
        s = models.fresh(st)
        e.wr(s, tg, e.app("walked", ty, it))
        new = e.symval(NT("X", "a list", self.LT, it, e.I(hash(models.site(e, c)) & 0xffff)), self.LT)
        s.m[self.listroot] = e.mux(has, new, cur)
        ref = e.G1(NT("R", self.listroot, ()))
        if t["k"] == "tuple":
            kroot = ("const", NT("X", "listkey", t["es"][0], it))
            e.root_ty[kroot] = e.prog.types[t["es"][0]]["e"]
            e.consts[kroot] = e.symval(NT("X", "author", e.root_ty[kroot], it), e.root_ty[kroot])
            ref = e.mkA(pt, [(0, 1, (e.G1(NT("R", kroot, ())), ref))])
        return models.opt(e, c.dty, has, ref), s

    def take(self, e, c, st):
        v, tg, ty = models.deref(e, c, 0, st)
        if ty == self.DT:
            self.note("pop", c, st, v, e.root_value(st, self.rep))
        return NotImplemented

    def phi(self, v):
        """(loop, phi term) if the value is carried by a loop"""
        if v is UNDEF or v.k != "G" or len(v.a[0]) != 1:
            return None
        t = v.a[0][0][0]
        for r in self.L.e.loops:
            if t in r.phis:
                return r, t
        return None

    def carried(self, v, r, k):
        """v with what loop r carries replaced by its value on entry (0) or at
        the end of an iteration (1)"""
        p = self.phi(v)
        if p and p[0] is r:
            return r.phis[p[1]][k]
        if v is not UNDEF and v.k == "A":
            return NT("A", v.a[0], tuple((a, g, tuple(self.carried(x, r, k) for x in fs)) for a, g, fs in v.a[1]))
        return v

    def settle(self, g, dq, rep, what, msg):
        """obligation: nothing can be taken from this list any more"""
        L, c = self.L, self.c
        p = self.phi(dq)
        if p is None and dq is not UNDEF and dq.k == "G" and len(dq.a[0]) > 1:
            for t, gg in dq.a[0]:
                self.settle(L.AND(g, gg), L.e.G1(t), rep, what, msg)
            return
        if p is not None:
            d = L.feasible(L.AND(g, L.NOT(self.settled(rep, dq))))
            if d == 0:
                c.check(True, R, what, msg, self.w)
                return
            r, t = p
            for k, gg in ((0, r.g), (1, r.cont)):
                self.settle(gg, r.phis[t][k], self.carried(rep, r, k), what, msg)
            return
        if L.feasible(g) == 0:
            return
        chk0(c, R, L, L.AND(g, L.NOT(self.settled(rep, dq))), what, msg, self.w)


def fieldsof(L, ty):
    return list(enumerate(L.prog.types[ty]["vs"][0]["f"]))


def ready(c, kind):
    t = Walk(c, kind)
    L, e = t.L, t.L.e
    fn = t.k["next"]
    inst = L.fn(fn)
    w = t.w = where(L, fn)
    ST = L.prog.types[inst["body"]["locals"][1]]["e"]
    me = L.place("self", ST)
    v = L.get(me)
    some = e.atom("bool", NT("S", "an author's list is at hand", None))
    stored = False
    opt_i = None
    for i, f in fieldsof(L, ST):
        ft = L.prog.types[f["t"]]
        x = None
        if ft["k"] == "ref" and ft["e"] == L.ty(REP):
            x = L.ref(t.rep)
        elif ft["k"] == "ref" and ft["e"] == t.MT:
            x = L.ref(t.map)
        elif ft.get("def") == "std::option::Option" and L.prog.types[ft["args"][0]].get("e") == t.LT:
            x = models.opt(e, f["t"], some, L.ref(t.listroot))
            opt_i, opt_t = i, f["t"]
        elif ft.get("def", "").endswith(("hash_map::ValuesMut", "hash_map::IterMut")):
            stored = True
        if x is not None:
            v = e.putf(v, ST, 0, i, x)
    L.st.m[me] = v
    empty = e.symval(NT("X", "new", t.DT), t.DT)
    L.st.m[t.listroot] = e.symval(N("S", "current list", t.LT), t.LT) if opt_i is not None else e.putf(e.symval(N("S", "no list", t.LT), t.LT), t.LT, 0, t.di, empty)
    entry_none = L.NOT(some) if opt_i is not None else 0
    e0 = len(e.events)
    rv, out, rty = L.call(inst, L.ref(me))
    t.ev = e.events[e0:]
    calls = [ev for ev in t.ev if ev.kind == "call"]
    merges = [ev for ev in calls if ev.inst["def"] == t.k["merge"]]
    recs = [ev for ev in calls if ev.inst["def"] == fn]
    steps, pops, walks = t.notes("step"), t.notes("pop"), t.notes("walk")
    c.floor(f"merges of kept {kind}s", len(merges), 1)
    c.floor(f"walks over kept {kind}s", len(steps), 1)
    # no list is left while something in it could be taken
    for ev in steps:
        it, dq, rep, has = ev.args
        t.settle(ev.g, dq, rep, f"an author's {kind}s are left only when none is ready", f"an author's kept {kind}s are passed over although the first of them is ready, or was merged already")
    # what is taken off a list
    for ev in pops:
        dq, rep = ev.args
        x = t.at(dq, e.I(0))
        m, r = t.status(rep, x)
        g = L.AND(ev.g, L.NOT(e.eqc(t.len(dq), 0)))
        used = 0
        for mg in merges:
            if L.diff(mg.args[1], x, mg.g) == 0:
                used = L.OR(used, mg.g)
        chk0(c, R, L, L.AND(g, L.NOT(m), L.NOT(used)), f"a kept {kind} leaves the backlog only to be merged, or after", f"a kept {kind} is lost: it is taken off the backlog without being merged", w)
    # what is merged
    tot = 0
    for mg in merges:
        rep, x = mg.args[0], mg.args[1]
        m, r = t.status(rep, x)
        chk0(c, R, L, L.AND(mg.g, L.NOT(L.AND(r, L.NOT(m)))), f"a kept {kind} is merged when it is ready", f"a kept {kind} is merged although it is not ready, or was merged before", w)
        off = 0
        for ev in pops:
            if L.diff(mg.args[1], t.at(ev.args[0], e.I(0)), L.AND(mg.g, ev.g)) == 0:
                off = L.OR(off, ev.g)
        chk0(c, R, L, L.AND(mg.g, L.NOT(off)), f"a merged {kind} leaves the backlog", f"a kept {kind} stays in the backlog when it is merged, or something else is merged", w)
        same(c, R, L, mg.args[0], e.root_value(L.st, t.rep), L.AND(mg.g, L.NOT(tot)) if not mg.loop else 0, f"a kept {kind} is merged into the replica", f"a kept {kind} is merged into something else", w)
        chk0(c, R, L, L.AND(tot, mg.g), f"{kind}s are handed back one by one", f"a second kept {kind} is merged before the first is handed back", w)
        tot = L.OR(tot, mg.g)
    # what is handed back
    is_some = L.isv(rv, rty, "Some")
    pay = L.payload(rv, rty, "Some")
    pt = L.prog.field_ty(rty, L.variant(rty, "Some"), 0)
    given = 0
    for mg in merges:
        if kind == "insertion":
            g = mg.g
            text = e.getf(pay, pt, 0, 0)
            ft = L.prog.types[pt]["es"][0]
            same(c, R, L, text, L.f(mg.args[1], t.IT, "text"), L.AND(g, out.g), "the merged text is handed back", "not the merged text is handed back", w)
            same(c, R, L, e.getf(pay, pt, 0, 1), mg.ret, L.AND(g, out.g), "the text's offset is handed back", "a merged text is handed back with another offset", w)
        else:
            g = L.AND(mg.g, L.NOT(e.eqc(e.lenof(mg.ret, pt), 0)))
            same(c, R, L, pay, mg.ret, L.AND(g, out.g), "the deleted ranges are handed back", "not the ranges of the merged deletion are handed back", w)
        chk0(c, R, L, L.AND(g, out.g, L.NOT(is_some)), f"a merged {kind} is handed back", f"a kept {kind} is merged but not handed back", w)
        given = L.OR(given, g)
    rec = 0
    for ev in recs:
        same(c, R, L, rv, ev.ret, L.AND(ev.g, out.g), f"the next {kind} is handed back", f"the {kind} that is found next is not handed back", w)
        rec = L.OR(rec, ev.g)
    chk0(c, R, L, L.AND(out.g, is_some, L.NOT(L.OR(given, rec))), f"only merged {kind}s are handed back", f"something is handed back although no {kind} was merged", w)
    for mg in merges:
        fin = L.AND(mg.g, L.NOT(L.AND(out.g, L.OR(is_some, rec))))
        if kind == "insertion":
            chk0(c, R, L, fin, f"every merge is reported", f"an {kind} is merged without being handed back", w)
    # giving up
    done = entry_none
    for ev in steps:
        done = L.OR(done, L.AND(ev.g, L.NOT(L.G(ev.args[3]))))
    # a loop's "no list at hand" means that there is none left, if it does on entry and after each round
    for r in e.loops if opt_i is not None else ():
        for ph, (init, back, (root, path)) in r.phis.items():
            if root == me and path[:1] == (("f", 0, opt_i),) and path[1:] in ((), (("disc",),)):
                gone = L.isv(e.G1(ph), opt_t, "None")
                if L.feasible(L.AND(r.g, L.isv(init, opt_t, "None"), L.NOT(done))) == 0 and L.feasible(L.AND(r.cont, L.isv(back, opt_t, "None"), L.NOT(L.OR(done, gone)))) == 0:
                    done = L.OR(done, gone)
    chk0(c, R, L, L.AND(out.g, L.NOT(is_some), L.NOT(L.OR(done, rec))), f"the {kind}s end only when all authors' were looked at", f"no {kind} is handed back although not all authors' kept {kind}s were looked at", w)
    if not stored:
        c.check(bool(walks), R, f"each time, all kept {kind}s are looked at", f"the search for ready {kind}s does not start over", w)
        for ev in walks:
            for q, _ in e.galts(ev.args[0]):
                c.check(q.k == "R" and q.a[0] == t.map and not q.a[1], R, f"the replica's kept {kind}s are looked at", f"other {kind}s than the replica's are looked at", w)
        for ev in steps:
            c.check(fromwalk(t, ev.args[0]), R, f"all kept {kind}s are looked at from the first", f"some authors' kept {kind}s are left out", w)
    # what is remembered for the next time
    if opt_i is not None:
        for g, val in [(L.AND(out.g, L.NOT(rec)), L.get(me, out))] + [(ev.g, None) for ev in recs]:
            if val is None:
                continue
            o = e.getf(val, ST, 0, opt_i)
            chk0(c, R, L, L.AND(g, L.isv(o, opt_t, "None"), L.NOT(done)), f"the author at hand is remembered", f"the rest of an author's kept {kind}s is forgotten", w)
        for ev in recs:
            o = e.getf(ev.args[0], ST, 0, opt_i)
            chk0(c, R, L, L.AND(ev.g, L.isv(o, opt_t, "None"), L.NOT(done)), f"the author at hand is remembered", f"the rest of an author's kept {kind}s is forgotten", w)
    for p in e.panics:
        chk0(c, R, L, p.g, f"asking for kept {kind}s never panics", f"asking for the kept {kind}s panics ({p.extra})", w)
    c.analysed.add(fn)


def fromwalk(t, v, seen=()):
    """the iterator is a fresh walk, advanced only by the loop"""
    e = t.L.e
    for q, _ in e.galts(v):
        if q.k == "X" and q.a[0] == "walk":
            continue
        if q.k == "X" and q.a[0] == "walked":
            if fromwalk(t, q.a[2], seen):
                continue
            return False
        p = t.phi(e.G1(q))
        if p is None:
            return False
        if q in seen:
            continue
        r, ph = p
        if not (fromwalk(t, r.phis[ph][0], seen + (q,)) and fromwalk(t, r.phis[ph][1], seen + (q,))):
            return False
    return True


def begin(c, kind):
    """The iterator that is handed out walks over the replica's own backlog."""
    t = Walk(c, kind)
    L, e = t.L, t.L.e
    fn = t.k["asked"]
    inst = L.fn(fn)
    w = t.w = where(L, fn)
    empty = e.symval(NT("X", "new", t.DT), t.DT)
    L.st.m[t.listroot] = e.putf(e.symval(N("S", "no list", t.LT), t.LT), t.LT, 0, t.di, empty)
    e0 = len(e.events)
    rv, out, rty = L.call(inst, L.ref(t.rep))
    t.ev = e.events[e0:]
    steps, walks = t.notes("step"), t.notes("walk")
    BT = L.fty(L.ty(REP), "backlog")

    def own(v, what):
        for q, g in e.galts(v):
            ok = q.k == "R" and q.a[0] == t.rep and len(q.a[1]) == 2
            if ok:
                i = q.a[1][0][2]
                ok = L.prog.field_ty(L.ty(REP), 0, i) == BT and L.prog.field_ty(BT, 0, q.a[1][1][2]) == t.MT
            c.check(ok, R, what, f"other {kind}s than the replica's kept ones are looked at", w)
    for ev in walks:
        own(ev.args[0], f"the replica's own kept {kind}s")
    seen = False
    for i, f in fieldsof(L, rty):
        ft = L.prog.types[f["t"]]
        x = e.getf(rv, rty, 0, i)
        if ft["k"] == "ref" and ft["e"] == L.ty(REP):
            for q, _ in e.galts(x):
                c.check(q.k == "R" and q.a[0] == t.rep and not q.a[1], R, f"kept {kind}s are merged into their replica", f"kept {kind}s are merged into another replica", w)
            seen = True
        elif ft["k"] == "ref" and ft["e"] == t.MT:
            own(x, f"the replica's own kept {kind}s")
        elif ft.get("def") == "std::option::Option" and L.prog.types[ft["args"][0]].get("e") == t.LT:
            more = L.OR(*[L.AND(ev.g, L.G(ev.args[3])) for ev in steps]) if steps else 0
            c.check(bool(steps) or L.isv(x, f["t"], "None") == 0, R, f"the first author's {kind}s", "no author is looked at", w)
            chk0(c, R, L, L.b.XOR(L.isv(x, f["t"], "Some"), more), f"the first author's {kind}s are at hand", f"the first author's kept {kind}s are left out", w)
        elif ft.get("def", "").endswith(("hash_map::ValuesMut", "hash_map::IterMut")):
            c.check(bool(walks), R, f"all kept {kind}s", "no walk over the kept edits", w)
            c.check(fromwalk(t, x), R, f"all kept {kind}s are looked at", f"some authors' kept {kind}s are left out", w)
    c.check(seen, R, f"the {kind}s' replica", f"the iterator does not hold its replica", w)
    chk0(c, R, L, L.NOT(out.g), "asking succeeds", f"asking for kept {kind}s fails", w)
    same(c, R, L, e.root_value(out, t.rep), e.root_value(L.st, t.rep), out.g, f"asking for kept {kind}s changes nothing", f"asking for kept {kind}s changes the replica", w)
    # only one list may be skipped past: none
    lost = L.NOT(0) if 0 else 0
    if len(steps) > 1:
        c.check(False, R, f"no author is left out", f"an author's kept {kind}s are left out before the walk begins", w)
    c.analysed.add(fn)

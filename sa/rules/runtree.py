"""Rules over the run tree (run_tree.rs).  The tree of runs below it is replaced
by the contract of its methods: which closure is called on which run, and what
the caller gets back."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St, Event
import models

RT = "run_tree::RunTree"
T = "cola::run_tree::RunTree::"
RUN = "run_tree::EditRun"
G = "cola::gtree::Gtree::<ARITY, L>::"
RI = "cola::run_indices::ReplicaIndices::"
OPAQUE = [
    r"cola::gtree::(?!.*::(leaf|lnode|value)$).*",
    r"<cola::gtree::.*",
    r"cola::run_indices::(?!RunIndices::get_mut$|ReplicaIndices::len$).*",
    r"<cola::run_indices::.*",
]


def where(L, fn):
    i = L.fn(fn)
    return i["def"] + " @ " + str(i["body"]["span"])


class Tree:
    """Contracts of the gtree's closure-taking methods, over one symbolic leaf."""

    def __init__(self, c, cfg="rel", extra=()):
        self.c = c
        L = self.L = Lab(c.prog(cfg), opaque=OPAQUE + list(extra))
        L.c = c
        self.RUN = L.ty(RUN)
        self.calls = []
        self.n = 0
        self.leafaxioms = None
        L.e.userm[G + "insert"] = self.m_insert
        L.e.userm[G + "split_leaf_with_another"] = self.m_split2
        L.e.userm[G + "delete"] = self.m_delete
        L.e.userm[G + "delete_leaf_range"] = self.m_dlr
        L.e.userm[G + "with_leaf_mut"] = self.m_wlm

    # ---- fields of runs
    def f(self, v, path):
        return self.L.f(v, self.RUN, path)

    def start(self, v):
        return self.f(v, "text.range.start")

    def end(self, v):
        return self.f(v, "text.range.end")

    def by(self, v):
        return self.f(v, "text.inserted_by")

    def dead(self, v):
        return self.L.G(self.f(v, "is_deleted"))

    def len(self, v):
        return self.L.e.sub(self.end(v), self.start(v))

    def newleaf(self, e, st, name=None):
        self.n += 1
        root = ("arg", name or f"leaf{self.n}")
        e.root_ty[root] = self.RUN
        st.m[root] = e.symval(N("S", root[1], self.RUN), self.RUN)
        v = st.m[root]
        self.L.assume(self.L.NOT(e.lt(self.end(v), self.start(v))))
        return root

    def closure(self, e, c, st, i, args):
        from models import callclosure
        return callclosure(e, c.args[i], c.atys[i], args, [None] * len(args), st, c)

    def record(self, **kw):
        self.calls.append(kw)

    def opt(self, e, ty, k, guard, tag, *args):
        """Option<LeafIdx> element k of the tuple type ty"""
        ot = e.prog.types[ty]["es"][k]
        vs = e.prog.types[ot]["vs"]
        some = next(i for i, v in enumerate(vs) if v["n"] == "Some")
        it = e.prog.field_ty(ot, some, 0)
        return models.opt(e, ot, guard, e.symval(NT("X", tag, it, *args), it)), it

    def evs(self, method):
        """calls of a gtree method"""
        return [ev for ev in self.ev if ev.kind == "call" and ev.inst["def"] == G + method]

    def some(self, v, ty):
        return self.L.isv(v, ty, "Some")

    # ---- contracts
    def m_insert(self, e, c, st):
        """insert(offset, f): f is called on the visible leaf that ends at or
        contains the offset, with the offset inside that leaf; what it returns
        is inserted right after that leaf and its indices are returned."""
        gt, tg, gty = models.deref(e, c, 0, st)
        s = models.fresh(st)
        root = self.newleaf(e, s)
        pre = s.m[root]
        us = e.prog.ty_by_name["usize"] if "usize" in e.prog.ty_by_name else self.L.ty("usize")
        off = e.symval(N("S", f"offset in {root[1]}", us), us)
        self.L.assume(self.L.AND(e.lt(e.I(0), off), self.L.NOT(e.lt(self.len(pre), off)), self.L.NOT(self.dead(pre))))
        before = St(1, dict(s.m))
        rv, s2 = self.closure(e, c, s, 2, [e.G1(NT("R", root, ())), off])
        rty = e.prog.insts[e.prog.types[c.atys[2]]["inst"]]["body"]["locals"][0]
        a, b = e.getf(rv, rty, 0, 0), e.getf(rv, rty, 0, 1)
        at, bt = e.prog.types[rty]["es"]
        ga, gb = self.some(a, at), self.some(b, bt)
        i1, _ = self.opt(e, c.dty, 0, ga, "idx of inserted", gt)
        i2, _ = self.opt(e, c.dty, 1, gb, "idx of split", gt)
        self.record(kind="insert", g=st.g, gt=gt, at=c.args[1], off=off, pre=pre, post=s2.m[root], before=before, after=s2,
                    new=self.L.payload(a, at, "Some"), has=ga, rest=self.L.payload(b, bt, "Some"), hasrest=gb, i1=i1, i2=i2, it=c.dty)
        s3 = models.fresh(s2)
        e.wr(s3, tg, e.app("after insert", gty, gt, c.args[1]))
        return e.mkA(c.dty, [(0, 1, (i1, i2))]), s3

    def m_split2(self, e, c, st):
        """split_leaf_with_another(idx, f): f is called on that leaf and returns
        the new leaf and the right part of the split."""
        gt, tg, gty = models.deref(e, c, 0, st)
        s = models.fresh(st)
        root = self.newleaf(e, s)
        s.m[root] = self.leafval(e, c, st, gt)
        pre = s.m[root]
        before = St(1, dict(s.m))
        rv, s2 = self.closure(e, c, s, 2, [e.G1(NT("R", root, ()))])
        rty = e.prog.insts[e.prog.types[c.atys[2]]["inst"]]["body"]["locals"][0]
        es = e.prog.types[c.dty]["es"]
        out = [e.app("offset of inserted", es[0], gt, c.args[1]), e.symval(NT("X", "idx of inserted", es[1], gt), es[1]), e.symval(NT("X", "idx of split", es[2], gt), es[2])]
        self.record(kind="split2", g=st.g, gt=gt, idx=c.args[1], pre=pre, post=s2.m[root], before=before, after=s2,
                    new=e.getf(rv, rty, 0, 0), rest=e.getf(rv, rty, 0, 1), off=out[0], i1=out[1], i2=out[2])
        s3 = models.fresh(s2)
        e.wr(s3, tg, e.app("after split", gty, gt, c.args[1]))
        return e.mkA(c.dty, [(0, 1, tuple(out))]), s3

    def leafval(self, e, c, st, gt):
        """the run stored at an index"""
        out = None
        for p, g in self.o.pos(c.args[1], c.atys[1]):
            v = self.o.runat(gt, p)
            out = v if out is None else e.mux(g, v, out)
        return out

    def m_delete(self, e, c, st):
        return NotImplemented

    def m_dlr(self, e, c, st):
        return NotImplemented

    def m_wlm(self, e, c, st):
        """with_leaf_mut(idx, f): f is called on that leaf"""
        gt, tg, gty = models.deref(e, c, 0, st)
        s = models.fresh(st)
        self.n += 1
        root = ("arg", f"leaf{self.n}")
        e.root_ty[root] = self.RUN
        s.m[root] = self.leafval(e, c, st, gt)
        pre = s.m[root]
        rv, s2 = self.closure(e, c, s, 2, [e.G1(NT("R", root, ()))])
        note = Event(kind="note:with", inst=None, args=[], raw=[], g=st.g, loop=tuple(e.loopstack), span=c.span, ret=None, fn=None, seq=len(e.events))
        e.events.append(note)
        self.record(kind="with", g=st.g, gt=gt, idx=c.args[1], ity=c.atys[1], pre=pre, post=s2.m[root], after=s2, loop=tuple(e.loopstack), note=note)
        s3 = models.fresh(s2)
        e.wr(s3, tg, e.app("after with", gty, gt, c.args[1]))
        return rv, s3

    # ---- calls on a replica's indices
    def indices(self, events, method):
        """[(event, replica id of the indices)]"""
        out = []
        for ev in events:
            if ev.kind == "call" and ev.inst["def"] == RI + method:
                for t, g in self.L.e.galts(ev.raw[0]):
                    k = t.a[1][-1][1] if t.k == "R" and t.a[1] and t.a[1][-1][0] == "k" else None
                    out.append((ev, self.L.AND(ev.g, g), k))
        return out


# ------------------------------------------------------------- local insertion
def typed(c, cfg="rel"):
    """RunTree::insert over a symbolic tree, text and pair of clocks"""
    t = Tree(c, cfg)
    L = t.L
    me = L.place("self", RT)
    rc, lc = L.place("run_clock", "replica::RunClock"), L.place("lamport_clock", "replica::LamportClock")
    inst = L.fn(T + "insert")
    off = L.sym("offset", inst["body"]["locals"][2])
    text = L.sym("text", "text::Text")
    TT = L.ty("text::Text")
    s, e_ = L.f(text, TT, "range.start"), L.f(text, TT, "range.end")
    L.assume(L.e.lt(s, e_))
    pre = St(1, dict(L.st.m))
    e0, p0 = len(L.e.events), len(L.e.panics)
    rv, out, rty = L.call(inst, L.ref(me), off, text, L.ref(rc), L.ref(lc))
    t.ev, t.pan = L.e.events[e0:], L.e.panics[p0:]
    t.me, t.rc, t.lc, t.off, t.text, t.s, t.e_ = me, rc, lc, off, text, s, e_
    t.pre, t.out, t.rv, t.rty = pre, out, rv, rty
    t.w = where(L, T + "insert")
    R0, L0 = L.ty("replica::RunClock"), L.ty("replica::LamportClock")
    t.rc0, t.lc0 = L.e.getf(L.get(rc, pre), R0, 0, 0), L.e.getf(L.get(lc, pre), L0, 0, 0)
    t.rc1, t.lc1 = L.e.getf(L.get(rc, out), R0, 0, 0), L.e.getf(L.get(lc, out), L0, 0, 0)
    t.last0 = L.pure("cola::replica::RunClock::last", L.ref(rc), state=pre)
    t.last1 = L.pure("cola::replica::RunClock::last", L.ref(rc), state=out)
    t.high0 = L.pure("cola::replica::LamportClock::highest", L.ref(lc), state=pre)
    t.high1 = L.pure("cola::replica::LamportClock::highest", L.ref(lc), state=out)
    t.zero = L.e.eqc(off, 0)
    t.ins = [k for k in t.calls if k["kind"] == "insert"]
    t.prep = [ev for ev in t.ev if ev.kind == "call" and ev.inst["def"] == G + "prepend"]
    # the latest text of a replica is at the end of its latest run
    for k in t.ins:
        p = k["pre"]
        mine = L.AND(L.e.eq(t.by(p), L.f(text, TT, "inserted_by")), L.e.eq(t.end(p), s))
        L.assume(L.OR(L.NOT(mine), L.NOT(L.e.eqc(t.rc0, 0))))
        L.assume(L.OR(L.NOT(mine), L.e.eq(t.f(p, "run_ts"), t.last0)))
    return t


def chk0(c, R, L, g, inst, msg, w):
    """g must be infeasible"""
    z = L.feasible(g)
    c.check(z == 0, R, inst, lambda: f"{msg}, when {L.why(z)}", w)


def same(c, R, L, a, b, g, inst, msg, w):
    d = L.diff(a, b, g)
    c.check(d == 0, R, inst, lambda: f"{msg}: {trunc(a)} instead of {trunc(b)}, when {L.why(d)}", w)


def stored_run(c):
    """what RunTree::insert stores is what the insertion handed out will say"""
    R = "stored-run"
    t = typed(c)
    L, w = t.L, t.w
    TT = L.ty("text::Text")
    og = t.out.g
    c.floor("places where a typed run is stored", len(t.ins) + len(t.prep), 2)
    for p in t.pan:
        chk0(c, R, L, p.g, "does not panic", f"inserting text panics ({p.extra} at {p.span})", w)
    gp = 0
    for ev in t.prep:
        chk0(c, R, L, L.AND(gp, ev.g), "stored once", "the text is stored twice", w)
        gp = L.OR(gp, ev.g)
    gi = 0
    for k in t.ins:
        chk0(c, R, L, L.AND(L.OR(gi, gp), k["g"]), "stored once", "the text is stored twice", w)
        gi = L.OR(gi, k["g"])
        same(c, R, L, k["at"], t.off, k["g"], "stored at the requested offset", "the text is stored at another offset", w)
    chk0(c, R, L, L.NOT(L.OR(gp, gi)), "always stored", "the text is stored nowhere", w)
    chk0(c, R, L, L.AND(gp, L.NOT(t.zero)), "prepended only at the start", "the text is put at the start of the document although it was inserted elsewhere", w)
    chk0(c, R, L, L.AND(gi, t.zero), "start of the document", "an insertion at the start of the document is handed to the offset search", w)

    def isnew(run, g):
        same(c, R, L, t.f(run, "text"), t.text, g, "the new run has the inserted text", "the new run's text is not the inserted one", w)
        same(c, R, L, t.f(run, "run_ts"), t.rc0, g, "the new run takes the next run number", "the new run does not take the next number of the run clock", w)
        same(c, R, L, t.f(run, "lamport_ts"), t.lc0, g, "the new run takes the next Lamport timestamp", "the new run does not take the next Lamport timestamp", w)
        same(c, R, L, t.f(run, "run_ts"), t.last1, g, "the run number handed out is the stored one", "the run is stored under another number than the insertion will carry", w)
        same(c, R, L, t.f(run, "lamport_ts"), t.high1, g, "the timestamp handed out is the stored one", "the run is stored under another timestamp than the insertion will carry", w)
        chk0(c, R, L, L.AND(g, t.dead(run)), "the new run is visible", "the new run is stored as deleted", w)
        same(c, R, L, t.rc1, L.e.add(t.rc0, L.e.I(1)), g, "the run clock advances by one", "the run clock does not advance by one", w)
        same(c, R, L, t.lc1, L.e.add(t.lc0, L.e.I(1)), g, "the Lamport clock advances by one", "the Lamport clock does not advance by one", w)
    for ev in t.prep:
        isnew(ev.args[1], ev.g)
    AT = t.rty
    za = L.call("cola::anchor::InnerAnchor::zero")[0]
    same(c, R, L, t.rv, za, L.AND(og, t.zero), "anchored at the start of the document", "an insertion at the start isn't anchored there", w)
    for k in t.ins:
        pre, post, off = k["pre"], k["post"], k["off"]
        g = L.AND(k["g"], k["after"].g)
        full = L.e.eq(off, t.len(pre))
        isnew(k["new"], L.AND(g, k["has"]))
        chk0(c, R, L, L.AND(g, k["hasrest"], L.NOT(k["has"])), "no split without a new run", "a run is split but nothing is inserted", w)
        # not extended
        n = L.AND(g, k["has"])
        chk0(c, R, L, L.AND(n, full, k["hasrest"]), "whole runs aren't split", "a run is split at its end", w)
        chk0(c, R, L, L.AND(n, L.NOT(full), L.NOT(k["hasrest"])), "the right part of a split is kept", "the text after the insertion point is lost", w)
        same(c, R, L, post, pre, L.AND(n, full), "the run before the new one is unchanged", "the run before the insertion point changes", w)
        mid = L.e.add(t.start(pre), off)
        cut = L.AND(n, L.NOT(full))
        for which, v, lo, hi in (("left", post, t.start(pre), mid), ("right", k["rest"], mid, t.end(pre))):
            same(c, R, L, t.start(v), lo, cut, f"the {which} part starts where it should", f"the {which} part of the split run has the wrong start", w)
            same(c, R, L, t.end(v), hi, cut, f"the {which} part ends where it should", f"the {which} part of the split run has the wrong end", w)
            for f in ("text.inserted_by", "run_ts", "lamport_ts", "is_deleted"):
                same(c, R, L, t.f(v, f), t.f(pre, f), cut, f"the {which} part keeps {f}", f"the {which} part of the split run changes its {f}", w)
        # extended
        x = L.AND(g, L.NOT(k["has"]))
        chk0(c, R, L, L.AND(x, L.NOT(full)), "runs are extended at their end only", "a run is extended although the text goes inside it", w)
        same(c, R, L, t.by(pre), L.f(t.text, TT, "inserted_by"), x, "only one's own runs are extended", "another replica's run is extended", w)
        same(c, R, L, t.end(pre), t.s, x, "runs are extended contiguously", "a run is extended with text that doesn't follow its own", w)
        same(c, R, L, t.end(post), t.e_, x, "extended by the inserted text", "the extended run doesn't end where the inserted text does", w)
        for f in ("text.range.start", "text.inserted_by", "run_ts", "lamport_ts", "is_deleted"):
            same(c, R, L, t.f(post, f), t.f(pre, f), x, f"the extended run keeps {f}", f"extending a run changes its {f}", w)
        same(c, R, L, t.f(post, "lamport_ts"), t.high1, x, "the timestamp handed out is the stored one", "a run is extended under another timestamp than the insertion will carry", w)
        same(c, R, L, t.f(post, "run_ts"), t.last1, x, "the run number handed out is the stored one", "a run is extended under another number than the insertion will carry", w)
        same(c, R, L, t.lc1, t.lc0, x, "extending a run doesn't advance the Lamport clock", "the Lamport clock advances although a run is extended", w)
        same(c, R, L, t.rc1, t.rc0, x, "extending a run doesn't advance the run clock", "the run clock advances although a run is extended", w)
        # the anchor
        a = L.AND(g, og)
        same(c, R, L, L.f(t.rv, AT, "replica_id"), t.by(pre), a, "anchored in the run it was typed into", "the anchor names the wrong replica", w)
        same(c, R, L, L.f(t.rv, AT, "contained_in"), t.f(pre, "run_ts"), a, "anchored in the run it was typed into", "the anchor names the wrong run", w)
        same(c, R, L, L.f(t.rv, AT, "offset"), mid, a, "anchored at the character it was typed after", "the anchor has the wrong offset", w)
    c.analysed |= L.e.analysed


def typed_indices(c):
    """the secondary index follows RunTree::insert"""
    R = "typed-index"
    t = typed(c)
    L, w = t.L, t.w
    TT = L.ty("text::Text")
    me = L.f(t.text, TT, "inserted_by")
    ln = L.e.sub(t.e_, t.s)
    app, ext, spl = (t.indices(t.ev, m) for m in ("append", "extend_last", "split"))
    other = [ev for ev in t.ev if ev.kind == "call" and ev.inst["def"].startswith("cola::run_indices::") and ev.inst["def"].split("::")[-1] not in ("append", "extend_last", "split", "default")]
    c.check(not other, R, "only known index updates", lambda: "the index is changed in another way: " + ", ".join(e.inst["def"] for e in other), w)
    c.floor("index updates of a local insertion", len(app) + len(ext) + len(spl), 3)
    new = 0
    for ev in t.prep:
        new = L.OR(new, ev.g)
    wantsplit = wantext = 0
    for k in t.ins:
        g = L.AND(k["g"], k["after"].g)
        new = L.OR(new, L.AND(g, k["has"]))
        wantsplit = L.OR(wantsplit, L.AND(g, k["hasrest"]))
        wantext = L.OR(wantext, L.AND(g, L.NOT(k["has"])))
    for what, l, want in (("a new run", app, new), ("a split", spl, wantsplit), ("an extension", ext, wantext)):
        got = 0
        for ev, g, k in l:
            chk0(c, R, L, L.AND(got, g), f"{what} is recorded once", f"{what} is recorded twice in the index", w)
            got = L.OR(got, g)
        chk0(c, R, L, L.AND(got, L.NOT(want)), f"{what} is recorded only if it happened", f"{what} is recorded in the index although it didn't happen", w)
        chk0(c, R, L, L.AND(want, L.NOT(got)), f"{what} is recorded", f"{what} isn't recorded in the index", w)
    for ev, g, k in app:
        same(c, R, L, k, me, g, "new runs are recorded under their author", "a new run is recorded under another replica", w)
        same(c, R, L, ev.args[1], ln, g, "new runs are recorded with their length", "a new run is recorded with another length", w)
        for p in t.prep:
            same(c, R, L, ev.args[2], p.ret, L.AND(g, p.g), "new runs are recorded where they are", "a new run is recorded with another leaf", w)
        for x in t.ins:
            same(c, R, L, ev.args[2], idxof(t, x, 0), L.AND(g, x["g"]), "new runs are recorded where they are", "a new run is recorded with another leaf", w)
    for ev, g, k in ext:
        same(c, R, L, k, me, g, "extensions are recorded under their author", "an extension is recorded under another replica", w)
        same(c, R, L, ev.args[1], ln, g, "extensions are recorded with their length", "an extension is recorded with another length", w)
    for ev, g, k in spl:
        for x in t.ins:
            h = L.AND(g, x["g"])
            same(c, R, L, k, t.by(x["pre"]), h, "splits are recorded under the split run's author", "a split is recorded under another replica", w)
            same(c, R, L, ev.args[1], t.f(x["pre"], "run_ts"), h, "splits are recorded in the split run", "a split is recorded in another run", w)
            same(c, R, L, ev.args[2], L.e.add(t.start(x["pre"]), x["off"]), h, "splits are recorded where they happened", "a split is recorded at another offset", w)
            same(c, R, L, ev.args[3], idxof(t, x, 1), h, "splits are recorded with the new leaf", "a split is recorded with another leaf", w)
    c.analysed |= L.e.analysed


def idxof(t, x, k):
    ty = t.L.prog.types[x["it"]]["es"][k]
    return t.L.payload(x[("i1", "i2")[k]], ty, "Some")


# -------------------------------------------------------- the document's order
class Order:
    """The gtree as a sequence of leaves: `leaf(i)` is the run at an index,
    iterators move from a leaf to the one that follows it in the document."""

    def __init__(self, t):
        self.t = t
        L = self.L = t.L
        e = L.e
        self.LV, self.SB = self.tys("Leaves"), self.tys("Siblings")
        e.atomic = self.LV | self.SB
        self.us = L.ty("usize")
        self.n = 0
        self.seen = set()
        self.nexts = []
        m = e.userm
        m[G + "leaf"] = self.leaf
        m[G + "leaves"] = self.leaves
        m[G + "siblings"] = self.siblings
        m[G + "leaves_from_first"] = self.first
        m[G + "next_leaf"] = self.next_leaf
        m["<cola::gtree::iter::Leaves<'a, N, L> as std::iter::Iterator>::next"] = self.next
        m["<cola::gtree::iter::Siblings<'a, N, L> as std::iter::Iterator>::next"] = self.next

    def tys(self, n):
        p = self.L.prog
        return frozenset(i for i, t in enumerate(p.types) if t["k"] == "adt" and t["n"].startswith("gtree::iter::" + n) and "EditRun" in t["n"])

    def isrun(self, c):
        return "EditRun" in c.inst["n"]

    def pos(self, idx, ty):
        """(term, guard) of an index value"""
        return self.L.e.galts(self.L.e.getf(idx, ty, 0, 0))

    def mkidx(self, ty, term):
        e = self.L.e
        v = e.expand(e.symval(N("S", "leafidx", ty), ty), ty)
        fs = list(v.a[1][0][2])
        fs[0] = e.G1(term)
        return e.mkA(ty, [(0, 1, tuple(fs))])

    def gt(self, c, st):
        return models.deref(self.L.e, c, 0, st)[0]

    def leafroot(self, gt, term):
        r = ("deref", NT("X", "leafat", self.us, gt, term))
        if r not in self.seen:
            self.seen.add(r)
            self.L.e.root_ty[r] = self.t.RUN
            v = self.L.e.root_value(St(1, {}), r)
            self.L.assume(self.L.NOT(self.L.e.lt(self.t.end(v), self.t.start(v))))
        return r

    def runat(self, gt, term):
        return self.L.e.root_value(St(1, {}), self.leafroot(gt, term))

    def leaf(self, e, c, st):
        if not self.isrun(c):
            return NotImplemented
        gt = self.gt(c, st)
        out = [(NT("R", self.leafroot(gt, p), ()), g) for p, g in self.pos(c.args[1], c.atys[1])]
        return e.mkG(out), st

    # positions
    def succ(self, gt, p):
        if p.k == "X" and p.a[0] == "before":
            return p.a[3]
        return NT("X", "succ", self.us, gt, p)

    def has(self, gt, p, sib):
        L = self.L
        if p.k == "X" and p.a[0] == "before":
            return 1
        h = L.e.atom("bool", NT("X", "hassucc", self.us, gt, p))
        if sib:
            s = L.e.atom("bool", NT("X", "hassib", self.us, gt, p))
            L.assume(L.OR(L.NOT(s), h))
            return s
        return h

    def incl(self, c):
        return "::<true>" in c.inst["n"].split("::")[-1] or c.inst["n"].endswith("<true>")

    def mkit(self, e, c, st, p):
        return e.symval(NT("X", "it", c.dty, self.gt(c, st), p), c.dty)

    def leaves(self, e, c, st):
        gt = self.gt(c, st)
        out = None
        for p, g in self.pos(c.args[1], c.atys[1]):
            if self.incl(c):
                p = NT("X", "before", self.us, gt, p)
            v = self.mkit(e, c, st, p)
            out = v if out is None else e.mux(g, v, out)
        return out, st

    siblings = leaves

    def first(self, e, c, st):
        if not self.isrun(c):
            return NotImplemented
        gt = self.gt(c, st)
        f = NT("X", "first", self.us, gt)
        return self.mkit(e, c, st, NT("X", "before", self.us, gt, f)), st

    def itpos(self, term):
        if term.k == "X" and term.a[0] == "it":
            return term.a[2], term.a[3]
        return None, NT("X", "itat", self.us, term)

    def next(self, e, c, st):
        if not self.isrun(c):
            return NotImplemented
        it, tg, ity = models.deref(e, c, 0, st)
        sib = ity in self.SB
        some = 0
        idx = ref = new = None
        ot = c.dty
        vs = e.prog.types[ot]["vs"]
        k = next(i for i, v in enumerate(vs) if v["n"] == "Some")
        tt = e.prog.field_ty(ot, k, 0)
        it_, rt = e.prog.types[tt]["es"]
        rs = []
        for term, g in e.galts(it):
            gt, p = self.itpos(term)
            if gt is None:
                gt = self.cur(st)
            s = self.succ(gt, p)
            some = self.L.OR(some, self.L.AND(g, self.has(gt, p, sib)))
            v = self.mkidx(it_, s)
            idx = v if idx is None else e.mux(g, v, idx)
            rs.append((NT("R", self.leafroot(gt, s), ()), g))
            self.nexts.append((tuple(e.loopstack), self.L.AND(st.g, g), gt, s, term))
            nv = e.symval(NT("X", "it", ity, gt, s), ity)
            new = nv if new is None else e.mux(g, nv, new)
        s2 = models.fresh(st)
        e.wr(s2, tg, new)
        return models.opt(e, ot, some, e.mkA(tt, [(0, 1, (idx, e.mkG(rs)))])), s2

    def cur(self, st):
        """the gtree a loop-carried iterator points into"""
        L, t = self.L, self.t
        v = L.get(t.me, st)
        return L.f(v, RT, "gtree")

    def next_leaf(self, e, c, st):
        if not self.isrun(c):
            return NotImplemented
        gt = self.gt(c, st)
        ot = c.dty
        vs = e.prog.types[ot]["vs"]
        k = next(i for i, v in enumerate(vs) if v["n"] == "Some")
        it_ = e.prog.field_ty(ot, k, 0)
        some, idx = 0, None
        for p, g in self.pos(c.args[1], c.atys[1]):
            some = self.L.OR(some, self.L.AND(g, self.has(gt, p, False)))
            v = self.mkidx(it_, self.succ(gt, p))
            idx = v if idx is None else e.mux(g, v, idx)
        return models.opt(e, ot, some, idx), st

    def invariant(self, c, R, w):
        """Relate every loop's previous leaf with the position of its iterator;
        the pairs that are equal at the start and stay equal are assumed so."""
        L = self.L
        e = L.e
        for r in e.loops:
            its = [(ph, x) for ph, x in r.phis.items() if ph.k == "S" and self.tyofphi(r, ph) in e.atomic]
            idx = [(ph, x) for ph, x in r.phis.items() if self.tyofphi(r, ph) == self.us]
            for ph, (i0, i1, _) in its:
                p0 = e.mkG([(self.itpos(t)[1], g) for t, g in e.galts(i0)])
                p1 = e.mkG([(self.itpos(t)[1], g) for t, g in e.galts(i1)])
                me = NT("X", "itat", self.us, ph)
                for q, (a, b, _) in idx:
                    if L.diff(a, p0, r.g) == 0 and L.diff(b, p1, r.cont) == 0:
                        L.assume(e.eq(e.G1(q), e.G1(me)))
                        self.pairs[q] = (r, me)

    pairs = {}

    def tyofphi(self, r, ph):
        root, path = r.phis[ph][2]
        return self.L.e.pathty(self.L.e.root_ty[root], path)


def less(t, a, b):
    """run a comes before run b at the same place"""
    L = t.L
    la, lb = t.f(a, "lamport_ts"), t.f(b, "lamport_ts")
    return L.OR(L.e.lt(lb, la), L.AND(L.e.eq(la, lb), L.e.lt(t.by(a), t.by(b))))


def merged(c, cfg="rel"):
    t = Tree(c, cfg)
    L = t.L
    o = t.o = Order(t)
    o.pairs = {}
    me = t.me = L.place("self", RT)
    ins = t.insroot = L.place("insertion", "insertion::Insertion")
    IT = L.ty("insertion::Insertion")
    iv = L.get(ins)
    t.text = L.f(iv, IT, "text")
    TT = L.ty("text::Text")
    t.s, t.e_ = L.f(t.text, TT, "range.start"), L.f(t.text, TT, "range.end")
    t.auth = L.f(t.text, TT, "inserted_by")
    L.assume(L.e.lt(t.s, t.e_))
    t.run_ts, t.lam = L.f(iv, IT, "run_ts"), L.f(iv, IT, "lamport_ts")
    t.anchor = L.f(iv, IT, "anchor")
    AT = L.fty(IT, "anchor")
    t.zero = L.nowhere(t.anchor, AT)
    t.aoff = L.f(t.anchor, AT, "offset")
    t.pre = St(1, dict(L.st.m))
    t.gt0 = L.f(L.get(me), RT, "gtree")
    e0, p0 = len(L.e.events), len(L.e.panics)
    t.rv, t.out, t.rty = L.call(T + "merge_insertion", L.ref(me), L.ref(ins))
    t.ev, t.pan = L.e.events[e0:], L.e.panics[p0:]
    t.w = where(L, T + "merge_insertion")
    t.at = [ev for ev in t.ev if ev.kind == "call" and ev.inst["def"].endswith("RunIndices::idx_at_anchor")]
    t.after = t.evs("insert_leaf_after_another")
    t.app = t.evs("append_leaf_to_another")
    t.prep = t.evs("prepend")
    t.split = [k for k in t.calls if k["kind"] == "split2"]
    return t


def merge_order(c):
    """where a merged insertion is put among the runs that follow its anchor"""
    R = "merge-order"
    t = merged(c)
    L, w, o = t.L, t.w, t.o
    c.floor("places where a merged run is stored", len(t.after) + len(t.app) + len(t.prep) + len(t.split), 4)
    o.invariant(c, R, w)
    iv = L.get(t.insroot)
    IT = L.ty("insertion::Insertion")
    AT = L.fty(IT, "anchor")
    # which leaf the anchor denotes
    c.floor("anchor lookups", len(t.at), 1)
    anchors = set()
    ga = 0
    for ev in t.at:
        same(c, R, L, ev.args[1], t.anchor, ev.g, "the run is placed behind its anchor", "another anchor than the insertion's is looked up", w)
        bt = ev.inst["body"]["locals"][3]
        chk0(c, R, L, L.AND(ev.g, L.NOT(L.isv(ev.args[2], bt, "Left"))), "anchors of insertions are looked up to the left", "the anchor of an insertion is looked up with the wrong bias", w)
        rt = ev.inst["body"]["locals"][0]
        anchors |= {x for x, g in o.pos(ev.ret, rt)}
        same(c, R, L, ev.args[0], L.f(L.get(t.me, t.pre), RT, "run_indices"), ev.g, "the anchor is looked up in the current index", "the anchor is looked up in a modified index", w)

    def run_is(v, g):
        same(c, R, L, t.f(v, "text"), t.text, g, "the stored run has the insertion's text", "the stored run's text is not the insertion's", w)
        same(c, R, L, t.f(v, "run_ts"), t.run_ts, g, "the stored run has the insertion's run number", "the stored run's number is not the insertion's", w)
        same(c, R, L, t.f(v, "lamport_ts"), t.lam, g, "the stored run has the insertion's timestamp", "the stored run's timestamp is not the insertion's", w)
        chk0(c, R, L, L.AND(g, t.dead(v)), "the stored run is visible", "the stored run is not visible", w)
    new = None
    for l, k in ((t.after, 1), (t.prep, 1), (t.app, 2)):
        for ev in l:
            run_is(ev.args[k], ev.g)
            new = ev.args[k] if new is None else new
    for k in t.split:
        run_is(k["new"], L.AND(k["g"], k["after"].g))

    def stop(p, g, run, what):
        """the run is put behind leaf p: what follows must not come first"""
        at = o.pairs[p][1] if p in o.pairs else p
        has = o.has(t.gt0, at, False)
        nx = o.runat(t.gt0, o.succ(t.gt0, at))
        chk0(c, R, L, L.AND(g, has, less(t, nx, run)), "placed past every run that comes first",
             f"a merged run is placed before a run that should come first ({what})", w)
        # behind an anchor only at its end
        good(p, g, run, what, 0)

    done = {}

    def good(p, g, run, what, d):
        """leaf p is the anchor, or was reached from it past smaller runs only"""
        if d > 12:
            raise Imprecise("scan too deep")
        if not L.feasible(g):
            return
        if p in anchors:
            a = o.runat(t.gt0, p)
            chk0(c, R, L, L.AND(g, t.zero), "runs without an anchor start at the start", "a run without an anchor is placed behind an anchor", w)
            chk0(c, R, L, L.AND(g, L.e.lt(t.aoff, t.end(a))), "placed at its anchor's offset", f"a run anchored inside another is placed behind it ({what})", w)
            return
        if p in o.pairs:
            r, pos = o.pairs[p]
            if p in done:
                return
            done[p] = 1
            for v, gg in ((r.phis[p][0], r.g), (r.phis[p][1], r.cont)):
                for x, h in L.e.galts(v):
                    good(x, L.AND(gg, h), run, "while scanning", d + 1)
            return
        if p.k == "X" and p.a[0] in ("succ", "first"):
            lf = o.runat(t.gt0, p)
            chk0(c, R, L, L.AND(g, less(t, run, lf)), "only runs that come first are passed", f"a merged run is placed behind a run that should come after it ({what})", w)
            if p.a[0] == "first":
                chk0(c, R, L, L.AND(g, L.NOT(t.zero)), "anchored runs start at their anchor", "the scan for an anchored run begins at the start of the document", w)
                return
            q = p.a[3]
            if q.k == "X" and q.a[0] == "itat":
                for x, (r, pos) in o.pairs.items():
                    if pos is q:
                        return good(x, g, run, what, d + 1)
            return good(q, g, run, what, d + 1)
        c.check(False, R, "the scan starts at the anchor", lambda: f"a merged run is placed behind {trunc(p)}, which was not reached from its anchor", w)

    total = 0
    for ev in t.after:
        ty = ev.inst["body"]["locals"][3]
        run = ev.args[1]
        for p, g in o.pos(ev.args[2], ty):
            stop(p, L.AND(ev.g, g), run, f"inserted at {ev.span}")
        total = once(c, R, L, total, ev.g, w)
    for ev in t.prep:
        f = NT("X", "first", o.us, t.gt0)
        chk0(c, R, L, L.AND(ev.g, L.NOT(t.zero)), "only runs without an anchor go to the start", "an anchored run is put at the start of the document", w)
        chk0(c, R, L, L.AND(ev.g, less(t, o.runat(t.gt0, f), ev.args[1])), "placed past every run that comes first", "a merged run is put at the start although the first run should come first", w)
        total = once(c, R, L, total, ev.g, w)
    for ev in t.app:
        ty = ev.inst["body"]["locals"][2]
        for p, g in o.pos(ev.args[1], ty):
            g = L.AND(g, ev.g)
            stop(p, g, ev.args[2], "appended")
            a = o.runat(t.gt0, p)
            for cond, msg in ((L.e.eq(t.end(a), t.s), "its text doesn't follow"), (L.e.eq(t.by(a), t.auth), "it's another author's"), (L.e.eq(t.f(a, "run_ts"), t.run_ts), "it's another run"), (L.e.eq(t.f(a, "lamport_ts"), t.lam), "it has another timestamp"), (L.NOT(t.dead(a)), "it is deleted")):
                chk0(c, R, L, L.AND(g, L.NOT(cond)), "only a run's own continuation is appended to it", f"a merged run is appended to a run although {msg}", w)
        total = once(c, R, L, total, ev.g, w)
    for k in t.split:
        g = L.AND(k["g"], k["after"].g)
        ty = L.prog.find(G + "split_leaf_with_another")[0]["body"]["locals"][2]
        for p, h in o.pos(k["idx"], ty):
            c.check(p in anchors, R, "the anchor is the run that's split", "another run than the anchor is split", w)
        pre, post, rest = k["pre"], k["post"], k["rest"]
        for n, v, lo, hi in (("left", post, t.start(pre), t.aoff), ("right", rest, t.aoff, t.end(pre))):
            same(c, R, L, t.start(v), lo, g, f"the {n} part starts where it should", f"the {n} part of the split run has the wrong start", w)
            same(c, R, L, t.end(v), hi, g, f"the {n} part ends where it should", f"the {n} part of the split run has the wrong end", w)
            for f in ("text.inserted_by", "run_ts", "lamport_ts", "is_deleted"):
                same(c, R, L, t.f(v, f), t.f(pre, f), g, f"the {n} part keeps {f}", f"the {n} part of the split run changes its {f}", w)
        chk0(c, R, L, L.AND(g, t.zero), "runs without an anchor split nothing", "a run without an anchor splits another", w)
        chk0(c, R, L, L.AND(g, L.NOT(L.e.lt(t.aoff, t.end(pre)))), "runs are split strictly inside", "a run is split at its end", w)
        total = once(c, R, L, total, k["g"], w)
    chk0(c, R, L, L.AND(t.out.g, L.NOT(total)), "always stored", "a merged insertion is not stored", w)
    # the offset handed back
    for ev in t.after:
        tt = ev.inst["body"]["locals"][0]
        same(c, R, L, t.rv, L.e.getf(ev.ret, tt, 0, 0), L.AND(ev.g, t.out.g), "the offset is where the run landed", "the returned offset is not where the run was inserted", w)
    for ev in t.prep:
        same(c, R, L, t.rv, L.e.I(0), L.AND(ev.g, t.out.g), "the offset is where the run landed", "the returned offset is not where the run was inserted", w)
    for ev in t.app:
        for p, g in o.pos(ev.args[1], ev.inst["body"]["locals"][2]):
            a = o.runat(t.gt0, p)
            same(c, R, L, t.rv, L.e.add(ev.ret, t.len(a)), L.AND(ev.g, g, t.out.g), "the offset is where the run landed", "the returned offset is not where the run was appended", w)
    for k in t.split:
        same(c, R, L, t.rv, k["off"], L.AND(k["g"], t.out.g), "the offset is where the run landed", "the returned offset is not where the run was inserted", w)
    # the order itself
    c.analysed |= L.e.analysed


def once(c, R, L, total, g, w):
    chk0(c, R, L, L.AND(total, g), "stored once", "a merged insertion is stored twice", w)
    return L.OR(total, g)


def run_order(c):
    """EditRun's order: Lamport timestamps descending, then authors ascending"""
    R = "run-order"
    t = Tree(c)
    L = t.L
    a, b = L.place("run_a", RUN), L.place("run_b", RUN)
    va, vb = L.get(a), L.get(b)
    want = less(t, va, vb), less(t, vb, va)
    O = L.ty("std::cmp::Ordering") if "std::cmp::Ordering" in L.prog.ty_by_name else L.ty("Ordering")
    n = 0
    for fn in ("<cola::run_tree::EditRun as std::cmp::Ord>::cmp", "<cola::run_tree::EditRun as std::cmp::PartialOrd>::partial_cmp"):
        rv, out, ty = L.call(fn, L.ref(a), L.ref(b))
        w = where(L, fn)
        if "partial" in fn:
            c.check(L.implies(1, L.isv(rv, ty, "Some")), R, "total", "runs are sometimes not comparable", w)
            rv, ty = L.payload(rv, ty, "Some"), L.prog.field_ty(ty, 1, 0)
        for nm, g in (("Less", want[0]), ("Greater", want[1])):
            n += 1
            h = L.isv(rv, ty, nm)
            c.check(L.equiv(h, g), R, f"{fn.split('::')[-1]} {nm}", lambda: f"runs aren't ordered by descending Lamport timestamp and then ascending author: {nm} when {L.why(L.e.b.XOR(h, g))}", w)
    c.floor("comparisons", n, 4)
    c.analysed |= L.e.analysed


def nruns(t, ev):
    """how many runs the replica whose indices `ev` updates has"""
    L = t.L
    t.n += 1
    ty = L.prog.types[ev.inst["body"]["locals"][1]]["e"]
    r = L.place(f"indices{t.n}", ty, ev.args[0])
    return L.pure(RI + "len", L.ref(r))


def others(c, R, t, allowed, w):
    L = t.L
    bad = [ev for ev in t.ev if ev.kind == "call" and ev.inst["def"].startswith("cola::run_indices::") and ev.inst["def"].split("::")[-1] not in allowed]
    c.check(not bad, R, "only known index updates", lambda: "the index is changed in another way: " + ", ".join(e.inst["def"] for e in bad), w)


def merge_indices(c):
    """the secondary index follows RunTree::merge_insertion"""
    R = "merge-index"
    t = merged(c)
    L, w, o = t.L, t.w, t.o
    app, last, ext, spl = (t.indices(t.ev, m) for m in ("append", "append_to_last", "extend_last", "split"))
    others(c, R, t, ("append", "append_to_last", "extend_last", "split", "default", "len", "idx_at_anchor", "new"), w)
    c.floor("index updates of a merged insertion", len(app) + len(last) + len(ext) + len(spl), 5)
    ln = L.e.sub(t.e_, t.s)
    # what a new run and a continuation are
    mid = 0
    for k in t.split:
        mid = L.OR(mid, k["g"])
    goodcare = 1
    for ev, g, k in app + last + ext:
        n = nruns(t, ev)
        isnew, cont = L.e.eq(t.run_ts, n), L.e.eq(L.e.add(t.run_ts, L.e.I(1)), n)
        goodcare = L.AND(goodcare, L.OR(L.NOT(g), L.OR(isnew, cont)), L.OR(L.NOT(L.AND(g, L.OR(t.zero, mid))), isnew))
        for x in t.app:
            goodcare = L.AND(goodcare, L.OR(L.NOT(L.AND(g, x.g)), cont))
    L.assume(goodcare)
    for ev, g, k in app:
        chk0(c, R, L, L.AND(g, L.NOT(L.e.eq(t.run_ts, nruns(t, ev)))), "only new runs are recorded as new", "a continuation of a run is recorded as a new run", w)
    for ev, g, k in last:
        chk0(c, R, L, L.AND(g, L.e.eq(t.run_ts, nruns(t, ev))), "new runs are recorded as new", "a new run is recorded as a part of the previous one", w)
    new = 0
    for ev in t.after + t.prep:
        new = L.OR(new, ev.g)
    wsplit = 0
    for k in t.split:
        g = L.AND(k["g"], k["after"].g)
        new = L.OR(new, g)
        wsplit = L.OR(wsplit, g)
    wext = 0
    for ev in t.app:
        wext = L.OR(wext, ev.g)
    og = t.out.g
    for what, l, want in (("a new leaf", app + last, new), ("a split", spl, wsplit), ("an extension", ext, wext)):
        got = 0
        for ev, g, k in l:
            chk0(c, R, L, L.AND(got, g), f"{what} is recorded once", f"{what} is recorded twice in the index", w)
            got = L.OR(got, g)
        chk0(c, R, L, L.AND(og, got, L.NOT(want)), f"{what} is recorded only if it happened", f"{what} is recorded in the index although it didn't happen", w)
        chk0(c, R, L, L.AND(og, want, L.NOT(got)), f"{what} is recorded", f"{what} isn't recorded in the index", w)
    for ev, g, k in app + last:
        g = L.AND(g, og)
        same(c, R, L, k, t.auth, g, "new leaves are recorded under their author", "a new leaf is recorded under another replica", w)
        same(c, R, L, ev.args[1], ln, g, "new leaves are recorded with their length", "a new leaf is recorded with another length", w)
        for x in t.prep:
            same(c, R, L, ev.args[2], x.ret, L.AND(g, x.g), "new leaves are recorded where they are", "a new leaf is recorded with another index", w)
        for x in t.after:
            same(c, R, L, ev.args[2], L.e.getf(x.ret, x.inst["body"]["locals"][0], 0, 1), L.AND(g, x.g), "new leaves are recorded where they are", "a new leaf is recorded with another index", w)
        for x in t.split:
            same(c, R, L, ev.args[2], x["i1"], L.AND(g, x["g"]), "new leaves are recorded where they are", "a new leaf is recorded with another index", w)
    for ev, g, k in ext:
        same(c, R, L, k, t.auth, g, "extensions are recorded under their author", "an extension is recorded under another replica", w)
        same(c, R, L, ev.args[1], ln, g, "extensions are recorded with their length", "an extension is recorded with another length", w)
    for ev, g, k in spl:
        for x in t.split:
            h = L.AND(g, x["g"], og)
            same(c, R, L, k, t.by(x["pre"]), h, "splits are recorded under the split run's author", "a split is recorded under another replica", w)
            same(c, R, L, ev.args[1], t.f(x["pre"], "run_ts"), h, "splits are recorded in the split run", "a split is recorded in another run", w)
            same(c, R, L, ev.args[2], t.end(x["post"]), h, "splits are recorded where they happened", "a split is recorded at another offset", w)
            same(c, R, L, ev.args[3], x["i2"], h, "splits are recorded with the new leaf", "a split is recorded with another leaf", w)
    c.analysed |= L.e.analysed

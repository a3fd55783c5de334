"""The per-author index: where a replica finds the piece of the document that
holds a given position of a given author's text."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St
import models
from rules.runtree import where, chk0, same

FR = "run_indices::fragments::Fragments<8>"
F = "cola::run_indices::fragments::Fragments::<INLINE>::"
G = "cola::gtree::Gtree::<ARITY, L>::"
FT = "run_indices::Fragment"
R = "index-pieces"


class Pieces:
    """one operation of an author's run's list of pieces, evaluated over an
    arbitrary list in either representation"""

    def __init__(self, c, op):
        self.c, self.op = c, op
        L = self.L = Lab(c.prog("rel"), opaque=[r"cola::gtree::Gtree::<ARITY, L>::.*"])
        e = L.e
        self.FRT, self.FT = L.ty(FR), L.ty(FT)
        self.us = L.ty("usize")
        self.calls = []
        for m in ("split_leaf", "with_two_mut", "with_last_leaf_mut", "with_leaf_mut"):
            e.userm[G + m] = self.closure(m)
        self.me = L.place("self", self.FRT)
        inst = self.inst = L.fn(F + op)
        self.w = where(L, F + op)
        lt = inst["body"]["locals"]
        self.args = [L.sym(f"arg{i}", lt[i]) for i in range(2, inst["body"]["nargs"] + 1)]
        self.pre = L.get(self.me)
        self.arr = L.isv(self.pre, self.FRT, "Array")
        k = L.variant(self.FRT, "Array")
        self.AT = L.prog.field_ty(self.FRT, k, 0)
        self.a0 = L.payload(self.pre, self.FRT, "Array")
        self.g0 = L.payload(self.pre, self.FRT, "Gtree")
        self.frags0 = L.f(self.a0, self.AT, "fragments")
        self.fty = L.fty(self.AT, "fragments")
        self.n0 = L.f(self.a0, self.AT, "len")
        self.total0 = L.f(self.a0, self.AT, "total_len")
        self.cap = e.I(e.prog.types[self.fty]["len"])
        L.assume(L.NOT(e.lt(self.cap, self.n0)))
        self.full = L.AND(self.arr, e.eq(self.n0, self.cap))

    def run(self):
        L = self.L
        e0, p0 = len(L.e.events), len(L.e.panics)
        self.rv, self.out, self.rty = L.call(self.inst, L.ref(self.me), *self.args)
        self.ev, self.pan = L.e.events[e0:], L.e.panics[p0:]
        self.post = L.get(self.me, self.out)
        self.arr1 = L.AND(self.out.g, L.isv(self.post, self.FRT, "Array"))
        self.a1 = L.payload(self.post, self.FRT, "Array")
        return self

    # ---- pieces
    def len(self, v):
        return self.L.f(v, self.FT, "len")

    def idx(self, v):
        return self.L.f(v, self.FT, "idx")

    def at(self, frags, i):
        return self.L.e.geti(frags, self.fty, i)

    def closure(self, m):
        def f(e, c, st):
            gt, tg, gty = models.deref(e, c, 0, st)
            s = models.fresh(st)
            n = len(self.calls)
            ft = e.prog.types[c.atys[-1]]
            idxs = c.args[1:-1]
            roots = []
            for i in range(max(1, len(idxs))):
                root = ("arg", f"{m}{n}.{i}")
                e.root_ty[root] = self.FT
                s.m[root] = self.leaf(gt, idxs[i]) if idxs else e.symval(NT("X", "last", self.FT, gt), self.FT)
                roots.append(root)
            pre = [s.m[r] for r in roots]
            rv, s2 = models.callclosure(e, c.args[-1], c.atys[-1], [e.G1(NT("R", r, ())) for r in roots], [None] * len(roots), s, c)
            self.calls.append(dict(kind=m, g=st.g, gt=gt, idx=idxs, pre=pre, post=[s2.m[r] for r in roots], ret=rv))
            s3 = models.fresh(s2)
            e.wr(s3, tg, e.app("after " + m, gty, gt, *idxs))
            if e.prog.types[c.dty]["n"] == "()":
                return models.unit(e, c.dty), s3
            return e.symval(NT("X", m + " idx", c.dty, gt), c.dty), s3
        return f

    def leaf(self, gt, idx):
        L = self.L
        e = L.e
        return e.symval(NT("X", "piece", self.FT, gt, idx), self.FT)

    def gev(self, m):
        return [ev for ev in self.ev if ev.kind == "call" and ev.inst["def"] == G + m]

    # ---- looking a position up
    def scan(self, at):
        """In the array: the loop stops at the first piece k that ends at or
        after the position; S is what comes before it."""
        L, c = self.L, self.c
        e = L.e
        best = None
        for rec in e.loops:
            ks = [e.app("iteridx", self.us, ref, sk) for (ref, sk), key in e.iterloops.items() if key == rec.key]
            cnt = []
            for phi, (init, back, _) in rec.phis.items():
                p = e.G1(phi)
                if init is UNDEF or back is UNDEF or init.k != "G" or back.k != "G":
                    continue
                if L.diff(init, e.I(0), rec.g) == 0 and L.diff(back, e.add(p, e.I(1)), rec.cont) == 0:
                    cnt.append(p)
            for p in cnt:
                # a count of the elements the iterator has yielded
                for k in ks[:1]:
                    L.assume(e.eq(p, k))
                    for d in (-1, 0, 1):
                        a, b = self.at(self.frags0, e.add(p, e.I(d))), self.at(self.frags0, e.add(k, e.I(d)))
                        L.assume(e.eq(self.len(a), self.len(b)))
            for k in ks + cnt:
                x = self.len(self.at(self.frags0, k))
                for phi, (init, back, _) in rec.phis.items():
                    p = e.G1(phi)
                    if init is UNDEF or back is UNDEF or init.k != "G" or back.k != "G" or phi in [t for q in cnt for t, _ in e.galts(q)]:
                        continue
                    if L.diff(init, e.I(0), rec.g) == 0 and L.diff(back, e.add(p, x), rec.cont) == 0:
                        best = (rec, k, p, x)
                    elif L.diff(init, at, rec.g) == 0 and L.diff(back, e.sub(p, x), rec.cont) == 0:
                        best = (rec, k, e.sub(at, p), x)
                if best:
                    break
        if not c.check(best is not None, R, f"{self.op} finds the piece by its position", f"{self.op} does not add up the lengths of the pieces in order to find a position", self.w):
            raise Imprecise("no running position")
        rec, k, S, x = best
        end = e.add(S, x)
        L.assume(e.lt(e.I(0), x))
        # before the first piece there is nothing; every earlier piece ends before the position
        L.assume(L.OR(e.lt(S, at), L.AND(e.eq(S, e.I(0)), e.eq(k, e.I(0)))))
        L.assume(L.OR(L.NOT(e.eq(S, e.I(0))), e.eq(k, e.I(0))))
        chk0(c, R, L, L.AND(rec.cont, L.NOT(e.lt(end, at))), f"{self.op} goes past a piece only if it ends before the position", f"{self.op} goes past a piece that holds the position", self.w)
        chk0(c, R, L, L.AND(self.arr1, L.NOT(self.full), e.lt(end, at)), f"{self.op} stops at a piece that reaches the position", f"{self.op} acts on a piece that ends before the position", self.w)
        self.k, self.S, self.x, self.end = k, S, x, end

    # ---- results
    def pointwise(self, want, g, what, n, total):
        """the array afterwards, element by element"""
        L, c = self.L, self.c
        e = L.e
        j = L.sym("any piece", "usize")
        f1 = L.f(self.a1, self.AT, "fragments")
        n1 = L.f(self.a1, self.AT, "len")
        got = self.at(f1, j)
        inb = e.lt(j, n)
        gg = L.AND(g, inb)
        for fld in ("len", "idx"):
            w = want(j, fld)
            d = L.diff(L.f(got, self.FT, fld), w, gg)
            c.check(d == 0, R, f"{what} ({fld})", lambda: f"after {what}, the {fld} recorded for some piece is {trunc(L.f(got, self.FT, fld))} instead of {trunc(w)}, when {L.why(d)}", self.w)
        same(c, R, L, n1, n, g, f"{what} (number of pieces)", f"{what}: the number of pieces is wrong", self.w)
        same(c, R, L, L.f(self.a1, self.AT, "total_len"), total, g, f"{what} (total)", f"{what}: the recorded total length is wrong", self.w)

    def old(self, j, fld):
        return self.L.f(self.at(self.frags0, j), self.FT, fld)

    def gtree_now(self):
        """the tree of pieces before the operation, or the one a full array becomes"""
        L, c = self.L, self.c
        fl = self.gev("from_leaves")
        v = self.g0
        for ev in fl:
            v = L.e.mux(L.AND(self.full, ev.g), ev.ret, v)
            # it is made of the array's pieces, in order
            it = []
            self.over(ev.args[0], it)
            ok = False
            for ref in it if None not in it else ():
                for t, g in L.e.galts(ref):
                    if t.k == "R" and t.a[0] == self.me and t.a[1]:
                        p = list(t.a[1])
                        sl = p.pop() if p[-1][0] == "s" else None
                        whole = L.e.getpath(self.pre, self.FRT, tuple(p)) is self.frags0
                        ends = sl is None or (L.diff(sl[1], L.e.I(0), ev.g) == 0 and L.diff(sl[2], self.n0, L.AND(ev.g, self.full)) == 0)
                        ok = ok or (whole and ends)
            c.check(ok, R, f"{self.op}: a full list keeps its pieces", f"{self.op}: the tree that replaces a full array is not made of all of its pieces in order: {trunc(ev.args[0])}", self.w)
            same(c, R, L, ev.args[1], self.total0, L.AND(ev.g, self.full), f"{self.op}: a full list keeps its length", f"{self.op}: the tree that replaces a full array gets the wrong length", self.w)
            chk0(c, R, L, L.AND(ev.g, L.NOT(self.full)), f"{self.op}: only a full array is replaced", f"{self.op} replaces a list of pieces that is not a full array", self.w)
        return v

    def over(self, v, out):
        if v.k == "G":
            for t, _ in self.L.e.galts(v):
                if t.k == "X" and str(t.a[0]).startswith("iterover:"):
                    out.append(t.a[2])
                else:
                    out.append(None)  # an adapter's own state: not simply all pieces
        elif v.k == "A":
            for _, _, fs in v.a[1]:
                for x in fs:
                    if x is not UNDEF:
                        self.over(x, out)

    def tree(self):
        L = self.L
        return L.OR(L.NOT(self.arr), self.full)

    def again(self):
        """the operation calls itself after replacing a full array"""
        L, c = self.L, self.c
        r = 0
        for ev in self.ev:
            if ev.kind == "call" and ev.inst["def"] == F + self.op:
                for k, a in enumerate(self.args):
                    same(c, R, L, ev.args[k + 1], a, ev.g, f"{self.op} starts again with the same arguments", f"{self.op} starts again with other arguments", self.w)
                same(c, R, L, L.payload(ev.args[0], self.FRT, "Gtree"), self.gtree_now(), ev.g, f"{self.op} starts again on the tree", f"{self.op} starts again on something else", self.w)
                chk0(c, R, L, L.AND(ev.g, L.NOT(L.isv(ev.args[0], self.FRT, "Gtree"))), f"{self.op} starts again on a tree", f"{self.op} may never end", self.w)
                r = L.OR(r, ev.g)
        return r

    def once(self, recs, want, what, out=None):
        L, c = self.L, self.c
        tot = 0
        for g in recs:
            chk0(c, R, L, L.AND(tot, g), f"{self.op}: {what} once", f"{self.op} {what} twice", self.w)
            tot = L.OR(tot, g)
        d = L.feasible(L.AND(want, self.out.g if out is None else out, L.NOT(tot)))
        c.check(d == 0, R, f"{self.op}: always {what}", lambda: f"{self.op} does not always {what}: when {L.why(d)}", self.w)

    def found(self, gt, at):
        """index and start of the piece at a position of the tree: [(guard, idx, offset)]"""
        L, c = self.L, self.c
        out = []
        for ev in self.gev("leaf_at_offset"):
            same(c, R, L, ev.args[0], gt, L.AND(ev.g, self.tree()), f"{self.op} looks into the tree", f"{self.op} looks the position up in another tree", self.w)
            same(c, R, L, ev.args[1], at, ev.g, f"{self.op} looks the position up", f"{self.op} looks another position up", self.w)
            ty = ev.inst["body"]["locals"][0]
            out.append((ev.g, L.e.getf(ev.ret, ty, 0, 0), L.e.getf(ev.ret, ty, 0, 1)))
        if not c.check(bool(out), R, f"{self.op} looks positions up in the tree", f"{self.op} does not look the position up in the tree", self.w):
            raise Imprecise("no lookup")
        return out

    def done(self, n):
        self.c.analysed.add(self.inst["def"])
        for i in self.L.e.visited if hasattr(self.L.e, "visited") else ():
            self.c.analysed.add(i)


def pick(L, al):
    """one value from [(guard, value)]"""
    out = None
    for g, v in al:
        out = v if out is None else L.e.mux(g, v, out)
    return out


def piece_split(c):
    """A piece is cut at a position: the left part keeps its place, the right
    part is recorded right behind it, and nothing else changes."""
    t = Pieces(c, "split")
    L, e = t.L, t.L.e
    at, new = t.args
    t.run()
    t.scan(at)
    L.assume(L.OR(L.NOT(t.arr), L.AND(e.lt(t.S, at), e.lt(at, t.end))))
    left, right = e.sub(at, t.S), e.sub(t.end, at)

    def want(j, fld):
        prev = t.old(e.sub(j, e.I(1)), fld)
        mine = left if fld == "len" else t.idx(t.at(t.frags0, t.k))
        nx = right if fld == "len" else new
        v = e.mux(e.eq(j, e.add(t.k, e.I(1))), nx, prev)
        v = e.mux(e.eq(j, t.k), mine, v)
        return e.mux(e.lt(j, t.k), t.old(j, fld), v)
    t.pointwise(want, L.AND(t.arr1, L.NOT(t.full)), "splitting a piece", e.add(t.n0, e.I(1)), t.total0)
    ag = t.again()
    chk0(c, R, L, L.AND(t.out.g, L.isv(t.post, t.FRT, "Array"), t.tree(), L.NOT(ag)), "splitting keeps a tree", "splitting a piece turns a tree into an array", t.w)
    gt = t.gtree_now()
    cuts = [x for x in t.calls if x["kind"] == "split_leaf"]
    fs = t.found(gt, at)
    for x in cuts:
        g = x["g"]
        same(c, R, L, x["gt"], gt, L.AND(g, t.tree()), "the tree's piece is split", "another tree's piece is split", t.w)
        same(c, R, L, x["idx"][0], pick(L, [(f[0], f[1]) for f in fs]), g, "the piece at the position is split", "another piece is split", t.w)
        off = pick(L, [(f[0], f[2]) for f in fs])
        p, q = x["pre"][0], x["post"][0]
        ok = L.AND(g, e.lt(off, at), e.lt(at, e.add(off, t.len(p))))
        same(c, R, L, t.len(q), e.sub(at, off), ok, "left part of a tree's piece", "the left part of a split piece has the wrong length", t.w)
        same(c, R, L, t.idx(q), t.idx(p), ok, "left part of a tree's piece keeps its place", "the left part of a split piece is recorded at another place", t.w)
        same(c, R, L, t.len(x["ret"]), e.sub(e.add(off, t.len(p)), at), ok, "right part of a tree's piece", "the right part of a split piece has the wrong length", t.w)
        same(c, R, L, t.idx(x["ret"]), new, ok, "right part of a tree's piece gets its place", "the right part of a split piece is recorded at another place", t.w)
    t.once([x["g"] for x in cuts] + [ag], t.tree(), "split a piece of the tree", 1)
    c.floor("pieces split in a tree", len(cuts), 1)
    t.done(0)


def moved(c, op, to):
    """Length is moved between two neighbouring pieces."""
    t = Pieces(c, op)
    L, e = t.L, t.L.e
    at, n = t.args
    t.run()
    t.scan(at)
    step = e.I(1)
    other = e.add(t.k, step) if to == "next" else e.sub(t.k, step)
    L.assume(L.OR(L.NOT(t.arr), L.AND(e.lt(n, t.x), e.lt(e.I(0), n), e.lt(t.k, t.n0))))
    L.assume(L.OR(L.NOT(t.arr), e.lt(other, t.n0) if to == "next" else e.lt(e.I(0), t.k)))

    def want(j, fld):
        v = t.old(j, fld)
        if fld == "idx":
            return v
        return e.mux(e.eq(j, t.k), e.sub(t.x, n), e.mux(e.eq(j, other), e.add(t.old(other, fld), n), v))
    t.pointwise(want, t.arr1, f"moving length to the {to} piece", t.n0, t.total0)
    chk0(c, R, L, L.AND(t.out.g, L.NOT(t.arr1), t.arr), f"{op} keeps an array", f"{op} replaces the array", t.w)
    two = [x for x in t.calls if x["kind"] == "with_two_mut"]
    fs = t.found(t.g0, at)
    nb = t.gev("next_leaf" if to == "next" else "prev_leaf")
    this = pick(L, [(f[0], f[1]) for f in fs])
    for ev in nb:
        same(c, R, L, ev.args[0], t.g0, ev.g, f"{op} steps in the tree", f"{op} looks for the neighbour in another tree", t.w)
        same(c, R, L, ev.args[1], this, ev.g, f"{op} steps from the piece", f"{op} takes the neighbour of another piece", t.w)
    if not c.check(bool(nb), R, f"{op} takes the {to} piece", f"{op} does not take the {to} piece of the tree", t.w):
        return
    nv = pick(L, [(ev.g, L.payload(ev.ret, ev.inst["body"]["locals"][0], "Some")) for ev in nb])
    for x in two:
        g = x["g"]
        for i in range(2):
            isthis = g if L.diff(x["idx"][i], this, g) == 0 else 0
            j = 1 - i
            if not isthis:
                continue
            same(c, R, L, x["idx"][j], nv, g, f"{op}: the other piece is the {to} one", f"{op} moves the length to another piece", t.w)
            same(c, R, L, t.len(x["post"][i]), e.sub(t.len(x["pre"][i]), n), g, f"{op}: the piece gets shorter", f"{op}: the piece's length is wrong", t.w)
            same(c, R, L, t.len(x["post"][j]), e.add(t.len(x["pre"][j]), n), g, f"{op}: its neighbour gets longer", f"{op}: the neighbour's length is wrong", t.w)
            for q in range(2):
                same(c, R, L, t.idx(x["post"][q]), t.idx(x["pre"][q]), g, f"{op}: pieces keep their places", f"{op} changes where a piece is", t.w)
            break
        else:
            c.check(False, R, f"{op} acts on the piece at the position", f"{op} acts on another piece", t.w)
    t.once([x["g"] for x in two], L.NOT(t.arr), "move the length in the tree")
    c.floor(f"length moves in a tree ({to})", len(two), 1)
    t.done(0)


def moves(c):
    moved(c, "move_len_to_next_fragment", "next")
    moved(c, "move_len_to_prev_split", "prev")


def appended(c):
    """A new piece goes behind the others."""
    t = Pieces(c, "append")
    L, e = t.L, t.L.e
    new = t.args[0]
    t.run()

    def want(j, fld):
        return e.mux(e.eq(j, t.n0), L.f(new, t.FT, fld), t.old(j, fld))
    t.pointwise(want, L.AND(t.arr1, L.NOT(t.full)), "appending a piece", e.add(t.n0, e.I(1)), e.add(t.total0, t.len(new)))
    ag = t.again()
    chk0(c, R, L, L.AND(t.arr1, t.tree(), L.NOT(ag)), "appending to a full array makes a tree", "a piece is lost in a full array", t.w)
    gt = t.gtree_now()
    ap = t.gev("append")
    for ev in ap:
        same(c, R, L, ev.args[0], gt, L.AND(ev.g, t.tree()), "the piece is appended to the tree", "the piece is appended to another tree", t.w)
        for fld in ("len", "idx"):
            same(c, R, L, L.f(ev.args[1], t.FT, fld), L.f(new, t.FT, fld), ev.g, f"the tree gets the new piece ({fld})", f"the tree gets another piece ({fld})", t.w)
        same(c, R, L, L.payload(t.post, t.FRT, "Gtree"), ev.post.get(0), L.AND(ev.g, t.out.g), "the tree with the new piece is kept", "the tree that got the new piece is not kept", t.w)
    t.once([ev.g for ev in ap] + [ag], t.tree(), "append the piece to the tree", 1)
    c.floor("pieces appended to a tree", len(ap), 1)

    t = Pieces(c, "extend")
    L, e = t.L, t.L.e
    n = t.args[0]
    L.assume(L.OR(L.NOT(t.arr), e.lt(e.I(0), t.n0)))
    t.run()
    last = e.sub(t.n0, e.I(1))

    def want(j, fld):
        v = t.old(j, fld)
        return e.mux(e.eq(j, last), e.add(v, n), v) if fld == "len" else v
    t.pointwise(want, t.arr1, "extending the last piece", t.n0, e.add(t.total0, n))
    wl = [x for x in t.calls if x["kind"] == "with_last_leaf_mut"]
    for x in wl:
        same(c, R, L, x["gt"], t.g0, x["g"], "the tree's last piece is extended", "another tree's piece is extended", t.w)
        same(c, R, L, t.len(x["post"][0]), e.add(t.len(x["pre"][0]), n), x["g"], "the tree's last piece gets longer", "the length of the last piece is wrong", t.w)
        same(c, R, L, t.idx(x["post"][0]), t.idx(x["pre"][0]), x["g"], "the tree's last piece keeps its place", "the last piece is recorded at another place", t.w)
    t.once([x["g"] for x in wl], L.NOT(t.arr), "extend the last piece of the tree")
    c.floor("extensions in a tree", len(wl), 1)


def lookup(c):
    """The piece found for a position is the one that holds the character
    before it (left) or behind it (right)."""
    t = Pieces(c, "fragment_at_offset")
    L, e = t.L, t.L.e
    at, bias = t.args
    bty = t.inst["body"]["locals"][3]
    right = L.isv(bias, bty, "Right")
    L.assume(L.OR(right, e.lt(e.I(0), at)))
    t.run()
    t.scan(at)
    rty = t.inst["body"]["locals"][0]
    L.assume(L.OR(L.NOT(t.arr), e.lt(t.k, t.n0)))
    got = e.content(t.rv, rty, t.out)
    atend = L.AND(right, e.eq(at, t.end))
    L.assume(L.OR(L.NOT(L.AND(t.arr, atend)), e.lt(e.add(t.k, e.I(1)), t.n0)))
    ga = L.AND(t.out.g, t.arr)
    if L.feasible(ga) == 0:
        c.check(False, R, "a position is found in an array", "no position is ever found in an array of pieces", t.w)
    for fld in ("len", "idx"):
        want = e.mux(atend, t.old(e.add(t.k, e.I(1)), fld), t.old(t.k, fld))
        same(c, R, L, L.f(got, t.FT, fld), want, ga, f"the piece at a position ({fld})", f"another piece is found for a position ({fld})", t.w)
    fs = t.found(t.g0, at)
    this, off = pick(L, [(f[0], f[1]) for f in fs]), pick(L, [(f[0], f[2]) for f in fs])
    g = L.AND(t.out.g, L.NOT(t.arr))
    leaves = t.gev("leaf")
    nx = t.gev("next_leaf")
    for ev in leaves:
        same(c, R, L, ev.args[0], t.g0, ev.g, "pieces are read from the tree", "a piece is read from another tree", t.w)
    for ev in nx:
        same(c, R, L, ev.args[1], this, ev.g, "the next piece is next to the piece found", "the next piece is taken from another place", t.w)
    it = e.prog.types[t.inst["body"]["locals"][0]]
    nv = pick(L, [(ev.g, L.payload(ev.ret, ev.inst["body"]["locals"][0], "Some")) for ev in nx])
    here = [ev for ev in leaves if L.diff(ev.args[1], this, ev.g) == 0]
    there = [ev for ev in leaves if nv is not None and L.diff(ev.args[1], nv, ev.g) == 0]
    if not c.check(bool(here) and bool(there), R, "the tree's pieces are read", "the piece at a position, or the next one, is never read from the tree", t.w):
        return
    cur = e.content(here[0].ret, here[0].inst["body"]["locals"][0], t.out)
    end = e.add(off, t.len(cur))
    for ev in there:
        v = e.content(ev.ret, ev.inst["body"]["locals"][0], t.out)
        for fld in ("len", "idx"):
            want = e.mux(L.AND(right, e.eq(at, end)), L.f(v, t.FT, fld), L.f(cur, t.FT, fld))
            same(c, R, L, L.f(got, t.FT, fld), want, g, f"the tree's piece at a position ({fld})", f"another piece of the tree is found for a position ({fld})", t.w)
    c.floor("lookups in a tree", len(fs), 1)


# ------------------------------------------------------------- an author's runs
RIN = "cola::run_indices::ReplicaIndices::"
OPS = r"cola::run_indices::fragments::Fragments::<INLINE>::(append|extend|fragment_at_offset|move_len_to_next_fragment|move_len_to_prev_split|split|len)"


class Runs:
    """one operation of an author's list of runs"""

    def __init__(self, c, op, ty="run_indices::ReplicaIndices"):
        self.c, self.op = c, op
        L = self.L = Lab(c.prog("rel"), opaque=[OPS])
        e = L.e
        self.T = L.ty(ty)
        self.RT = L.ty("run_indices::ReplicaIndices")
        self.us = L.ty("usize")
        self.me = L.place("self", self.T)
        inst = self.inst = L.fn(f"cola::{ty}::{op}")
        self.w = where(L, f"cola::{ty}::{op}")
        self.lt = lt = inst["body"]["locals"]
        self.args = [L.sym(f"arg{i}", lt[i]) for i in range(2, inst["body"]["nargs"] + 1)]
        self.vty = L.fty(self.RT, "vec")
        self.pty = e.elty(self.vty)
        self.pre = L.get(self.me)
        self.FT = L.ty(FT)
        self.FRT = L.ty(FR)

    def run(self):
        L = self.L
        e0 = len(L.e.events)
        self.rv, self.out, self.rty = L.call(self.inst, L.ref(self.me), *self.args)
        self.ev = [ev for ev in L.e.events[e0:] if ev.kind == "call" and ev.inst["def"].startswith(F)]
        self.post = L.get(self.me, self.out)
        self.c.analysed.add(self.inst["def"])
        return self

    def vec(self, v):
        return self.L.f(v, self.RT, "vec")

    def n(self, v):
        return self.L.e.lenof(self.vec(v), self.vty)

    def pieces(self, v, i):
        e = self.L.e
        return e.getf(e.geti(self.vec(v), self.vty, i), self.pty, 0, 0)

    def base(self, v, i):
        e = self.L.e
        return e.getf(e.geti(self.vec(v), self.vty, i), self.pty, 0, 1)

    def calls(self, op):
        return [ev for ev in self.ev if ev.inst["def"] == F + op]

    def only(self, i, new, g):
        """run i's pieces are `new` afterwards, and nothing else changes"""
        c, L, e = self.c, self.L, self.L.e
        j = L.sym("any run", "usize")
        gg = L.AND(self.out.g, g, e.lt(j, self.n(self.pre)))
        same(c, R, L, self.n(self.post), self.n(self.pre), L.AND(self.out.g, g), f"{self.op} keeps the number of runs", f"{self.op} changes the number of an author's runs", self.w)
        same(c, R, L, self.base(self.post, j), self.base(self.pre, j), gg, f"{self.op} keeps where runs start", f"{self.op} changes where a run of the author starts", self.w)
        want = new if L.diff(j, i, 1) == 0 else e.mux(e.eq(j, i), new, self.pieces(self.pre, j))
        same(c, R, L, self.pieces(self.post, j), want, gg, f"{self.op} changes one run's pieces", f"{self.op} changes the pieces of another run, or does not keep them", self.w)


def runs(c):
    """The author's list of runs: a new run starts where the runs before it end
    and holds one piece; every other operation changes the pieces of the run it
    is given, at the position counted from that run's start."""
    # -- a new run
    t = Runs(c, "append")
    L, e = t.L, t.L.e
    ln, idx = t.args
    t.run()
    n = t.n(t.pre)
    last = e.sub(n, e.I(1))
    j = L.sym("any run", "usize")
    some = e.lt(e.I(0), n)
    g = t.out.g
    chk0(c, R, L, L.NOT(g), "a run is added", "a run is not added", t.w)
    same(c, R, L, t.n(t.post), e.add(n, e.I(1)), g, "one run is added", "the number of an author's runs is wrong after a new one", t.w)
    for what, fn in (("pieces", t.pieces), ("start", t.base)):
        same(c, R, L, fn(t.post, j), fn(t.pre, j), L.AND(g, e.lt(j, n)), f"a new run keeps the others ({what})", f"a new run changes another one's {what}", t.w)
    lens = t.calls("len")
    for ev in lens:
        same(c, R, L, ev.args[0], t.pieces(t.pre, last), L.AND(ev.g, some), "the last run's length is taken", "the length of another run is taken", t.w)
    lv = pick(L, [(ev.g, ev.ret) for ev in lens])
    if c.check(lv is not None, R, "the new run starts behind the last", "the new run does not start where the last one ends", t.w):
        same(c, R, L, t.base(t.post, n), e.mux(some, e.add(t.base(t.pre, last), lv), e.I(0)), g, "the new run starts behind the others", "a new run starts at the wrong position", t.w)
    ap = t.calls("append")
    tot = 0
    for ev in ap:
        a = ev.args[1]
        same(c, R, L, L.f(a, t.FT, "len"), ln, ev.g, "the new run's length", "the new run's piece has the wrong length", t.w)
        same(c, R, L, L.f(a, t.FT, "idx"), idx, ev.g, "the new run's place", "the new run's piece is recorded at the wrong place", t.w)
        k = L.isv(ev.args[0], t.FRT, "Array")
        at = L.prog.field_ty(t.FRT, L.variant(t.FRT, "Array"), 0)
        ar = L.payload(ev.args[0], t.FRT, "Array")
        chk0(c, R, L, L.AND(ev.g, L.NOT(k)), "a new run is a small list", "a new run starts as a tree", t.w)
        for fld in ("len", "total_len"):
            same(c, R, L, L.f(ar, at, fld), e.I(0), ev.g, f"a new run is empty at first ({fld})", "a new run does not start empty", t.w)
        same(c, R, L, t.pieces(t.post, n), ev.post.get(0), L.AND(ev.g, g), "the new run's piece is kept", "the new run does not hold its piece", t.w)
        chk0(c, R, L, L.AND(tot, ev.g), "one piece per new run", "a new run gets two pieces", t.w)
        tot = L.OR(tot, ev.g)
    chk0(c, R, L, L.AND(g, L.NOT(tot)), "a new run gets a piece", "a new run gets no piece", t.w)

    # -- the others
    def other(op, sub, run, args):
        t = Runs(c, op)
        L, e = t.L, t.L.e
        i = run(t)
        L.assume(L.AND(e.lt(i, t.n(t.pre)), e.lt(e.I(0), t.n(t.pre))))
        if len(t.args) > 1 and sub != "append":
            L.assume(L.NOT(e.lt(t.args[1], t.base(t.pre, i))))
        t.run()
        tot = 0
        evs = t.calls(sub)
        for ev in evs:
            same(c, R, L, ev.args[0], t.pieces(t.pre, i), ev.g, f"{op} acts on the run", f"{op} acts on the pieces of another run", t.w)
            for k, a in enumerate(args(t, i)):
                if a is None:
                    continue
                same(c, R, L, ev.args[k + 1], a, ev.g, f"{op}: argument {k}", f"{op} hands on the wrong position, length or place", t.w)
            if sub == "append":
                for fld, a in zip(("len", "idx"), t.args):
                    same(c, R, L, L.f(ev.args[1], t.FT, fld), a, ev.g, f"{op}: the piece's {fld}", f"{op} records a piece with the wrong {fld}", t.w)
            chk0(c, R, L, L.AND(tot, ev.g), f"{op} once", f"{op} acts twice", t.w)
            tot = L.OR(tot, ev.g)
            t.only(i, ev.post.get(0), ev.g)
        chk0(c, R, L, L.NOT(tot), f"{op} always", f"{op} does not always act on the run's pieces", t.w)
        chk0(c, R, L, L.NOT(t.out.g), f"{op} succeeds", f"{op} fails", t.w)
        c.floor(f"{op}: operations on pieces", len(evs), 1)
    given = lambda t: t.args[0]
    lastrun = lambda t: t.L.e.sub(t.n(t.pre), t.L.e.I(1))
    pos = lambda t, i: t.L.e.sub(t.args[1], t.base(t.pre, i))
    other("split", "split", given, lambda t, i: [pos(t, i), t.args[2]])
    other("move_len_to_next_split", "move_len_to_next_fragment", given, lambda t, i: [pos(t, i), t.args[2]])
    other("move_len_to_prev_split", "move_len_to_prev_split", given, lambda t, i: [pos(t, i), t.args[2]])
    other("append_to_last", "append", lastrun, lambda t, i: [])
    other("extend_last", "extend", lastrun, lambda t, i: [t.args[0]])


def lookup_anchor(c):
    """A place named by an author and a position of that author's text is
    looked up in that author's list, in the run it names, from that run's start."""
    t = Runs(c, "idx_at_anchor", "run_indices::RunIndices")
    L, e = t.L, t.L.e
    anchor, bias = t.args
    aty = t.lt[2]
    A = L.prog.types[aty]["n"]
    mty = L.fty(t.T, "map")
    m = L.f(t.pre, t.T, "map")
    f = lambda x: L.do(L.fn(f"cola::{A}::{x}"), anchor if L.prog.types[L.fn(f"cola::{A}::{x}")["body"]["locals"][1]]["k"] != "ref" else L.ref(L.place("anchor", aty, anchor)))
    by, ts, off = f("replica_id"), f("run_ts"), f("offset")
    L.assume(models.map_has(e, m, by, mty))
    mine = e.geti(m, mty, by, True)
    L.assume(e.lt(ts, t.n(mine)))
    L.assume(L.NOT(e.lt(off, t.base(mine, ts))))
    t.run()
    evs = t.calls("fragment_at_offset")
    tot = 0
    for ev in evs:
        same(c, R, L, ev.args[0], t.pieces(mine, ts), ev.g, "a place is looked up in its run", "a place is looked up in another author's, or another, run", t.w)
        same(c, R, L, ev.args[1], e.sub(off, t.base(mine, ts)), ev.g, "a place is looked up by its position in the run", "a place is looked up at another position", t.w)
        same(c, R, L, ev.args[2], bias, ev.g, "a place is looked up with its bias", "a place is looked up with another bias", t.w)
        frag = e.content(ev.ret, ev.inst["body"]["locals"][0], t.out)
        same(c, R, L, t.rv, L.f(frag, t.FT, "idx"), ev.g, "the piece's place is returned", "the lookup does not return where the piece it found is", t.w)
        tot = L.OR(tot, ev.g)
    chk0(c, R, L, L.NOT(L.AND(tot, t.out.g)), "every place is looked up", "a place is not looked up", t.w)
    c.floor("lookups by place", len(evs), 1)

    # the list of an author: exactly that author's entry
    t = Runs(c, "get_mut", "run_indices::RunIndices")
    L, e = t.L, t.L.e
    t.run()
    id = t.args[0]
    mty = L.fty(t.T, "map")
    m0, m1 = L.f(t.pre, t.T, "map"), L.f(t.post, t.T, "map")
    got = e.content(t.rv, t.rty, t.out)
    has = models.map_has(e, m0, id, mty)
    j = L.sym("any author", t.lt[2])
    same(c, R, L, e.geti(m0, mty, id, True), got, L.AND(t.out.g, has), "an author's list is that author's", "the list of another author is changed", t.w)
    chk0(c, R, L, L.AND(L.NOT(has), e.lt(e.I(0), t.n(got))), "a new author has no runs", "a new author starts with runs", t.w)
    chk0(c, R, L, L.NOT(models.map_has(e, m1, id, mty)), "the author has a list", "the author's list is not kept", t.w)
    other = L.AND(t.out.g, L.NOT(e.veq(j, id)))
    x = L.AND(other, L.b.XOR(models.map_has(e, m0, j, mty), models.map_has(e, m1, j, mty)))
    chk0(c, R, L, x, "other authors keep their lists", "another author's list appears or disappears", t.w)
    same(c, R, L, e.geti(m0, mty, j, True), e.geti(m1, mty, j, True), L.AND(other, models.map_has(e, m0, j, mty)), "other authors' lists stay", "another author's list changes", t.w)
    for q, _ in e.galts(t.rv):
        c.check(q.k == "R" and q.a[0] == t.me, R, "the list is the stored one", "a copy of the list is changed", t.w)


def length(c):
    """A run's length is what is recorded for its pieces."""
    t = Pieces(c, "len")
    L, e = t.L, t.L.e
    t.run()
    same(c, R, L, t.rv, t.total0, L.AND(t.out.g, t.arr), "a run's length (array)", "a run's length is not the recorded total", t.w)
    lens = t.gev("len")
    for ev in lens:
        same(c, R, L, ev.args[0], t.g0, L.AND(ev.g, L.NOT(t.arr)), "a run's length is its tree's", "the length of another tree is taken", t.w)
        same(c, R, L, t.rv, ev.ret, L.AND(t.out.g, L.NOT(t.arr)), "a run's length (tree)", "a run's length is not its tree's length", t.w)
    c.floor("lengths of trees", len(lens), 1)
    chk0(c, R, L, L.NOT(t.out.g), "a run has a length", "a run's length cannot be asked for", t.w)
    t.done(0)

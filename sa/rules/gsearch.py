"""Finding one's way in the tree: offsets, neighbours and iterators."""
from lab import trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor
import models
from rules.gtree import Nodes, G, FIND
from rules.runtree import chk0, same


class Walk:
    """The loops of a function as walks over the children of a node: which child
    a round looks at, and what the running sums are in terms of the combined
    length of the children before it."""

    def __init__(self, t, node, mark=0, lens=True):
        self.t, self.node = t, node
        e, L = t.e, t.L
        self.recs = []
        for rec in e.loops[mark:]:
            w = self.one(rec, lens)
            if w is not None:
                self.recs.append(w)

    def F(self, k):
        t = self.t
        return t.e.app("len of first", t.us, t.kids(self.node), k)

    def iters(self, rec):
        """(absolute index of the child looked at, first, one past the last, step)"""
        t, e = self.t, self.t.e
        out = []
        for (ref, sk), key in e.iterloops.items():
            if key != rec.key:
                continue
            idx = e.app("iteridx", t.us, ref, sk)
            has = e.atom("bool", NT("X", "iterhas", None, ref, sk))
            ps = {tt.a[1] for tt, g in e.galts(ref) if tt.k == "R"}
            if len(ps) != 1:
                continue
            p = ps.pop()
            if not p or p[-1][0] != "s":
                continue
            lo, hi = p[-1][1], p[-1][2]
            t.L.assume(t.L.OR(has, e.eq(e.add(lo, idx), hi)))
            t.L.assume(t.L.NOT(e.lt(hi, e.add(lo, idx))))
            if (ref, sk) in e.backward:
                out.append((e.sub(e.sub(hi, e.I(1)), idx), e.sub(hi, e.I(1)), lo, -1, idx, has))
            else:
                out.append((e.add(lo, idx), lo, hi, 1, idx, has))
        return out

    def one(self, rec, lens):
        t, e, L = self.t, self.t.e, self.t.L
        its = self.iters(rec)
        cnt, rest = [], []
        ph = []
        for phi, (init, back, (root, path)) in rec.phis.items():
            p = e.G1(phi)
            if not (path and path[-1] == ("disc",)) and e.pathty(e.root_ty[root], path) != t.us:
                continue
            if init is UNDEF or back is UNDEF or init.k != "G" or back.k != "G":
                continue
            ph.append((phi, p, init, back))
        for phi, p, init, back in ph:
            if L.diff(back, e.add(p, e.I(1)), rec.cont) == 0:
                cnt.append((p, init, None, 1))
            elif L.diff(back, e.sub(p, e.I(1)), rec.cont) == 0:
                cnt.append((p, init, None, -1))
            else:
                rest.append((phi, p, init, back))
        # everything that advances by one a round advances in lockstep
        if its:
            n = its[0][4]
            for p, init, _, d in cnt:
                L.assume(e.eq(p, e.add(init, n) if d > 0 else e.sub(init, n)))
        cands = [(k, lo, hi, d) for k, lo, hi, d, _, _ in its] + [(p, i, None, d) for p, i, _, d in cnt]
        cands += [(e.sub(p, e.I(1)), e.sub(i, e.I(1)), None, -1) for p, i, _, d in cnt if d < 0]
        r = type("W", (), {})()
        r.rec, r.cands, r.acc, r.its = rec, cands, [], its
        r.k = cands[0] if cands else None
        r.ok = bool(cands)
        if not cands:
            return None
        if not lens:
            return r
        for phi, p, init, back in rest:
            done = False
            for cand in cands:
                k, lo, hi, d = cand
                if d < 0:
                    continue
                x = t.kidlen(self.node, k)
                for sg in (1, -1):
                    if L.diff(back, e.add(p, x) if sg > 0 else e.sub(p, x), rec.cont) == 0:
                        s = e.sub(self.F(k), self.F(lo))
                        L.assume(e.eq(p, e.add(init, s) if sg > 0 else e.sub(init, s)))
                        L.assume(e.eq(self.F(e.add(k, e.I(1))), e.add(self.F(k), x)))
                        L.assume(e.eq(self.F(e.I(0)), e.I(0)))
                        r.acc.append((p, cand))
                        r.k = cand
                        done = True
                        break
                if done:
                    break
        return r


class Search(Nodes):
    def __init__(self, c, opaque=(), leaf="run", cfg="rel"):
        Nodes.__init__(self, c, opaque, leaf, cfg)
        L, e = self.L, self.e
        self.nocursor()

    def nocursor(self):
        L, e = self.L, self.e
        g = self.cur()
        CT = L.fty(self.GT, "cursor")
        L.assume(L.isv(L.f(g, self.GT, "cursor"), CT, "None"))

    def leaflen(self, leaf):
        """the length of a leaf"""
        L = self.L
        n = getattr(self, "_nl", 0)
        self._nl = n + 1
        key = ("leaflen", leaf)
        d = self.__dict__.setdefault("_ll", {})
        if leaf not in d:
            root = L.place(f"some leaf {n}", self.LT, leaf)
            i = [x for x in L.prog.insts if x["def"].endswith("as cola::gtree::Leaf>::len") and x.get("body") and L.prog.types[x["body"]["locals"][1]].get("e") == self.LT]
            if not i:
                raise MissingAnchor("length of a leaf")
            d[leaf] = L.pure(i[0], L.ref(root))
        return d[leaf]

    def kidleaf(self, node, j):
        return self.e.getf(self.kid(node, j), self.NT, 0, self.uf("leaf"))

    def kidinode(self, node, j):
        return self.e.getf(self.kid(node, j), self.NT, 0, self.uf("internal"))

    def uf(self, name):
        n = self.L.prog.field_names(self.NT)
        if name not in n:
            raise MissingAnchor("child kind " + name)
        return n.index(name)

    def kidlen(self, node, j, g=None):
        """the length of a child, by the tree as it is (before the call)"""
        L, e = self.L, self.e
        g = g or self.cur()
        leaf = self.e.geti(self.lnodes(g), self.LVT, e.getf(self.kidleaf(node, j), self.LXT, 0, 0))
        a = self.leaflen(L.f(leaf, self.LNT, "value"))
        b = self.tot(e.geti(self.inodes(g), self.IVT, e.getf(self.kidinode(node, j), self.IDX, 0, 0)))
        return e.mux(L.G(self.f(node, "has_leaves")), a, b)


KINDS = (("leaves", 1), ("nodes", 0))


def begin(c, fn, leaf, opaque=()):
    t = Search(c, opaque=opaque, leaf=leaf)
    inst = t.inst(fn)
    c.analysed.add(inst["def"])
    return t, inst, t.at(fn), inst["body"]["locals"]


def kind(t, node, has):
    L = t.L
    h = L.G(t.f(node, "has_leaves"))
    L.assume(h if has else L.NOT(h))
    t.sane(node)
    L.assume(L.NOT(t.e.eqc(t.num(node), 0)))


def child_at(c, leaf="run"):
    """The child at an offset is the first one that reaches it."""
    R = FIND
    for nm, has in KINDS:
        t, inst, w, lt = begin(c, "child_at_offset", leaf)
        L, e = t.L, t.e
        idx, at = L.sym("node", lt[2]), L.sym("offset", lt[3])
        t.inb(idx)
        node = t.inode(t.cur(), idx)
        kind(t, node, has)
        rv, out, rty = L.call(inst, L.ref(t.g), idx, at)
        W = Walk(t, node)
        J, O = e.getf(rv, rty, 0, 0), e.getf(rv, rty, 0, 1)
        good = [r for r in W.recs if L.feasible(r.rec.cont)]
        c.check(len(good) == 1 and good[0].acc, R, f"the offset of the children is added up ({nm})", "child_at_offset does not add up the lengths of the children before an offset", w)
        for r in good:
            k, lo, hi, d = r.k
            same(c, R, L, lo, e.I(0), r.rec.g, f"starts at the first child ({nm})", "child_at_offset does not start at the first child", w)
            chk0(c, R, L, L.AND(r.rec.cont, L.NOT(e.lt(e.add(W.F(k), t.kidlen(node, k)), at))), f"children that end before the offset are skipped ({nm})", "child_at_offset goes past a child that reaches the offset", w)
            L.assume(e.eq(W.F(e.I(0)), e.I(0)))
        same(c, R, L, O, W.F(J), out.g, f"the child's offset ({nm})", "child_at_offset gives a wrong offset for the child", w)
        chk0(c, R, L, L.AND(out.g, e.lt(e.add(W.F(J), t.kidlen(node, J)), at)), f"the child reaches the offset ({nm})", "child_at_offset returns a child that ends before the offset", w)
        c.check(L.feasible(out.g) != 0, R, f"some child is found ({nm})", "child_at_offset never returns", w)


def child_holding(c, leaf="run"):
    """The child holding a whole range, if there is one."""
    R = FIND
    fn = "child_containing_range"
    for nm, has in KINDS:
        t, inst, w, lt = begin(c, fn, leaf)
        L, e = t.L, t.e
        idx, rng = L.sym("node", lt[2]), L.sym("range", lt[3])
        t.inb(idx)
        node = t.inode(t.cur(), idx)
        kind(t, node, has)
        a, b = L.f(rng, lt[3], "start"), L.f(rng, lt[3], "end")
        L.assume(L.NOT(e.lt(b, a)))
        rv, out, rty = L.call(inst, L.ref(t.g), idx, rng)
        W = Walk(t, node)
        good = [r for r in W.recs if L.feasible(r.rec.cont)]
        c.check(len(good) == 1 and good[0].acc, R, f"the offset of the children is added up ({nm})", f"{fn} does not add up the lengths of the children before the range", w)
        some = L.isv(rv, rty, "Some")
        pay, pty = L.payload(rv, rty, "Some"), L.prog.field_ty(rty, L.variant(rty, "Some"), 0)
        J, O = e.getf(pay, pty, 0, 0), e.getf(pay, pty, 0, 1)
        S = L.AND(out.g, some)
        for r in good:
            k, lo, hi, d = r.k
            same(c, R, L, lo, e.I(0), r.rec.g, f"starts at the first child ({nm})", f"{fn} does not start at the first child", w)
            end = e.add(W.F(k), t.kidlen(node, k))
            chk0(c, R, L, L.AND(r.rec.cont, e.lt(a, end)), f"children that end before the range starts are skipped ({nm})", f"{fn} goes past a child that holds the start of the range", w)
            none = L.AND(out.g, L.NOT(some))
            chk0(c, R, L, L.AND(none, L.OR(L.NOT(e.lt(a, end)), L.NOT(e.lt(end, b)))), f"a range that fits its child is found ({nm})", f"{fn} finds no child although one holds the whole range", w)
            L.assume(e.eq(W.F(e.I(0)), e.I(0)))
        same(c, R, L, O, W.F(J), S, f"the child's offset ({nm})", f"{fn} gives a wrong offset for the child", w)
        end = e.add(W.F(J), t.kidlen(node, J))
        chk0(c, R, L, L.AND(S, L.OR(L.NOT(e.lt(a, end)), e.lt(end, b))), f"the child holds the range ({nm})", f"{fn} returns a child that does not hold the whole range", w)
        c.check(L.feasible(S) != 0, R, f"some child is found ({nm})", f"{fn} never finds a child", w)


def lengths_before(c, leaf="run"):
    """The combined length of a node's first children."""
    R = FIND
    fn = "len_offset_of_child"
    for nm, has in KINDS:
        t, inst, w, lt = begin(c, fn, leaf)
        L, e = t.L, t.e
        idx, at = L.sym("node", lt[2]), L.sym("child", lt[3])
        t.inb(idx)
        node = t.inode(t.cur(), idx)
        kind(t, node, has)
        L.assume(L.NOT(e.lt(t.num(node), at)))
        rv, out, rty = L.call(inst, L.ref(t.g), idx, at)
        W = Walk(t, node)
        good = [r for r in W.recs if L.feasible(r.rec.cont)]
        for r in good:
            k, lo, hi, d = r.k
            same(c, R, L, lo, e.I(0), r.rec.g, f"starts at the first child ({nm})", f"{fn} does not start at the first child", w)
            L.assume(e.eq(W.F(e.I(0)), e.I(0)))
            # counted by hand: below the bound whenever it goes on, so never above it
            if hi is None and d > 0 and L.feasible(L.AND(r.rec.cont, L.NOT(e.lt(k, at)))) == 0:
                L.assume(L.NOT(e.lt(at, k)))
        same(c, R, L, rv, W.F(at), out.g, f"the length before the child ({nm})", f"{fn} does not return the combined length of the children before the given one", w)
        c.check(L.feasible(out.g) != 0, R, f"returns ({nm})", f"{fn} never returns", w)


def offset_in_parent(c, leaf="run"):
    """The length before a child, and its number, found by its index."""
    R = FIND
    for fn, has in (("offset_of_leaf_child", 1), ("offset_of_internal_child", 0), ("idx_of_leaf_child", 1), ("idx_of_internal_child", 0)):
        off = fn.startswith("offset")
        t, inst, w, lt = begin(c, fn if off else "cola::gtree::Inode::<ARITY, L>::" + fn, leaf)
        L, e = t.L, t.e
        x = L.sym("child", lt[2])
        cur = t.cur()
        if off:
            own = t.lnode(cur, x) if has else t.inode(cur, x)
            if has:
                L.assume(e.lt(e.getf(x, t.LXT, 0, 0), e.lenof(t.lnodes(cur), t.LVT)))
            else:
                t.inb(x)
            pa = L.f(own, t.LNT if has else t.INT, "parent")
            t.inb(pa)
            node = t.inode(cur, pa)
            me = L.ref(t.g)
        else:
            root = L.place("the node", t.INT)
            node = L.get(root)
            me = L.ref(root)
        kind(t, node, has)
        kid = (lambda k: e.getf(t.kidleaf(node, k), t.LXT, 0, 0)) if has else (lambda k: t.n(t.kidinode(node, k)))
        xn = e.getf(x, t.LXT, 0, 0) if has else t.n(x)
        index_of(t)
        K = t.number(node, xn)
        L.assume(e.eq(kid(K), xn))
        if off:
            lens_before(t)
        else:
            del e.userm[INO + fn]
        rv, out, rty = L.call(inst, me, x)
        W = Walk(t, node, lens=off)
        good = [r for r in W.recs if L.feasible(r.rec.cont)]
        if off and not good:
            # done by the functions that say where a child is and what comes before it
            same(c, R, L, rv, t.lensbefore(t.n(pa), K), out.g, f"{fn} returns what is before the child", f"{fn} does not return the combined length of the children before the one looked for", w)
            c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
            continue
        if not c.check(len(good) == 1, R, f"{fn} goes through the children", f"{fn} does not go through the children", w):
            continue
        r = good[0]
        k, lo, hi, d = r.k
        if off:
            L.assume(e.eq(W.F(e.I(0)), e.I(0)))
        if d > 0:
            same(c, R, L, lo, e.I(0), r.rec.g, f"{fn} starts at the first child", f"{fn} does not start at the first child", w)
        else:
            same(c, R, L, lo, e.sub(t.num(node), e.I(1)), r.rec.g, f"{fn} starts at the last child", f"{fn} does not start at the last child", w)
        # a child is in its node once
        below, above = (k, K) if d > 0 else (K, k)
        L.assume(L.NOT(L.AND(e.lt(below, above), e.eq(kid(k), xn))))
        if L.feasible(L.AND(r.rec.cont, e.eq(k, K))) == 0:
            L.assume(L.NOT(e.lt(above, below)))
        chk0(c, R, L, L.AND(r.rec.cont, e.eq(kid(k), xn)), f"{fn} does not go past the child", f"{fn} goes past the child it looks for", w)
        # it is one of them, so all are looked at only if there are fewer
        for it in r.its:
            full = e.eq(it[2], t.num(node)) if it[3] > 0 else e.eqc(it[2], 0)
            if L.feasible(L.AND(r.rec.g, L.NOT(full))) == 0:
                L.assume(it[5])
        chk0(c, R, L, L.AND(out.g, L.NOT(e.eq(kid(k), xn))), f"{fn} stops at the child", f"{fn} stops at another child than the one it looks for", w)
        same(c, R, L, rv, W.F(k) if off else k, out.g, f"{fn} returns what is before the child", f"{fn} does not return " + ("the combined length of the children before the one looked for" if off else "the number of the child looked for"), w)
        c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)


def siblings(c, leaf="run"):
    """The leaf before or after another one in the same node."""
    R = FIND
    for fn in ("next_sibling", "prev_sibling", "next_non_empty_sibling", "prev_non_empty_sibling"):
        t, inst, w, lt = begin(c, fn, leaf)
        L, e = t.L, t.e
        x, i = L.sym("leaf", lt[2]), L.sym("number", lt[3])
        cur = t.cur()
        L.assume(e.lt(e.getf(x, t.LXT, 0, 0), e.lenof(t.lnodes(cur), t.LVT)))
        pa = L.f(t.lnode(cur, x), t.LNT, "parent")
        t.inb(pa)
        node = t.inode(cur, pa)
        kind(t, node, 1)
        n = t.num(node)
        L.assume(e.lt(i, n))
        rv, out, rty = L.call(inst, L.ref(t.g), x, i)
        some = L.isv(rv, rty, "Some")
        pay, pty = L.payload(rv, rty, "Some"), L.prog.field_ty(rty, L.variant(rty, "Some"), 0)
        nxt = fn.startswith("next")
        first = e.add(i, e.I(1)) if nxt else e.sub(i, e.I(1))
        there = e.lt(first, n) if nxt else e.lt(e.I(0), i)
        if "empty" not in fn:
            chk0(c, R, L, L.NOT(out.g), f"{fn} returns", f"{fn} fails", w)
            chk0(c, R, L, L.AND(out.g, L.b.XOR(some, there)), f"{fn} finds a leaf iff there is one", f"{fn} finds a leaf where there is none, or misses it", w)
            same(c, R, L, e.getf(pay, t.LXT, 0, 0), e.getf(t.kidleaf(node, first), t.LXT, 0, 0), L.AND(out.g, some), f"{fn} finds the leaf next to it", f"{fn} returns a leaf that is not next to the given one", w)
            continue
        W = Walk(t, node, lens=False)
        good = [r for r in W.recs if L.feasible(r.rec.cont)]
        if not c.check(len(good) == 1, R, f"{fn} goes through the siblings", f"{fn} does not go through the siblings", w):
            continue
        r = good[0]
        cand = [q for q in r.cands if q[3] == (1 if nxt else -1)]
        d = None
        for q in cand:
            if L.diff(q[1], first, r.rec.g) == 0:
                d = q
        if not c.check(d is not None, R, f"{fn} starts next to the leaf", f"{fn} does not start at the leaf next to the given one", w):
            continue
        k = d[0]
        empty = e.eqc(t.kidlen(node, k), 0)
        chk0(c, R, L, L.AND(r.rec.cont, L.NOT(empty)), f"{fn} goes past empty leaves", f"{fn} goes past a leaf that is not empty", w)
        S = L.AND(out.g, some)
        chk0(c, R, L, L.AND(S, empty), f"{fn} finds a leaf that is not empty", f"{fn} returns an empty leaf", w)
        same(c, R, L, e.getf(e.getf(pay, pty, 0, 0), t.LXT, 0, 0), e.getf(t.kidleaf(node, k), t.LXT, 0, 0), S, f"{fn} returns the leaf it found", f"{fn} returns another leaf than the one found", w)
        same(c, R, L, e.getf(pay, pty, 0, 1), k, S, f"{fn} returns the leaf's number", f"{fn} returns a wrong number for the leaf", w)
        stop = n if nxt else e.sub(e.I(0), e.I(1))
        chk0(c, R, L, L.AND(out.g, L.NOT(some), e.lt(k, n) if nxt else L.NOT(e.eq(k, stop))), f"{fn} goes through all of them", f"{fn} gives up before the last leaf", w)


# ---------------------------------------------------------------- navigation
INO = "cola::gtree::Inode::<ARITY, L>::"


def index_of(t):
    """contract of idx_of_leaf_child and idx_of_internal_child"""
    e, L = t.e, t.L

    def m(has):
        def f(e, c, st):
            node, tg, ty = models.deref(e, c, 0, st)
            if ty != t.INT:
                return NotImplemented
            x = c.args[1]
            n = e.getf(x, t.LXT, 0, 0) if has else t.n(x)
            return t.number(node, n), models.fresh(st)
        return f
    e.userm[INO + "idx_of_leaf_child"] = m(1)
    e.userm[INO + "idx_of_internal_child"] = m(0)

    def number(node, n):
        k = e.app("number of", t.us, t.kids(node), n)
        L.assume(e.lt(k, t.num(node)))
        return k
    t.number = number


def lens_before(t):
    """contract of len_offset_of_child"""
    e = t.e
    t.lensbefore = lambda n, k: e.app("length before", t.us, n, k)

    def f(e, c, st):
        g, tg, ty = models.deref(e, c, 0, st)
        if ty != t.GT:
            return NotImplemented
        return t.lensbefore(t.n(c.args[1]), c.args[2]), models.fresh(st)
    e.userm[G + "len_offset_of_child"] = f


def in_parent(t):
    """contracts of child_at_offset, offset_of_leaf_child and offset_of_internal_child"""
    e, L = t.e, t.L

    def at(e, c, st):
        g, tg, ty = models.deref(e, c, 0, st)
        if ty != t.GT:
            return NotImplemented
        node = t.inode(g, c.args[1])
        rty = c.dty
        fs = L.prog.types[rty]["es"]
        return e.mkA(rty, [(0, 1, (t.child_no(node, c.args[2]), t.child_off(node, c.args[2])))]), models.fresh(st)
    e.userm[G + "child_at_offset"] = at
    t.child_no = lambda node, a: e.app("child at", t.us, t.kids(node), t.num(node), a)
    t.child_off = lambda node, a: e.app("offset of child at", t.us, t.kids(node), t.num(node), a)

    def off(has):
        def f(e, c, st):
            g, tg, ty = models.deref(e, c, 0, st)
            if ty != t.GT:
                return NotImplemented
            x = c.args[1]
            return t.before(e.getf(x, t.LXT, 0, 0) if has else t.n(x), has), models.fresh(st)
        return f
    e.userm[G + "offset_of_leaf_child"] = off(1)
    e.userm[G + "offset_of_internal_child"] = off(0)
    t.before = lambda n, has: e.app("offset of leaf in parent" if has else "offset of node in parent", t.us, n)


def pick(t, mark, g=1):
    """loops that go round"""
    L = t.L
    return [r for r in t.e.loops[mark:] if L.feasible(r.cont)]


def idxphi(t, rec):
    """(the node index a loop carries, its first value, its next value)"""
    e, L = t.e, t.L
    for phi, (init, back, (root, path)) in rec.phis.items():
        ty = e.pathty(e.root_ty[root], path)
        p = e.G1(phi)
        if ty == t.IDX:
            p = e.expand(p, ty)
            yield e.getf(p, ty, 0, 0), e.getf(init, ty, 0, 0) if init is not UNDEF else UNDEF, e.getf(back, ty, 0, 0) if back is not UNDEF else UNDEF
        elif ty == t.us and init is not UNDEF and back is not UNDEF and init.k == "G" and back.k == "G":
            yield p, init, back


def mknode(t, g, n):
    return t.e.geti(t.inodes(g), t.IVT, n)


def parent_of(t, node):
    return t.n(t.f(node, "parent"))


def carried(t, rec, what):
    """the loop's variable that moves as `what` says"""
    for p, init, back in idxphi(t, rec):
        if init is UNDEF or back is UNDEF:
            continue
        if t.L.diff(back, what(p), rec.cont) == 0:
            return p, init
    return None


def find_offset(c, leaf="run"):
    """Going down to an offset, and up from a leaf, add up what comes before."""
    R = FIND
    # ---- down
    t, inst, w, lt = begin(c, "leaf_at_offset", leaf)
    in_parent(t)
    L, e = t.L, t.e
    at = L.sym("offset", lt[2])
    cur = t.cur()
    rv, out, rty = L.call(inst, L.ref(t.g), at)
    rec = pick(t, 0)
    c.check(L.feasible(out.g) != 0, R, "a leaf is found", "leaf_at_offset never returns", w)
    if c.check(len(rec) == 1, R, "goes down the tree", "leaf_at_offset does not go down the tree", w):
        rec = rec[0]
        # the running offset: what is before the node the loop is at
        acc = None
        for phi, (init, back, (root, path)) in rec.phis.items():
            if init is UNDEF or back is UNDEF or init.k != "G" or back.k != "G":
                continue
            p = e.G1(phi)
            for sg, rel in ((1, lambda p: e.sub(at, p)), (-1, lambda p: p)):
                for q, qi, qb in idxphi(t, rec):
                    node = mknode(t, cur, q)
                    o = t.child_off(node, rel(p))
                    nxt = e.add(p, o) if sg > 0 else e.sub(p, o)
                    if L.diff(back, nxt, rec.cont) == 0 and L.diff(init, e.I(0) if sg > 0 else at, rec.g) == 0:
                        acc = (q, qi, qb, rel(p), p if sg > 0 else e.sub(at, p))
        if c.check(acc is not None, R, "adds up what is before each node", "leaf_at_offset does not add up the lengths before the nodes it goes through", w):
            q, qi, qb, rel, sofar = acc
            node = mknode(t, cur, q)
            k = t.child_no(node, rel)
            leaves = L.G(t.f(node, "has_leaves"))
            same(c, R, L, qi, t.n(L.f(cur, t.GT, "root_idx")), rec.g, "starts at the root", "leaf_at_offset does not start at the root", w)
            same(c, R, L, qb, t.n(t.kidinode(node, k)), rec.cont, "goes down to the child at the offset", "leaf_at_offset goes down to another child than the one at the offset", w)
            chk0(c, R, L, L.AND(rec.cont, leaves), "goes down while there are nodes below", "leaf_at_offset takes a leaf for a node", w)
            chk0(c, R, L, L.AND(out.g, L.NOT(leaves)), "stops at a leaf", "leaf_at_offset takes a node for a leaf", w)
            same(c, R, L, e.getf(e.getf(rv, rty, 0, 0), t.LXT, 0, 0), e.getf(t.kidleaf(node, k), t.LXT, 0, 0), out.g, "returns the leaf at the offset", "leaf_at_offset does not return the leaf at the offset", w)
            same(c, R, L, e.getf(rv, rty, 0, 1), e.add(sofar, t.child_off(node, rel)), out.g, "returns the leaf's offset", "leaf_at_offset does not return the offset of the leaf", w)
    # ---- up
    t, inst, w, lt = begin(c, "offset_of_leaf", leaf)
    in_parent(t)
    L, e = t.L, t.e
    x = L.sym("leaf", lt[2])
    xn = e.getf(x, t.LXT, 0, 0)
    cur = t.cur()
    L.assume(e.lt(xn, e.lenof(t.lnodes(cur), t.LVT)))
    rv, out, rty = L.call(inst, L.ref(t.g), x)
    rec = pick(t, 0)
    c.check(L.feasible(out.g) != 0, R, "the offset is found", "offset_of_leaf never returns", w)
    if c.check(len(rec) == 1, R, "goes up the tree", "offset_of_leaf does not go up the tree", w):
        rec = rec[0]
        root = t.n(L.f(cur, t.GT, "root_idx"))
        up = carried(t, rec, lambda p: parent_of(t, mknode(t, cur, p)))
        if c.check(up is not None, R, "goes from node to parent", "offset_of_leaf does not go from a node to its parent", w):
            q, qi = up
            same(c, R, L, qi, t.n(L.f(t.lnode(cur, x), t.LNT, "parent")), rec.g, "starts at the leaf's parent", "offset_of_leaf does not start at the leaf's parent", w)
            chk0(c, R, L, L.AND(rec.cont, e.eq(q, root)), "stops at the root", "offset_of_leaf goes past the root", w)
            chk0(c, R, L, L.AND(out.g, L.NOT(e.eq(q, root))), "goes up to the root", "offset_of_leaf stops before it reaches the root", w)
            ok = None
            for phi, (init, back, (r0, path)) in rec.phis.items():
                if init is UNDEF or back is UNDEF or init.k != "G" or back.k != "G":
                    continue
                p = e.G1(phi)
                if L.diff(back, e.add(p, t.before(q, 0)), rec.cont) == 0:
                    ok = (p, init)
            if c.check(ok is not None, R, "adds what is before each node", "offset_of_leaf does not add up the lengths before the nodes it goes through", w):
                p, init = ok
                # rv = p + a, init + a = what is before the leaf in its parent
                extra = e.sub(rv, p)
                same(c, R, L, e.add(init, extra), t.before(xn, 1), L.AND(out.g, rec.g), "starts with what is before the leaf in its parent", "offset_of_leaf does not count exactly the text before the leaf in its parent", w)


def ends(c, leaf="run"):
    """The first and the last leaf."""
    R = FIND
    for fn in ("first_leaf_idx",) if leaf == "run" else ("first_leaf_idx", "last_leaf"):
        t, inst, w, lt = begin(c, fn, leaf)
        L, e = t.L, t.e
        cur = t.cur()
        rv, out, rty = L.call(inst, L.ref(t.g))
        rec = pick(t, 0)
        at = (lambda node: e.I(0)) if fn.startswith("first") else (lambda node: e.sub(t.num(node), e.I(1)))
        c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
        if not c.check(len(rec) == 1, R, f"{fn} goes down the tree", f"{fn} does not go down the tree", w):
            continue
        rec = rec[0]
        dn = carried(t, rec, lambda p: t.n(t.kidinode(mknode(t, cur, p), at(mknode(t, cur, p)))))
        if not c.check(dn is not None, R, f"{fn} goes down to the right child", f"{fn} does not go down to the " + fn.split("_")[0] + " child", w):
            continue
        q, qi = dn
        node = mknode(t, cur, q)
        t.sane(node)
        L.assume(L.NOT(e.eqc(t.num(node), 0)))
        leaves = L.G(t.f(node, "has_leaves"))
        same(c, R, L, qi, t.n(L.f(cur, t.GT, "root_idx")), rec.g, f"{fn} starts at the root", f"{fn} does not start at the root", w)
        chk0(c, R, L, L.OR(L.AND(rec.cont, leaves), L.AND(out.g, L.NOT(leaves))), f"{fn} stops at a leaf", f"{fn} takes a leaf for a node or a node for a leaf", w)
        v = rv if fn.startswith("first") else e.getf(rv, rty, 0, 0)
        same(c, R, L, e.getf(v, t.LXT, 0, 0), e.getf(t.kidleaf(node, at(node)), t.LXT, 0, 0), out.g, f"{fn} returns that leaf", f"{fn} does not return the " + fn.split("_")[0] + " leaf of the node it reaches", w)
        if fn.startswith("last"):
            same(c, R, L, e.getf(rv, rty, 0, 1), at(node), out.g, f"{fn} returns its number", f"{fn} returns a wrong number for the leaf", w)


def neighbour(c, leaf="run"):
    """The leaf before or after another one, across nodes."""
    R = FIND
    for fn in ("next_leaf", "prev_leaf"):
        nxt = fn.startswith("next")
        try:
            t, inst, w, lt = begin(c, fn, leaf)
        except MissingAnchor:
            if leaf == "piece" or not nxt:
                continue        # never used on this kind of tree
            raise
        index_of(t)
        L, e = t.L, t.e
        x = L.sym("leaf", lt[2])
        xn = e.getf(x, t.LXT, 0, 0)
        cur = t.cur()
        L.assume(e.lt(xn, e.lenof(t.lnodes(cur), t.LVT)))
        pa = L.f(t.lnode(cur, x), t.LNT, "parent")
        t.inb(pa)
        node = t.inode(cur, pa)
        kind(t, node, 1)
        i = t.number(node, xn)
        rv, out, rty = L.call(inst, L.ref(t.g), x)
        some = L.isv(rv, rty, "Some")
        res = e.getf(L.payload(rv, rty, "Some"), t.LXT, 0, 0)
        root = t.n(L.f(cur, t.GT, "root_idx"))
        step = (lambda k: e.add(k, e.I(1))) if nxt else (lambda k: e.sub(k, e.I(1)))
        has = (lambda k, node: e.lt(e.add(k, e.I(1)), t.num(node))) if nxt else (lambda k, node: e.lt(e.I(0), k))
        near = (lambda node: e.I(0)) if nxt else (lambda node: e.sub(t.num(node), e.I(1)))
        c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
        here = has(i, node)
        chk0(c, R, L, L.AND(here, L.OR(L.NOT(out.g), L.NOT(some))), f"{fn} finds a leaf of the same node", f"{fn} misses the leaf next to the given one in its node", w)
        same(c, R, L, res, e.getf(t.kidleaf(node, step(i)), t.LXT, 0, 0), L.AND(out.g, here, some), f"{fn} returns the leaf next to it", f"{fn} returns a leaf that is not next to the given one", w)
        recs = pick(t, 0)
        up = down = None
        for r in recs:
            u = carried(t, r, lambda p: parent_of(t, mknode(t, cur, p)))
            if u:
                up = (r,) + u
            d = carried(t, r, lambda p: t.n(t.kidinode(mknode(t, cur, p), near(mknode(t, cur, p)))))
            if d:
                down = (r,) + d
        if not c.check(up is not None and down is not None and len(recs) == 2, R, f"{fn} goes up and down the tree", f"{fn} does not go up from a node to its parent, and then down to the nearest leaf", w):
            continue
        r, q, qi = up
        un = mknode(t, cur, q)
        upn = parent_of(t, un)
        un2 = mknode(t, cur, upn)
        t.sane(un2)
        k = t.number(un2, q)
        same(c, R, L, qi, t.n(pa), L.AND(r.g, L.NOT(here)), f"{fn} starts at the leaf's node", f"{fn} does not start at the leaf's own node", w)
        more = has(k, un2)
        r2, q2, qi2 = down
        dn = mknode(t, cur, q2)
        t.sane(dn)
        L.assume(L.NOT(e.eqc(t.num(dn), 0)))
        chk0(c, R, L, L.AND(r.cont, L.OR(e.eq(q, root), more)), f"{fn} goes up only from the end of a node", f"{fn} goes past a node next to the one it comes from", w)
        chk0(c, R, L, L.AND(out.g, L.NOT(here), L.b.XOR(some, L.NOT(e.eq(q, root)))), f"{fn} finds nothing only at the end of the tree", f"{fn} finds no leaf although there is one, or the reverse", w)
        same(c, R, L, qi2, t.n(t.kidinode(un2, step(k))), L.AND(r2.g, L.NOT(here)), f"{fn} goes down the node next to it", f"{fn} does not go down the node next to the one it comes from", w)
        leaves = L.G(t.f(dn, "has_leaves"))
        S = L.AND(out.g, some, L.NOT(here))
        chk0(c, R, L, L.OR(L.AND(r2.cont, leaves), L.AND(S, L.NOT(leaves))), f"{fn} stops at a leaf", f"{fn} takes a leaf for a node or a node for a leaf", w)
        same(c, R, L, res, e.getf(t.kidleaf(dn, near(dn)), t.LXT, 0, 0), S, f"{fn} returns the nearest leaf", f"{fn} does not return the nearest leaf of the node it goes down to", w)


def sliceof(t, v, ty, st):
    """(length, element) of a slice reference"""
    e, L = t.e, t.L
    sty = L.prog.types[ty]["e"]
    if v.k == "G" and all(x.k == "X" and x.a[0] in ("slice", "subslice") for x, g in e.galts(v)):
        return e.lenof(v, sty), lambda j: e.geti(v, sty, j)      # what it held when it was passed on
    al = e.targets(v, sty, st)
    n = None
    for g, r, p in al:
        y = e.rd(st, r, p)
        ln = e.lenof(y, sty)
        n = ln if n is None else e.mux(g, ln, n)

    def at(j):
        out = None
        for g, r, p in al:
            x = e.rd(st, r, e.pidx(p, j))
            out = x if out is None else e.mux(g, x, out)
        return out
    return n, at


def reftree(t, v, ty):
    """is this a reference to the tree"""
    return all(tt.k == "R" and tt.a[0] == t.g and not tt.a[1] for tt, g in t.e.galts(v))


def iterate(c, leaf="run"):
    """The iterators over leaves go through all of them, in order."""
    R = FIND
    for what in ("Siblings", "Leaves"):
        # ---- new
        insts = []
        p = Search(c, leaf=leaf)
        for i in p.L.prog.insts:
            if i["def"] == f"cola::gtree::iter::{what}::<'a, N, L>::new" and i.get("body"):
                q = p.L.prog.types[i["body"]["locals"][1]].get("e")
                if q == p.GT:
                    insts.append(i)
        nxt = [i for i in p.L.prog.insts if i["def"] == f"<cola::gtree::iter::{what}<'a, N, L> as std::iter::Iterator>::next" and i.get("body") and p.LT in p.L.prog.types[p.L.prog.types[i["body"]["locals"][1]]["e"]]["args"]]
        if not insts and not nxt and leaf == "piece":
            continue
        if not insts or not nxt:
            raise MissingAnchor(f"{what}::new / next")
        for inst in insts:
            skip = 0 if inst["n"].endswith("<true>") else 1
            t = Search(c, leaf=leaf)
            index_of(t)
            L, e = t.L, t.e
            c.analysed.add(inst["def"])
            w = inst["def"] + " @ " + str(inst["body"]["span"])
            lt = inst["body"]["locals"]
            x = L.sym("leaf", lt[2])
            xn = e.getf(x, t.LXT, 0, 0)
            cur = t.cur()
            L.assume(e.lt(xn, e.lenof(t.lnodes(cur), t.LVT)))
            pa = L.f(t.lnode(cur, x), t.LNT, "parent")
            t.inb(pa)
            node = t.inode(cur, pa)
            kind(t, node, 1)
            k = e.add(t.number(node, xn), e.I(skip))
            rv, out, rty = L.call(inst, L.ref(t.g), x)
            c.check(L.feasible(out.g) != 0, R, f"{what} starts", f"{what}::new never returns", w)
            fld = "current_leaves" if what == "Leaves" else "leaf_idxs"
            n, at = sliceof(t, L.f(rv, rty, fld), L.fty(rty, fld), out)
            same(c, R, L, n, e.sub(t.num(node), k), out.g, f"{what} ({'after' if skip else 'from'} the leaf) goes to the end of the node", f"{what} does not go from the leaf to the end of its node", w)
            j = L.sym("any leaf", t.us)
            same(c, R, L, e.getf(at(j), t.LXT, 0, 0), e.getf(t.kidleaf(node, e.add(k, j)), t.LXT, 0, 0), L.AND(out.g, e.lt(j, n)), f"{what} ({'after' if skip else 'from'} the leaf) starts there", f"{what} does not start at the right leaf", w)
            c.check(reftree(t, L.f(rv, rty, "gtree"), None), R, f"{what} is over this tree", f"{what} is not over the tree it was made from", w)
            if what == "Siblings":
                continue
            recs = pick(t, 0)
            up = None
            for r in recs:
                u = carried(t, r, lambda p: parent_of(t, mknode(t, cur, p)))
                if u:
                    up = (r,) + u
            if not c.check(up is not None, R, "Leaves knows the nodes above", "Leaves::new does not go from a node to its parent", w):
                continue
            r, q, qi = up
            root = t.n(L.f(cur, t.GT, "root_idx"))
            same(c, R, L, qi, t.n(pa), r.g, "Leaves starts at the leaf's node", "Leaves::new does not start at the leaf's node", w)
            chk0(c, R, L, L.AND(r.cont, e.eq(q, root)), "Leaves stops at the root", "Leaves::new goes past the root", w)
            chk0(c, R, L, L.AND(out.g, L.NOT(e.eq(q, root))), "Leaves goes up to the root", "Leaves::new stops before it reaches the root", w)
            PT = L.fty(rty, "path")
            path = L.f(rv, rty, "path")
            ok = None
            et = e.elty(PT)
            for phi, (init, back, (r0, pth)) in r.phis.items():
                if e.pathty(e.root_ty[r0], pth) == PT:
                    ok = (e.G1(phi), init, back)
            if not c.check(ok is not None, R, "Leaves keeps a path", "Leaves::new does not record the nodes above", w):
                continue
            P, init, back = ok
            un = mknode(t, cur, q)
            up = mknode(t, cur, parent_of(t, un))
            same(c, R, L, e.lenof(init, PT), e.I(0), r.g, "the path starts empty", "Leaves::new starts with a path that is not empty", w)
            same(c, R, L, e.lenof(back, PT), e.add(e.lenof(P, PT), e.I(1)), r.cont, "one node of the path at a time", "Leaves::new does not record one node a time", w)
            first = e.geti(back, PT, e.I(0))
            same(c, R, L, t.n(e.getf(first, et, 0, 0)), parent_of(t, un), r.cont, "the path has the node above", "Leaves::new records another node than the one above", w)
            same(c, R, L, e.getf(first, et, 0, 1), t.number(up, q), r.cont, "the path has the number of the child", "Leaves::new records a wrong child number", w)
            same(c, R, L, e.geti(back, PT, e.add(j, e.I(1))), e.geti(P, PT, j), L.AND(r.cont, e.lt(j, e.lenof(P, PT))), "the rest of the path is below", "Leaves::new loses or moves nodes of its path", w)
            c.check(L.diff(path, P, out.g) == 0, R, "the path is kept", "Leaves::new does not keep the path", w)
        # ---- next
        inst = nxt[0]
        t = Search(c, leaf=leaf)
        L, e = t.L, t.e
        c.analysed.add(inst["def"])
        w = inst["def"] + " @ " + str(inst["body"]["span"])
        IT = L.prog.types[inst["body"]["locals"][1]]["e"]
        names = L.prog.field_names(IT)
        itv = e.symval(N("S", "iterator", IT), IT)
        itv = e.putf(itv, IT, 0, names.index("gtree"), L.ref(t.g))
        it = L.place("iterator", IT, itv)
        fld = "current_leaves" if what == "Leaves" else "leaf_idxs"
        FT = L.fty(IT, fld)
        n0, at0 = sliceof(t, L.f(itv, IT, fld), FT, L.st)
        cur = t.cur()
        L.assume(e.lt(e.getf(at0(e.I(0)), t.LXT, 0, 0), e.lenof(t.lnodes(cur), t.LVT)))
        rv, out, rty = L.call(inst, L.ref(it))
        post = L.get(it, out)
        some = L.isv(rv, rty, "Some")
        have = e.lt(e.I(0), n0)
        pay, pty = L.payload(rv, rty, "Some"), L.prog.field_ty(rty, L.variant(rty, "Some"), 0)
        g = L.AND(have, out.g)
        chk0(c, R, L, L.AND(have, L.OR(L.NOT(out.g), L.NOT(some))), f"{what} yields a leaf while there is one", f"{what}::next yields nothing although there is a leaf left", w)
        first = e.getf(at0(e.I(0)), t.LXT, 0, 0)
        same(c, R, L, e.getf(e.getf(pay, pty, 0, 0), t.LXT, 0, 0), first, g, f"{what} yields the next leaf", f"{what}::next does not yield the next leaf", w)
        lref = e.getf(pay, pty, 0, 1)
        lv = None
        for gg, r0, p0 in e.targets(lref, t.LT, out):
            y = e.rd(out, r0, p0)
            lv = y if lv is None else e.mux(gg, y, lv)
        want = L.f(e.geti(t.lnodes(cur), t.LVT, first), t.LNT, "value")
        same(c, R, L, lv, want, g, f"{what} yields the leaf with its index", f"{what}::next yields another leaf than the index says", w)
        n1, at1 = sliceof(t, L.f(post, IT, fld), FT, out)
        j = L.sym("any leaf", t.us)
        same(c, R, L, n1, e.sub(n0, e.I(1)), g, f"{what} moves by one", f"{what}::next does not move by one leaf", w)
        same(c, R, L, at1(j), at0(e.add(j, e.I(1))), L.AND(g, e.lt(j, e.sub(n0, e.I(1)))), f"{what} keeps the rest", f"{what}::next loses or repeats leaves", w)
        if what == "Siblings":
            chk0(c, R, L, L.AND(out.g, L.NOT(have), some), "Siblings ends", "Siblings::next yields a leaf after the last one", w)
            continue
        PT = L.fty(IT, "path")
        et = e.elty(PT)
        P0 = L.f(itv, IT, "path")
        same(c, R, L, L.f(post, IT, "path"), P0, g, "the path stays within a node", "Leaves::next changes its path within a node", w)
        up = down = None
        for r in pick(t, 0):
            d = carried(t, r, lambda p: t.n(t.kidinode(mknode(t, cur, p), e.I(0))))
            for phi, (init, back, (r0, pth)) in r.phis.items():
                if e.pathty(e.root_ty[r0], pth) != PT:
                    continue
                if d:
                    down = (r, e.G1(phi), init, back) + d
                else:
                    up = (r, e.G1(phi), init, back)
        if not c.check(up is not None and down is not None, R, "Leaves goes up and down", "Leaves::next does not go up its path and down to the nearest leaf", w):
            continue
        r, P, init, back = up
        E = L.AND(L.NOT(have))
        n = e.lenof(P, PT)
        last = e.sub(n, e.I(1))
        top = e.geti(P, PT, last)
        un = mknode(t, cur, t.n(e.getf(top, et, 0, 0)))
        t.sane(un)
        k = e.getf(top, et, 0, 1)
        k1 = e.add(k, e.I(1))
        L.assume(e.lt(k, t.num(un)))
        more = e.lt(k1, t.num(un))
        same(c, R, L, init, P0, L.AND(E, r.g), "goes up from the node it is in", "Leaves::next does not start from its path", w)
        chk0(c, R, L, L.AND(r.cont, L.OR(e.eqc(n, 0), more)), "goes up only from the end of a node", "Leaves::next goes past a node that has children left", w)
        same(c, R, L, e.lenof(back, PT), last, r.cont, "goes up one node", "Leaves::next does not go up one node at a time", w)
        same(c, R, L, e.geti(back, PT, j), e.geti(P, PT, j), L.AND(r.cont, e.lt(j, last)), "keeps the nodes above", "Leaves::next changes its path while going up", w)
        r2, P2, init2, back2, q, qi = down
        g2 = L.AND(r2.g, E)
        chk0(c, R, L, L.AND(g2, L.OR(e.eqc(n, 0), L.NOT(more))), "goes down only where there is a child left", "Leaves::next goes down a node that has no children left", w)
        same(c, R, L, qi, t.n(t.kidinode(un, k1)), g2, "goes down to the next child", "Leaves::next does not go down to the next child", w)
        same(c, R, L, e.lenof(init2, PT), n, g2, "the path has the same nodes above", "Leaves::next loses a node of its path", w)
        nt = e.geti(init2, PT, last)
        same(c, R, L, t.n(e.getf(nt, et, 0, 0)), t.n(e.getf(top, et, 0, 0)), g2, "the path keeps the node", "Leaves::next records another node than the one it goes down from", w)
        same(c, R, L, e.getf(nt, et, 0, 1), k1, g2, "the path has the new child", "Leaves::next does not record which child it went down to", w)
        same(c, R, L, e.geti(init2, PT, j), e.geti(P, PT, j), L.AND(g2, e.lt(j, last)), "the path keeps the other nodes", "Leaves::next changes nodes of its path", w)
        dn = mknode(t, cur, q)
        t.sane(dn)
        leaves = L.G(t.f(dn, "has_leaves"))
        m = e.lenof(P2, PT)
        nb = e.geti(back2, PT, m)
        same(c, R, L, e.lenof(back2, PT), e.add(m, e.I(1)), r2.cont, "the path grows going down", "Leaves::next does not record the nodes it goes down", w)
        same(c, R, L, t.n(e.getf(nb, et, 0, 0)), q, r2.cont, "the path has the node gone through", "Leaves::next records another node than the one it goes through", w)
        same(c, R, L, e.getf(nb, et, 0, 1), e.I(0), r2.cont, "the path has the first child", "Leaves::next records a wrong child while going down", w)
        same(c, R, L, e.geti(back2, PT, j), e.geti(P2, PT, j), L.AND(r2.cont, e.lt(j, m)), "the path above stays", "Leaves::next changes its path while going down", w)
        chk0(c, R, L, L.AND(r2.cont, leaves), "stops at the leaves", "Leaves::next takes a leaf for a node", w)
        again = [ev for ev in e.events if ev.inst is not None and ev.inst["id"] == inst["id"] and L.feasible(L.AND(ev.g, E))]
        if not c.check(len(again) == 1, R, "goes on with the leaves it found", "Leaves::next does not go on with the leaves of the node it reached", w):
            continue
        ev = again[0]
        chk0(c, R, L, L.AND(ev.g, L.NOT(leaves)), "goes down to the leaves", "Leaves::next takes a node for a leaf", w)
        s = ev.args[0]
        n2, at2 = sliceof(t, L.f(s, IT, fld), FT, out)
        same(c, R, L, n2, t.num(dn), ev.g, "all the leaves of the node", "Leaves::next does not go through all the leaves of a node", w)
        same(c, R, L, e.getf(at2(j), t.LXT, 0, 0), e.getf(t.kidleaf(dn, j), t.LXT, 0, 0), L.AND(ev.g, e.lt(j, n2)), "the leaves of the node, in order", "Leaves::next does not go through the leaves of a node in order", w)
        same(c, R, L, L.f(s, IT, "path"), P2, ev.g, "with the path to them", "Leaves::next goes on with a wrong path", w)
        chk0(c, R, L, L.AND(out.g, L.NOT(have), L.b.XOR(L.NOT(ev.g), L.AND(L.NOT(some), e.eqc(n, 0)))), "ends after the last leaf", "Leaves::next ends before the last leaf, or goes on after it", w)

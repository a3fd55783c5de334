"""Operations of the tree that work their way down through its nodes."""
from gvf import UNDEF, NT, MissingAnchor
import models
from rules.runtree import same, chk0
from rules.gwrite import Ops, STRUCT, LEN, CURSOR, G, push_contract, user, inserted, returned, remembers, idxphi
from rules.gsearch import Walk
from lab import trunc

MOD = "cola::gtree::"


class Rec(Ops):
    """A tree whose nested operations are known by what they promise."""

    def __init__(self, c, leaf="run", below=()):
        Ops.__init__(self, c, leaf=leaf)
        L, e = self.L, self.e
        push_contract(self)
        self.node0 = None
        self.top = None
        self.apart = {}
        e.userm[G + "child_at_offset"] = self.m_find
        e.userm[G + "child_containing_range"] = self.m_find
        e.userm[G + "child_measure"] = self.m_measure
        e.userm[G + "delete_child"] = self.m_delchild
        for f in below:
            e.userm[f if f.startswith("cola::") else MOD + f] = self.m_below

    # ------------------------------------------------------------ contracts
    def m_find(self, e, c, st):
        """which child holds a place: some child of the node, and how much text is before it"""
        L = self.L
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        node = self.inode(g, c.args[1])
        k, off = self.fresh(self.us, "child found"), self.fresh(self.us, "text before it")
        L.assume(e.lt(k, self.num(node)))
        t = L.prog.types[c.dty]
        if t["k"] == "tuple":
            some = 1
            rv = e.mkA(c.dty, [(0, 1, (k, off))])
        else:
            some = self.freshbit("a child is found")
            pt = L.prog.field_ty(c.dty, L.variant(c.dty, "Some"), 0)
            rv = models.opt(e, c.dty, some, e.mkA(pt, [(0, 1, (k, off))]))
        self.child_of(g, self.n(c.args[1]), node, k)
        self.note("find", c, st, node=self.n(c.args[1]), place=c.args[2], k=k, off=off, some=some, g0=g, at=node)
        return rv, models.fresh(st)

    def child_of(self, g, i, node, k):
        """a node's child is there, and knows the node"""
        e, L = self.e, self.L
        h = L.G(self.f(node, "has_leaves"))
        x, y = self.kidn(node, k, 1), self.kidn(node, k, 0)
        for cond, fact in ((h, e.lt(x, e.lenof(self.lnodes(g), self.LVT))), (h, e.eq(self.par(g, x), i)), (L.NOT(h), e.lt(y, e.lenof(self.inodes(g), self.IVT))), (L.NOT(h), e.eq(self.n(self.f(self.node(g, y), "parent")), i)), (L.NOT(h), L.NOT(e.eq(y, i)))):
            L.assume(L.OR(L.NOT(cond), fact))

    def kidlen(self, node, k):
        return self.measure(k)

    def measure(self, k):
        return self.e.app("length of child", self.us, k)

    def m_measure(self, e, c, st):
        g, tg, ok = self.gdo(c, st)
        if not ok or self.node0 is None:
            return NotImplemented
        i = self.n(c.args[1])
        self.note("measure", c, st, node=i, k=c.args[2])
        return self.measure(c.args[2]), models.fresh(st)

    def under(self, g, idx, keep=(), lens=True):
        """the tree after something changed below node number idx: the nodes in `keep`
        are as they were, the node itself is still in the same place"""
        e, L = self.e, self.L
        iv0 = self.inodes(g)
        self.k += 1
        iv = e.app("changed below", self.IVT, iv0, e.I(self.k))
        L.assume(L.NOT(e.lt(e.lenof(iv, self.IVT), e.lenof(iv0, self.IVT))))
        L.assume(e.lt(e.lenof(iv, self.IVT), e.I(2 ** 62)))
        new = self.fresh(self.INT, "node now")
        new = self.putn(new, parent=self.f(self.node(g, idx), "parent"))
        iv = e.puti(iv, self.IVT, idx, new)
        for n in keep:
            iv = e.puti(iv, self.IVT, n, self.node(g, n))
        self.k += 1
        lv = e.app("leaves changed below", self.LVT, self.lnodes(g), e.I(self.k))
        L.assume(L.NOT(e.lt(e.lenof(lv, self.LVT), e.lenof(self.lnodes(g), self.LVT))))
        g1 = self.putg(g, "inodes", iv)
        g1 = self.putg(g1, "lnodes", lv)
        return g1

    def m_below(self, e, c, st):
        """the operation itself, on a child"""
        L = self.L
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        idx = self.n(c.args[1])
        ev = self.note("below", c, st, fn=c.inst["def"].rsplit("::", 1)[1], node=idx, args=list(c.args), tys=list(c.atys), g0=g)
        keep = [self.top] if self.top is not None else []
        keep += [ev.extra["idx"] for ev in self.notes if ev.kind == "note:push"]
        g1 = self.under(g, idx, keep)
        if "delete::" not in c.inst["def"]:
            g1 = self.putg(g1, "cursor", self.fresh(self.CT, "remembered below"))
        rv = self.fresh(c.dty, "what is returned from below")
        ev.extra.update(ret=rv, rty=c.dty, g1=g1, before=self.tot(self.node(g, idx)), after=self.tot(self.node(g1, idx)))
        return rv, self.wr(st, tg, g1)

    def m_delchild(self, e, c, st):
        """a child is deleted: the node's length is less by the child's"""
        L = self.L
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        idx = self.n(c.args[1])
        node = self.node(g, idx)
        ev = self.note("gone", c, st, node=idx, k=c.args[2], g0=g, before=c.args[3])
        m = self.measure(c.args[2])
        # lengths of nodes and leaves below change, nothing else
        iv = self.havoc(self.inodes(g), self.IVT, "tot_len")
        iv = e.puti(iv, self.IVT, idx, self.putn(node, tot_len=e.sub(self.tot(node), m)))
        lv = self.havoc(self.lnodes(g), self.LVT, "value")
        # what is not in the tree yet is no child
        for n in [ev.extra["idx"] for ev in self.notes if ev.kind == "note:push"]:
            iv = e.puti(iv, self.IVT, n, self.node(g, n))
        for n in self.apart.get(self.LVT, ()):
            lv = e.puti(lv, self.LVT, n, e.geti(self.lnodes(g), self.LVT, n))
        g1 = self.putg(g, "inodes", iv)
        g1 = self.putg(g1, "lnodes", lv)
        return models.unit(e, c.dty), self.wr(st, tg, g1)


def insts(t, fn):
    full = MOD + fn if not fn.startswith("cola::") else fn
    l = [i for i in t.L.prog.insts if i["def"] == full and i.get("body")]
    out = []
    for i in l:
        ty = i["body"]["locals"][1]
        ty = t.L.prog.types[ty].get("e", ty)
        if ty == t.GT:
            out.append(i)
    if not out:
        raise MissingAnchor("function " + full)
    return out


def where_(inst):
    return inst["def"] + " @ " + str(inst["body"]["span"])


def setup(c, fn, below, has, leaf="run"):
    """a call on a node of a given kind: (t, instance, where, types, the node, its value)"""
    t = Rec(c, leaf=leaf, below=below)
    inst = insts(t, fn)[0]
    c.analysed.add(inst["def"])
    L, e = t.L, t.e
    lt = inst["body"]["locals"]
    idx = L.sym("node", t.IDX)
    pre = t.cur()
    t.top = t.n(idx)
    L.assume(e.lt(t.top, e.lenof(t.inodes(pre), t.IVT)))
    L.assume(e.lt(e.lenof(t.inodes(pre), t.IVT), e.I(2 ** 62)))
    node = t.node(pre, t.top)
    t.sane(node)
    L.assume(L.NOT(e.eqc(t.num(node), 0)))
    h = L.G(t.f(node, "has_leaves"))
    L.assume(h if has else L.NOT(h))
    return t, inst, where_(inst), lt, idx, pre, node


def local(t, p, start, out, w, what, leaves, some, rest, has, evs=None, post=None, ins=True, others=True):
    """What a node hands back about itself adds up: its length and that of the node
    split off it are what they were, plus what changed among its children."""
    L, e, c = t.L, t.e, t.c
    evs = t.notes if evs is None else evs
    node0 = t.node(start, p)
    want = t.tot(node0)
    post = t.cur(out) if post is None else post
    pend, splits = 0, []
    pushes = [ev for ev in evs if ev.kind == "note:push"]
    for ev in evs:
        x, g = ev.extra, L.AND(ev.g, out.g)
        if ev.kind == "note:below":
            want = e.add(want, e.mux(g, e.sub(x["after"], x["before"]), e.I(0)))
        elif ev.kind == "note:insert":
            chk0(c, STRUCT, L, L.AND(g, L.NOT(e.eq(x["node"], p))), f"{what}: added to the right node", f"{what} adds a child to another node than the one it works on", w)
            chk0(c, STRUCT, L, L.AND(g, pend), f"{what}: a split is dealt with", f"{what} loses the node split off by an earlier insertion", w)
            for at, kid, ln in x["ins"]:
                if not ins:
                    pass
                elif has:
                    n = t.kid_leaf(kid)
                    same(c, LEN, L, ln, t.leaflen(t.val(x["g0"], n)), g, f"{what}: a new child's length", f"{what} adds a leaf with a wrong length to the node", w)
                    same(c, STRUCT, L, t.par(x["g0"], n), p, g, f"{what}: a new child knows its node", f"{what} adds a leaf that does not know its node", w)
                else:
                    n = t.n(e.getf(kid, t.NT, 0, t.names(t.NT).index("internal")))
                    same(c, LEN, L, ln, t.tot(t.node(x["g0"], n)), g, f"{what}: a new child's length", f"{what} adds a node with a wrong length", w)
                    ok = 0
                    for pv in pushes:
                        ok = L.OR(ok, L.AND(pv.g, e.eq(pv.extra["idx"], n), e.eq(t.n(pv.extra["parent"]), p)))
                    chk0(c, STRUCT, L, L.AND(g, L.NOT(ok)), f"{what}: a new child knows its node", f"{what} adds a node that was there already, or does not know its parent", w)
                want = e.add(want, e.mux(g, ln, e.I(0)))
            splits.append((L.AND(g, x["split"]), x["rest"]))
            pend = L.OR(pend, L.AND(g, x["split"]))
        elif ev.kind in ("note:patch", "note:bubble"):
            c.check(L.feasible(g) == 0, LEN, f"{what}: ancestors are left to the caller", f"{what} tells ancestors of a change that its callers tell them of, too", w)
    for n, v0 in leaves:
        want = e.sub(e.add(want, t.leaflen(t.val(post, n))), t.leaflen(v0))
    chk0(c, STRUCT, L, L.AND(out.g, L.b.XOR(some, pend)), f"{what}: a split is handed back", f"{what} does not hand back the node that was split off", w)
    for g, r in splits:
        for f in ("tot_len", "num_children", "children", "has_leaves"):
            same(c, STRUCT, L, t.f(rest, f), t.f(r, f), L.AND(g, some), f"{what}: the split off node is handed back", f"{what} hands back another node than the one split off", w)
    have = e.add(t.tot(t.node(post, p)), e.mux(some, t.tot(rest), e.I(0)) if rest is not UNDEF else e.I(0))
    same(c, LEN, L, have, want, out.g, f"{what}: lengths add up", f"{what}: the length of the node is not that of its children", w)
    # nothing else changes
    iv, lv = t.inodes(start), t.lnodes(start)
    for ev in evs:
        if ev.kind in ("note:below",):
            g = L.AND(ev.g, out.g)
            if L.feasible(g):
                full = L.feasible(L.AND(out.g, L.NOT(ev.g))) == 0
                iv, lv = (t.inodes(ev.extra["g1"]), t.lnodes(ev.extra["g1"])) if full else (None, None)
    if iv is None:
        return
    j = L.sym("any leaf", t.us)
    oth = L.AND(out.g, e.lt(j, e.lenof(lv, t.LVT)), *[L.NOT(e.eq(j, n)) for n, _ in leaves])
    vf = lambda v: e.getf(e.geti(v, t.LVT, j), t.LNT, 0, t.names(t.LNT).index("value"))
    same(c, STRUCT, L, t.val(post, j), vf(lv), oth, f"{what}: other leaves stay", f"{what} changes other leaves", w)
    if not others:
        return
    t.k += 1
    j = L.sym(f"any node {t.k}", t.us)
    L.assume(e.lt(j, e.lenof(iv, t.IVT)))
    for n in [p] + [ev.extra["idx"] for ev in t.notes if ev.kind == "note:push"]:
        L.assume(L.NOT(e.eq(j, n)))
    for f in ("tot_len", "num_children", "children", "has_leaves"):
        same(c, LEN if f == "tot_len" else STRUCT, L, t.f(t.node(post, j), f), t.f(e.geti(iv, t.IVT, j), f), out.g, f"{what}: other nodes stay", f"{what} changes other nodes", w)


def put_back(t, out, k, some, rest, has, what, w, near=None):
    """what was split off a child is put right behind it (under `out`)"""
    L, e, c = t.L, t.e, t.c
    had = 0
    for ev in t.notes:
        if ev.kind != "note:insert":
            continue
        g = L.AND(ev.g, out.g)
        if not L.feasible(g):
            continue
        for at, kid, ln in ev.extra["ins"]:
            same(c, STRUCT, L, at, e.add(k, e.I(1)), g, f"{what}: behind its other half", f"{what} does not put what was split off a child right behind it", w)
            n = t.n(e.getf(kid, t.NT, 0, t.names(t.NT).index("internal")))
            q = t.node(ev.extra["g0"], n)
            for f in ("tot_len", "num_children", "children", "has_leaves"):
                same(c, STRUCT, L, t.f(q, f), t.f(rest, f), g, f"{what}: the other half", f"{what} puts another node in the tree than the one split off the child", w)
            chk0(c, STRUCT, L, L.AND(g, had), f"{what}: once", f"{what} puts a node in the tree twice", w)
            had = L.OR(had, g)
    chk0(c, STRUCT, L, L.AND(out.g, L.b.XOR(had, some)), f"{what}: a child's other half is put in the tree", f"{what} loses what was split off a child", w)


def insert_down(c, leaf="run"):
    """Inserting at an offset goes to the leaf that holds it."""
    R = STRUCT
    fn = "insert::insert_at_offset"
    for has in (1, 0):
        t, inst, w, lt, idx, pre, node = setup(c, fn, [fn], has, leaf)
        L, e = t.L, t.e
        lo, at, f = L.sym("leaf offset", t.us), L.sym("at", t.us), L.sym("f", lt[5])
        rv, out, rty = L.call(inst, L.ref(t.g), idx, lo, at, f)
        nm = "insert_at_offset (" + ("leaves" if has else "nodes") + ")"
        post = t.cur(out)
        finds = [ev for ev in t.notes if ev.kind == "note:find"]
        if not c.check(len(finds) == 1, R, f"{nm}: looks for the child", f"{nm} does not look for the child holding the offset", w):
            continue
        q = finds[0].extra
        chk0(c, R, L, L.AND(out.g, L.NOT(e.eq(q["node"], t.top))), f"{nm}: looks in its node", f"{nm} looks for the offset in another node", w)
        same(c, R, L, q["place"], e.sub(at, lo), out.g, f"{nm}: looks for the offset", f"{nm} looks for another offset in the node than the one it is given", w)
        k, here = q["k"], e.add(lo, q["off"])
        st = L.prog.types[rty]["es"]
        inner, sp = e.getf(rv, rty, 0, 0), e.getf(rv, rty, 0, 1)
        some, rest = L.isv(sp, st[1], "Some"), L.payload(sp, st[1], "Some")
        if has:
            x = t.kidn(node, k, 1)
            old = t.val(pre, x)
            u = user(t, out, nm, w, [old, e.sub(at, here)])
            if not u:
                continue
            (new,), ret, ut = u
            ot = L.prog.types[ut]["es"]
            os_ = [e.getf(ret, ut, 0, i) for i in (0, 1)]
            hs = [L.isv(o, t_, "Some") for o, t_ in zip(os_, ot)]
            odd = L.AND(L.NOT(hs[0]), hs[1])
            chk0(c, R, L, L.AND(L.NOT(odd), L.NOT(out.g)), f"{nm} returns", f"{nm} fails", w)
            out.g = L.AND(out.g, L.NOT(odd))
            ps = [L.payload(o, t_, "Some") for o, t_ in zip(os_, ot)]
            slots = inserted(t, out, e.add(k, e.I(1)), list(zip(hs, ps)), nm, w)
            returned(t, out, inner, st[0], hs, slots, nm, w)
            same(c, R, L, t.val(post, x), new, out.g, f"{nm}: the leaf is what the user made of it", f"{nm} changes the leaf after the insertion", w)
            local(t, t.top, pre, out, w, nm, [(x, old)], some, rest, has)
            off = e.add(here, t.leaflen(new))
            remembers(t, t.top, out, [(1, x, here, k), (hs[0], slots[0], off, e.add(k, e.I(1))), (hs[1], slots[1], e.add(off, t.leaflen(ps[0])), e.add(k, e.I(2)))], nm, w)
        else:
            b = [ev for ev in t.notes if ev.kind == "note:below"]
            if not c.check(len(b) == 1, R, f"{nm}: goes on with the child", f"{nm} does not go on in the child holding the offset", w):
                continue
            y = b[0].extra
            chk0(c, R, L, L.NOT(L.AND(out.g, b[0].g)), f"{nm} returns", f"{nm} fails", w)
            same(c, R, L, y["node"], t.kidn(node, k, 0), out.g, f"{nm}: goes on with the child", f"{nm} goes on in another child than the one holding the offset", w)
            nums = [a for a, ty in zip(y["args"], y["tys"]) if ty == t.us]
            same(c, R, L, nums[0], here, out.g, f"{nm}: where the child starts", f"{nm} goes on with a wrong offset for where the child starts", w)
            same(c, R, L, nums[1], at, out.g, f"{nm}: where to insert", f"{nm} goes on with another offset", w)
            below = y["ret"]
            bs = e.getf(below, rty, 0, 1)
            bsome, brest = L.isv(bs, st[1], "Some"), L.payload(bs, st[1], "Some")
            put_back(t, out, k, bsome, brest, has, nm, w)
            local(t, t.top, pre, out, w, nm, [], some, rest, has)
            same_pair(t, inner, e.getf(below, rty, 0, 0), st[0], out, nm, w)
            same(c, CURSOR, L, L.f(post, t.GT, "cursor"), L.f(y["g1"], t.GT, "cursor"), out.g, f"{nm}: the remembered position", f"{nm} changes the position remembered by the insertion", w)


def same_pair(t, a, b, ty, out, what, w):
    """two pairs of optional leaf indices are the same"""
    L, e, c = t.L, t.e, t.c
    for i in (0, 1):
        oty = L.prog.types[ty]["es"][i] if L.prog.types[ty]["k"] == "tuple" else ty
        x, y = (e.getf(v, ty, 0, i) for v in (a, b)) if L.prog.types[ty]["k"] == "tuple" else (a, b)
        sx, sy = L.isv(x, oty, "Some"), L.isv(y, oty, "Some")
        chk0(c, STRUCT, L, L.AND(out.g, L.b.XOR(sx, sy)), f"{what} hands back the new leaves", f"{what} does not hand back which leaves are new", w)
        px, py = L.payload(x, oty, "Some"), L.payload(y, oty, "Some")
        if px is not UNDEF and py is not UNDEF:
            same(c, STRUCT, L, t.xn(px), t.xn(py), L.AND(out.g, sx), f"{what} hands back the new leaves", f"{what} hands back another leaf than the new one", w)
        if L.prog.types[ty]["k"] != "tuple":
            break


def frame(t, rec, pre, what, w, gone=None):
    """Nodes and leaves keep their places in the tree from round to round: returns
    (nodes, leaves) as the loop knows them, and a function that tells what is known
    of a node or leaf."""
    L, e, c = t.L, t.e, t.c
    j = L.sym("any", t.us)
    vec = {}
    for phi, (init, back, (root, path)) in rec.phis.items():
        if path and path[-1] == ("disc",):
            continue
        ty = e.pathty(e.root_ty[root], path)
        if ty in (t.IVT, t.LVT):
            vec[ty] = (e.G1(phi), init, back)
    keeps = {t.IVT: ("num_children", "children", "has_leaves", "parent"), t.LVT: ("parent",)}
    for ty, (v, init, back) in vec.items():
        ety = e.elty(ty)
        was = t.inodes(pre) if ty == t.IVT else t.lnodes(pre)
        same(c, STRUCT, L, e.lenof(init, ty), e.lenof(was, ty), rec.g, f"{what}: nothing is added in between", f"{what} adds nodes or leaves where it should only delete", w)
        same(c, STRUCT, L, e.lenof(back, ty), e.lenof(v, ty), rec.cont, f"{what}: nothing is added in between", f"{what} adds nodes or leaves where it should only delete", w)
        L.assume(e.eq(e.lenof(v, ty), e.lenof(was, ty)))
        for f in keeps[ty]:
            i = t.names(ety).index(f)
            get = lambda q: e.getf(e.geti(q, ty, j), ety, 0, i)
            same(c, STRUCT, L, get(init), get(was), L.AND(rec.g, e.lt(j, e.lenof(was, ty))), f"{what}: places stay", f"{what} moves nodes or leaves it should only delete", w)
            same(c, STRUCT, L, get(back), get(v), L.AND(rec.cont, e.lt(j, e.lenof(v, ty))), f"{what}: places stay", f"{what} moves nodes or leaves it should only delete", w)

    if gone is not None and t.IVT in vec:
        v, init, back = vec[t.IVT]
        own = lambda q: t.tot(e.geti(q, t.IVT, t.top))
        same(c, LEN, L, own(init), own(t.inodes(pre)), rec.g, f"{what}: lengths add up", f"{what} changes the node's length before anything is deleted", w)
        same(c, LEN, L, own(back), e.sub(own(v), t.measure(gone)), rec.cont, f"{what}: lengths add up", f"{what}: the node's length is not less by that of the child deleted", w)

    def know(ty, n, kids=()):
        if ty not in vec:
            return
        v, ety = vec[ty][0], e.elty(ty)
        was = t.inodes(pre) if ty == t.IVT else t.lnodes(pre)
        a, b = e.geti(v, ty, n), e.geti(was, ty, n)
        get = lambda q, f: e.getf(q, ety, 0, t.names(ety).index(f))
        L.assume(e.eq(t.n(get(a, "parent")), t.n(get(b, "parent"))))
        if ty == t.IVT:
            L.assume(e.eq(t.num(a), t.num(b)))
            L.assume(L.NOT(L.b.XOR(L.G(get(a, "has_leaves")), L.G(get(b, "has_leaves")))))
            for k in kids:
                for has in (0, 1):
                    L.assume(e.eq(t.kidn(a, k, has), t.kidn(b, k, has)))
    return vec, know


def part_deleted(c, leaf="run"):
    """Deleting from, or up to, an offset in a node: what lies beyond goes, what holds
    the offset is cut there."""
    R = STRUCT
    for fn, up in (("delete_from", False), ("delete_up_to", True)):
        for has in (1, 0):
            part(c, fn, up, has, leaf)


def part(c, fn, up, has, leaf):
    R = STRUCT
    t, inst, w, lt, idx, pre, node = setup(c, "delete::" + fn, ["delete::" + fn], has, leaf)
    t.node0 = node
    L, e = t.L, t.e
    nm = fn + (" (leaves)" if has else " (nodes)")
    I1 = e.I(1)
    at, bd, f = L.sym("at", t.us), L.place("before", L.prog.types[lt[4]]["e"]), L.sym("f", lt[5])
    rv, out, rty = L.call(inst, L.ref(t.g), idx, at, L.ref(bd), f)
    if not c.check(L.feasible(out.g) != 0, R, f"{nm} returns", f"{nm} never returns", w):
        return
    W = [r for r in Walk(t, node).recs if L.feasible(r.rec.cont)]
    find = [r for r in W if r.acc]
    if not c.check(len(find) == 1 and find[0].k[3] == 1, R, f"{nm}: goes through the children", f"{nm} does not go through the children to find the one holding the offset", w):
        return
    r = find[0]
    K, lo = r.k[0], r.k[1]
    N = t.num(node)
    F = lambda k: e.app("len of first", t.us, t.kids(node), k)
    same(c, R, L, lo, e.I(0), r.rec.g, f"{nm}: from the first child", f"{nm} does not start with the first child", w)
    for p, cand in r.acc:
        init = next(i for phi, (i, b, _) in r.rec.phis.items() if e.G1(phi) is p)
        same(c, R, L, init, e.I(0), r.rec.g, f"{nm}: no text before the first child", f"{nm} counts the text before a child wrongly", w)
    L.assume(L.NOT(e.lt(F(K), F(e.I(0)))))
    # sums do not run over
    L.assume(L.NOT(e.lt(F(e.add(K, I1)), F(K))))
    L.assume(e.lt(F(e.add(K, I1)), e.I(2 ** 63)))
    beyond = (lambda k: L.NOT(e.lt(F(e.add(k, I1)), at))) if up else (lambda k: e.lt(at, F(e.add(k, I1))))
    chk0(c, R, L, L.AND(r.rec.cont, beyond(K)), f"{nm}: stops at the child holding the offset", f"{nm} goes past the child holding the offset", w)
    chk0(c, R, L, L.AND(out.g, L.NOT(beyond(K))), f"{nm}: reaches the child holding the offset", f"{nm} stops before the child holding the offset", w)
    # the children that go
    gone = [ev for ev in t.notes if ev.kind == "note:gone" and L.feasible(ev.g)]
    if not c.check(len(gone) == 1 and gone[0].loop, R, f"{nm}: deletes the children beyond", f"{nm} does not delete the children on the far side of the offset", w):
        return
    D = [x for x in W if e.loops.index(x.rec) == gone[0].loop[-1]]
    if not c.check(len(D) == 1 and D[0].k[3] == 1, R, f"{nm}: goes through the children it deletes", f"{nm} does not delete the children one after the other", w):
        return
    d = D[0]
    dk, dlo = d.k[0], d.k[1]
    same(c, R, L, gone[0].extra["node"], t.top, gone[0].g, f"{nm}: children of its own", f"{nm} deletes children of another node", w)
    same(c, R, L, gone[0].extra["k"], dk, gone[0].g, f"{nm}: deletes every child once", f"{nm} does not delete each child on the far side once", w)
    chk0(c, R, L, L.AND(d.rec.cont, L.NOT(gone[0].g)), f"{nm}: deletes every child", f"{nm} leaves out children it should delete", w)
    if up:
        same(c, R, L, dlo, e.I(0), d.rec.g, f"{nm}: deletes from the first child on", f"{nm} does not delete from the first child on", w)
        chk0(c, R, L, L.AND(out.g, L.NOT(e.eq(dk, K))), f"{nm}: up to the child holding the offset", f"{nm} does not delete the children up to the one holding the offset", w)
    else:
        same(c, R, L, dlo, e.add(K, I1), d.rec.g, f"{nm}: deletes behind the child holding the offset", f"{nm} does not delete from the child behind the offset on", w)
        chk0(c, R, L, L.AND(d.rec.cont, L.NOT(e.lt(dk, N))), f"{nm}: children it has", f"{nm} goes past its last child", w)
        chk0(c, R, L, L.AND(out.g, e.lt(dk, N)), f"{nm}: to the last child", f"{nm} does not delete up to the last child", w)
    vec, know = frame(t, d.rec, pre, nm, w, gone=dk)
    kx, ky = t.kidn(node, K, 1), t.kidn(node, K, 0)
    L.assume(e.lt(K, N))
    t.child_of(pre, t.top, node, K)
    know(t.IVT, t.top, [K])
    know(t.IVT, ky)
    know(t.LVT, kx)
    if not c.check(L.feasible(out.g) != 0, R, f"{nm} returns", f"{nm} never returns", w):
        return
    start = pre
    if t.IVT in vec:
        start = t.putg(start, "inodes", vec[t.IVT][0])
    if t.LVT in vec:
        start = t.putg(start, "lnodes", vec[t.LVT][0])
    forgets(t, nm, out, pre, w)
    cut(t, nm, out, pre, start, rv, rty, K, e.sub(at, F(K)), has, w, fn, bd, f)


def forgets(t, nm, out, pre, w):
    """nothing is remembered that was not before"""
    L = t.L
    same(t.c, CURSOR, L, L.f(t.cur(out), t.GT, "cursor"), L.f(pre, t.GT, "cursor"), out.g, f"{nm}: the remembered position", f"{nm} remembers a position in the midst of the deletion", w)


def cut(t, nm, out, pre, start, rv, rty, K, at, has, w, fn, bd, f):
    """the child holding the offset is cut there, and what that splits off is kept"""
    c, L, e, R = t.c, t.L, t.e, STRUCT
    node = t.node(start, t.top)
    post = t.cur(out)
    st = L.prog.types[rty]["es"]
    lx, sp = e.getf(rv, rty, 0, 0), e.getf(rv, rty, 0, 1)
    some, rest = L.isv(sp, st[1], "Some"), L.payload(sp, st[1], "Some")
    if has:
        x = t.kidn(node, K, 1)
        old = t.val(start, x)
        user(t, out, nm + " (before)", w, [old], mut=False)
        u = user(t, out, nm, w, [old, at])
        if not u:
            return
        (new,), ret, ut = u
        us = [ev for ev in t.notes if ev.kind == "note:user"]
        c.check(len(us) >= 2 and not us[0].extra["mut"], R, f"{nm}: told before the leaf changes", f"{nm} changes the leaf before its user was told of it", w)
        h, piece = L.isv(ret, ut, "Some"), L.payload(ret, ut, "Some")
        slots = inserted(t, out, e.add(K, e.I(1)), [(h, piece)], nm, w)
        s2 = L.isv(lx, st[0], "Some")
        chk0(c, R, L, L.AND(out.g, L.b.XOR(s2, h)), f"{nm} tells which leaf is new", f"{nm} returns an index for a leaf it did not add, or none for one it did", w)
        if slots[0] is not UNDEF and L.payload(lx, st[0], "Some") is not UNDEF:
            same(c, R, L, t.xn(L.payload(lx, st[0], "Some")), slots[0], L.AND(out.g, h), f"{nm} returns where the new leaf is", f"{nm} returns the index of another leaf than the one it added", w)
        same(c, R, L, t.val(post, x), new, out.g, f"{nm}: the leaf is what the user made of it", f"{nm} changes the leaf after it was cut", w)
        local(t, t.top, start, out, w, nm, [(x, old)], some, rest, has)
    else:
        b = [ev for ev in t.notes if ev.kind == "note:below" and L.feasible(L.AND(ev.g, out.g))]
        if not c.check(len(b) == 1, R, f"{nm}: goes on with the child", f"{nm} does not go on in the child holding the offset", w):
            return
        y = b[0].extra
        chk0(c, R, L, L.AND(out.g, L.NOT(b[0].g)), f"{nm}: goes on with the child", f"{nm} does not always go on in the child holding the offset", w)
        same(c, R, L, y["node"], t.kidn(node, K, 0), out.g, f"{nm}: goes on with the child", f"{nm} goes on in another child than the one holding the offset", w)
        nums = [a for a, ty in zip(y["args"], y["tys"]) if ty == t.us]
        same(c, R, L, nums[0], at, out.g, f"{nm}: where to cut", f"{nm} goes on with a wrong offset in the child", w)
        c.check(y["fn"] == fn, R, f"{nm}: goes on in the same way", f"{nm} goes on with another operation in the child", w)
        below = y["ret"]
        bs = e.getf(below, rty, 0, 1)
        bsome, brest = L.isv(bs, st[1], "Some"), L.payload(bs, st[1], "Some")
        put_back(t, out, K, bsome, brest, has, nm, w)
        local(t, t.top, start, out, w, nm, [], some, rest, has)
        same_pair(t, lx, e.getf(below, rty, 0, 0), st[0], out, nm, w)


def range_deleted(c, leaf="run"):
    """Deleting what lies between two offsets that are in different children: the
    children in between go, the two holding the ends are cut there."""
    for has in (1, 0):
        between(c, has, leaf)


def between(c, has, leaf, only=False):
    R = STRUCT
    t, inst, w, lt, idx, pre, node = setup(c, "delete::delete_range_in_inode", ["delete::delete_from", "delete::delete_up_to"], has, leaf)
    t.node0 = node
    L, e = t.L, t.e
    nm = "delete_range_in_inode" + (" (leaves)" if has else " (nodes)")
    I1 = e.I(1)
    RT = lt[3]
    rg, bd, f, u = L.sym("range", RT), L.place("before", L.prog.types[lt[4]]["e"]), L.sym("f", lt[5]), L.sym("u", lt[6])
    a, b = L.f(rg, RT, "start"), L.f(rg, RT, "end")
    N = t.num(node)
    F = lambda k: e.app("len of first", t.us, t.kids(node), k)
    L.assume(e.lt(a, b))
    L.assume(L.NOT(e.lt(F(N), b)))
    L.assume(e.lt(F(N), e.I(2 ** 62)))
    t.apart = {t.LVT: [e.lenof(t.lnodes(pre), t.LVT)] if has else []}
    rv, out, rty = L.call(inst, L.ref(t.g), idx, rg, L.ref(bd), f, u)
    if not c.check(L.feasible(out.g) != 0, R, f"{nm} returns", f"{nm} never returns", w):
        return
    W = [r for r in Walk(t, node).recs if L.feasible(r.rec.cont)]
    if not c.check(len(W) == 2 and all(r.acc and r.k[3] == 1 for r in W), R, f"{nm}: goes through the children", f"{nm} does not go through the children to find the two holding the ends of the range", w):
        return
    r, d = W
    K, lo, D, dlo = r.k[0], r.k[1], d.k[0], d.k[1]
    L.assume(e.eq(F(e.I(0)), e.I(0)))
    for k in (K, D):
        L.assume(L.NOT(e.lt(F(e.add(k, I1)), F(k))))
        L.assume(L.OR(L.NOT(e.lt(k, N)), L.NOT(e.lt(F(N), F(e.add(k, I1))))))
        L.assume(L.NOT(e.lt(F(N), F(k))))
        L.assume(L.OR(L.NOT(e.eq(k, N)), e.eq(F(k), F(N))))
    # the first child touched
    same(c, R, L, lo, e.I(0), r.rec.g, f"{nm}: from the first child", f"{nm} does not start with the first child", w)
    for p, cand in r.acc:
        init = next(i for phi, (i, _, _) in r.rec.phis.items() if e.G1(phi) is p)
        same(c, R, L, init, e.I(0), r.rec.g, f"{nm}: no text before the first child", f"{nm} counts the text before a child wrongly", w)
    past = lambda k: e.lt(a, F(e.add(k, I1)))
    chk0(c, R, L, L.AND(r.rec.cont, past(K)), f"{nm}: stops at the child holding the start", f"{nm} goes past the child holding the start of the range", w)
    L.assume(L.NOT(e.lt(a, F(K))))
    chk0(c, R, L, L.AND(r.rec.cont, L.NOT(e.lt(K, N))), f"{nm}: children it has", f"{nm} goes past its last child", w)
    L.assume(L.NOT(e.lt(N, K)))
    chk0(c, R, L, L.AND(d.rec.g, L.NOT(past(K))), f"{nm}: reaches the child holding the start", f"{nm} stops before the child holding the start of the range", w)
    L.assume(past(K))
    L.assume(e.lt(K, N))
    # no one child holds all of the range
    L.assume(e.lt(F(e.add(K, I1)), b))
    # the last child touched
    same(c, R, L, dlo, e.add(K, I1), d.rec.g, f"{nm}: goes on behind it", f"{nm} does not go on with the child behind the one holding the start of the range", w)
    for p, cand in d.acc:
        init = next(i for phi, (i, _, _) in d.rec.phis.items() if e.G1(phi) is p)
        same(c, R, L, init, F(e.add(K, I1)), d.rec.g, f"{nm}: the text before a child", f"{nm} counts the text before a child wrongly", w)
        L.assume(e.eq(init, F(e.add(K, I1))))
    L.assume(e.eq(dlo, e.add(K, I1)))
    L.assume(e.lt(K, D))
    upto = lambda k: L.NOT(e.lt(F(e.add(k, I1)), b))
    chk0(c, R, L, L.AND(d.rec.cont, upto(D)), f"{nm}: stops at the child holding the end", f"{nm} goes past the child holding the end of the range", w)
    L.assume(e.lt(F(D), b))
    chk0(c, R, L, L.AND(d.rec.cont, L.NOT(e.lt(D, N))), f"{nm}: children it has", f"{nm} goes past its last child", w)
    L.assume(L.NOT(e.lt(N, D)))
    chk0(c, R, L, L.AND(out.g, L.NOT(upto(D))), f"{nm}: reaches the child holding the end", f"{nm} stops before the child holding the end of the range", w)
    gone = [ev for ev in t.notes if ev.kind == "note:gone" and L.feasible(ev.g)]
    if not c.check(len(gone) == 1 and gone[0].loop and e.loops.index(d.rec) == gone[0].loop[-1], R, f"{nm}: deletes the children in between", f"{nm} does not delete the children inside the range", w):
        return
    same(c, R, L, gone[0].extra["node"], t.top, gone[0].g, f"{nm}: children of its own", f"{nm} deletes children of another node", w)
    same(c, R, L, gone[0].extra["k"], D, gone[0].g, f"{nm}: deletes every child once", f"{nm} does not delete each child inside the range once", w)
    chk0(c, R, L, L.AND(d.rec.cont, L.NOT(gone[0].g)), f"{nm}: deletes every child", f"{nm} leaves out children it should delete", w)
    vals = {}
    for phi, (init, back, (root, path)) in d.rec.phis.items():
        if not (path and path[-1] == ("disc",)) and e.pathty(e.root_ty[root], path) in (t.IVT, t.LVT):
            vals[e.pathty(e.root_ty[root], path)] = (e.G1(phi), init, back)
    mid = start = pre
    for ty, f_ in ((t.IVT, "inodes"), (t.LVT, "lnodes")):
        if ty in vals:
            mid = t.putg(mid, f_, vals[ty][1])
    vec, know = frame(t, d.rec, mid, nm, w, gone=D)
    for ty, f_ in ((t.IVT, "inodes"), (t.LVT, "lnodes")):
        if ty in vals:
            start = t.putg(start, f_, vals[ty][0])
    L.assume(e.lt(D, N))
    for i in (0, 1):
        L.assume(L.NOT(e.eq(t.kidn(node, K, i), t.kidn(node, D, i))))
    for k in (K, D):
        if not has:
            L.assume(L.NOT(e.eq(t.kidn(node, k, 0), t.top)))
        t.child_of(pre, t.top, node, k)
        t.child_of(mid, t.top, node, k)
        know(t.IVT, t.top, [k])
        know(t.IVT, t.kidn(node, k, 0))
        know(t.LVT, t.kidn(node, k, 1))
    # what came before the loop, what after
    seq = gone[0].seq
    first = [ev for ev in t.notes if ev.seq < seq and L.feasible(ev.g)]
    then = [ev for ev in t.notes if ev.seq > seq and L.feasible(ev.g)]
    o = type("O", (), {})()
    o.g = L.AND(d.rec.g, e.lt(K, N))
    ends = []
    for evs, st, po, k, at, fn, who, og in ((first, pre, mid, K, e.sub(a, F(K)), "delete_from", lt[5], o), (then, start, None, D, e.sub(b, F(D)), "delete_up_to", lt[6], out)):
        ends.append(end_cut(t, nm + (": start" if fn == "delete_from" else ": end"), evs, st, po, k, at, fn, who, og, has, w))
    if None in ends:
        return
    h, x = L.isv, L.payload
    pair, sp = e.getf(rv, rty, 0, 0), e.getf(rv, rty, 0, 1)
    es = L.prog.types[rty]["es"]
    some, rest = L.isv(sp, es[1], "Some"), L.payload(sp, es[1], "Some")
    slots = put_both(t, nm, out, mid, start, then, [K, D], ends, has, w)
    # lengths
    local(t, t.top, pre, o, w, nm, [(t.kidn(node, K, 1), t.val(pre, t.kidn(node, K, 1)))] if has else [], 0, UNDEF, has, evs=first, post=mid, others=has)
    local(t, t.top, start, out, w, nm, [(t.kidn(node, D, 1), t.val(start, t.kidn(node, D, 1)))] if has else [], some, rest, has, evs=then, ins=False, others=has)
    forgets(t, nm, out, pre, w)
    # which leaves are new
    ps = L.prog.types[es[0]]["es"]
    for i, (hh, piece, lx) in enumerate(ends):
        got = e.getf(pair, es[0], 0, i)
        if has:
            g = L.isv(got, ps[i], "Some")
            chk0(c, R, L, L.AND(out.g, L.b.XOR(g, hh)), f"{nm} tells which leaf is new", f"{nm} returns an index for a leaf it did not add, or none for one it did", w)
            pl = L.payload(got, ps[i], "Some")
            if pl is not UNDEF and slots[i] is not UNDEF:
                same(c, R, L, t.xn(pl), slots[i], L.AND(out.g, hh), f"{nm} returns where the new leaf is", f"{nm} returns the index of another leaf than the one it added", w)
        else:
            same_pair(t, got, lx, ps[i], out, nm, w)


def end_cut(t, nm, evs, st, post, k, at, fn, who, out, has, w):
    """one end of the range: (whether something is split off there, what, leaf told of)"""
    c, L, e, R = t.c, t.L, t.e, STRUCT
    node = t.node(st, t.top)
    g0 = out.g
    if has:
        x = t.kidn(node, k, 1)
        us = [ev for ev in evs if ev.kind == "note:user" and L.feasible(L.AND(ev.g, g0))]
        if not c.check(len(us) == 2 and not us[0].extra["mut"] and us[1].extra["mut"], R, f"{nm}: the leaf is announced, then cut", f"{nm} does not announce the leaf to its user and then hand it over to be cut", w):
            return None
        for ev in us:
            chk0(c, R, L, L.AND(g0, L.NOT(ev.g)), f"{nm}: the leaf is handed over", f"{nm} does not always hand the leaf over", w)
        old = t.val(st, x)
        same(c, R, L, us[0].extra["args"][0][0], old, g0, f"{nm}: the leaf announced", f"{nm} announces something else than the leaf as it was", w)
        (v, new), (n, _) = us[1].extra["args"]
        c.check(us[1].extra["who"] in (None, who), R, f"{nm}: cut on the right side", f"{nm} uses the wrong one of the user's functions", w)
        same(c, R, L, v, old, g0, f"{nm}: the leaf cut", f"{nm} cuts another leaf", w)
        same(c, R, L, n, at, g0, f"{nm}: where it is cut", f"{nm} cuts the leaf in a wrong place", w)
        p = t.cur(out) if post is None else post
        same(c, R, L, t.val(p, x), new, g0, f"{nm}: the leaf is what the user made of it", f"{nm} changes the leaf after it was cut", w)
        ret, ty = us[1].extra["ret"], us[1].extra["rty"]
        return L.isv(ret, ty, "Some"), L.payload(ret, ty, "Some"), None
    b = [ev for ev in evs if ev.kind == "note:below" and L.feasible(L.AND(ev.g, g0))]
    if not c.check(len(b) == 1, R, f"{nm}: goes on with the child", f"{nm} does not go on in the child holding the end of the range", w):
        return None
    y = b[0].extra
    chk0(c, R, L, L.AND(g0, L.NOT(b[0].g)), f"{nm}: goes on with the child", f"{nm} does not always go on in the child holding the end of the range", w)
    same(c, R, L, y["node"], t.kidn(node, k, 0), g0, f"{nm}: goes on with the child", f"{nm} goes on in another child than the one holding the end of the range", w)
    nums = [x for x, ty in zip(y["args"], y["tys"]) if ty == t.us]
    same(c, R, L, nums[0], at, g0, f"{nm}: where to cut", f"{nm} goes on with a wrong offset in the child", w)
    c.check(y["fn"] == fn and y["tys"][-1] == who, R, f"{nm}: cut on the right side", f"{nm} deletes on the wrong side of the cut", w)
    es = L.prog.types[y["rty"]]["es"]
    s = e.getf(y["ret"], y["rty"], 0, 1)
    return L.isv(s, es[1], "Some"), L.payload(s, es[1], "Some"), e.getf(y["ret"], y["rty"], 0, 0)


def put_both(t, nm, out, mid, start, evs, at, ends, has, w):
    """what was split off at either end is put behind what it was split off"""
    c, L, e, R = t.c, t.L, t.e, STRUCT
    hs = [x[0] for x in ends]
    had, slots = [0, 0], [UNDEF, UNDEF]
    post = t.cur(out)
    pend, ns = 0, []
    for ev in evs:
        if ev.kind != "note:insert":
            continue
        g = L.AND(ev.g, out.g)
        if not L.feasible(g):
            continue
        x = ev.extra
        chk0(c, R, L, L.AND(g, L.NOT(e.eq(x["node"], t.top))), f"{nm}: added to the right node", f"{nm} adds a child to another node than the one it works on", w)
        for pos, (where, kid, ln) in enumerate(x["ins"]):
            for i in (0, 1):
                if len(x["ins"]) == 2 and i != pos:
                    continue
                gi = g if len(x["ins"]) == 2 else L.AND(g, hs[i], L.NOT(had[i]))
                if len(x["ins"]) == 1 and i == 1:
                    gi = L.AND(gi, L.NOT(hs[0]))
                if not L.feasible(gi):
                    continue
                side = nm + (": start", ": end")[i]
                same(c, R, L, where, e.add(at[i], e.I(1)), gi, f"{side}: behind its other half", f"{nm} does not put what was split off a child right behind it", w)
                ref = mid if i == 0 else x["g0"]
                if has:
                    n = t.kid_leaf(kid)
                    same(c, R, L, t.val(ref, n), ends[i][1], gi, f"{side}: the other half", f"{nm} puts another leaf in the tree than the one split off", w)
                    same(c, LEN, L, ln, t.leaflen(t.val(ref, n)), gi, f"{side}: a new child's length", f"{nm} adds a leaf with a wrong length to the node", w)
                    same(c, R, L, t.par(ref, n), t.top, gi, f"{side}: a new child knows its node", f"{nm} adds a leaf that does not know its node", w)
                    same(c, R, L, t.val(post, n), t.val(start if i == 0 else x["g0"], n), gi, f"{side}: the other half stays", f"{nm} changes what was split off", w)
                    slots[i] = n if slots[i] is UNDEF else e.mux(gi, n, slots[i])
                else:
                    n = t.n(e.getf(kid, t.NT, 0, t.names(t.NT).index("internal")))
                    q = t.node(ref, n)
                    for f in ("tot_len", "num_children", "children", "has_leaves"):
                        same(c, R, L, t.f(q, f), t.f(ends[i][1], f), gi, f"{side}: the other half", f"{nm} puts another node in the tree than the one split off the child", w)
                        same(c, R, L, t.f(t.node(post, n), f), t.f(t.node(start if i == 0 else x["g0"], n), f), gi, f"{side}: the other half stays", f"{nm} changes what was split off", w)
                    same(c, LEN, L, ln, t.tot(q), gi, f"{side}: a new child's length", f"{nm} adds a node with a wrong length", w)
                    ok = 0
                    for pv in t.notes:
                        if pv.kind == "note:push":
                            ok = L.OR(ok, L.AND(pv.g, e.eq(pv.extra["idx"], n), e.eq(t.n(pv.extra["parent"]), t.top)))
                    chk0(c, R, L, L.AND(gi, L.NOT(ok)), f"{side}: a new child knows its node", f"{nm} adds a node that was there already, or does not know its parent", w)
                had[i] = L.OR(had[i], gi)
    for i in (0, 1):
        chk0(c, R, L, L.AND(out.g, L.b.XOR(had[i], hs[i])), f"{nm}: a child's other half is put in the tree", f"{nm} loses what was split off a child", w)
    return slots


class Del(Rec):
    """Deleting whole leaves and nodes."""

    def __init__(self, c, leaf="run"):
        Rec.__init__(self, c, leaf=leaf)
        e = self.e
        del e.userm[G + "delete_child"], e.userm[G + "child_measure"]
        e.userm[G + "delete_inode"] = self.m_delinode
        for n in ("<cola::run_tree::EditRun as cola::gtree::Delete>::delete", "cola::gtree::Delete::delete"):
            e.userm[n] = self.m_delleaf

    def m_delleaf(self, e, c, st):
        v, tg, ty = models.deref(e, c, 0, st)
        if ty != self.LT:
            return NotImplemented
        new = self.fresh(self.LT, "deleted leaf")
        self.L.assume(e.eqc(self.leaflen(new), 0))
        self.note("deleted", c, st, leaf=v, new=new)
        return models.unit(e, c.dty), self.wr(st, tg, new)

    def m_delinode(self, e, c, st):
        L = self.L
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        i = self.n(c.args[1])
        self.note("node gone", c, st, node=i, g0=g)
        iv = self.havoc(self.inodes(g), self.IVT, "tot_len")
        iv = e.puti(iv, self.IVT, i, self.putn(self.node(g, i), tot_len=e.I(0)))
        if self.top is not None:
            iv = e.puti(iv, self.IVT, self.top, self.node(g, self.top))
        g1 = self.putg(g, "inodes", iv)
        g1 = self.putg(g1, "lnodes", self.havoc(self.lnodes(g), self.LVT, "value"))
        return models.unit(e, c.dty), self.wr(st, tg, g1)


def told_first(t, g, old, what, w):
    """the one leaf deleted under g: announced as it was, then deleted"""
    L, e, c, R = t.L, t.e, t.c, STRUCT
    us = [ev for ev in t.notes if ev.kind == "note:user" and L.feasible(L.AND(ev.g, g))]
    ds = [ev for ev in t.notes if ev.kind == "note:deleted" and L.feasible(L.AND(ev.g, g))]
    if not c.check(len(ds) == 1, R, f"{what}: the leaf is deleted", f"{what} does not delete the leaf", w):
        return None
    d = ds[0]
    chk0(c, R, L, L.AND(g, L.NOT(d.g)), f"{what}: the leaf is deleted", f"{what} does not always delete the leaf", w)
    same(c, R, L, d.extra["leaf"], old, L.AND(g, d.g), f"{what}: the leaf", f"{what} deletes another leaf", w)
    if c.check(len(us) == 1 and us[0].seq < d.seq, R, f"{what}: told before the leaf changes", f"{what} does not tell its user of the leaf once, and before it is deleted", w):
        chk0(c, R, L, L.AND(g, L.NOT(us[0].g)), f"{what}: told of every leaf", f"{what} does not tell its user of every leaf it deletes", w)
        same(c, R, L, us[0].extra["args"][0][0], old, L.AND(g, us[0].g), f"{what}: told of the leaf as it was", f"{what} tells its user of something else than the leaf it deletes", w)
    return d


def dsetup(c, fn, has, leaf):
    t = Del(c, leaf=leaf)
    inst = t.inst(fn)
    c.analysed.add(inst["def"])
    L, e = t.L, t.e
    lt = inst["body"]["locals"]
    idx = L.sym("node", t.IDX)
    pre = t.cur()
    t.top = t.n(idx)
    L.assume(e.lt(t.top, e.lenof(t.inodes(pre), t.IVT)))
    node = t.node(pre, t.top)
    t.sane(node)
    L.assume(L.NOT(e.eqc(t.num(node), 0)))
    h = L.G(t.f(node, "has_leaves"))
    L.assume(h if has else L.NOT(h))
    return t, inst, where_(inst), lt, idx, pre, node


def child_gone(c, leaf="run"):
    """A deleted child has no length left, and its node is shorter by what it was."""
    R = STRUCT
    fn = "delete_child"
    for has in (1, 0):
        t, inst, w, lt, idx, pre, node = dsetup(c, fn, has, leaf)
        L, e = t.L, t.e
        k = L.sym("child", t.us)
        L.assume(e.lt(k, t.num(node)))
        t.child_of(pre, t.top, node, k)
        nm = fn + (" (leaf)" if has else " (node)")
        bd = L.place("before", L.prog.types[lt[4]]["e"])
        rv, out, rty = L.call(inst, L.ref(t.g), idx, k, L.ref(bd))
        chk0(c, R, L, L.NOT(out.g), f"{nm} returns", f"{nm} fails", w)
        post = t.cur(out)
        if has:
            x = t.kidn(node, k, 1)
            old = t.val(pre, x)
            d = told_first(t, out.g, old, nm, w)
            was = t.leaflen(old)
            if d:
                same(c, R, L, t.val(post, x), d.extra["new"], out.g, f"{nm}: the leaf is deleted", f"{nm} changes the leaf after it was deleted", w)
            lv, iv = t.lnodes(pre), t.inodes(pre)
            j = L.sym("any leaf", t.us)
            same(c, R, L, t.val(post, j), t.val(pre, j), L.AND(out.g, e.lt(j, e.lenof(lv, t.LVT)), L.NOT(e.eq(j, x))), f"{nm}: other leaves stay", f"{nm} changes other leaves", w)
        else:
            y = t.kidn(node, k, 0)
            was = t.tot(t.node(pre, y))
            ns = [ev for ev in t.notes if ev.kind == "note:node gone"]
            if c.check(len(ns) == 1, R, f"{nm}: the node is deleted", f"{nm} does not delete the child", w):
                chk0(c, R, L, L.AND(out.g, L.NOT(ns[0].g)), f"{nm}: the node is deleted", f"{nm} does not always delete the child", w)
                same(c, R, L, ns[0].extra["node"], y, out.g, f"{nm}: the child named", f"{nm} deletes another node", w)
        same(c, LEN, L, t.tot(t.node(post, t.top)), e.sub(t.tot(node), was), out.g, f"{nm}: the node is shorter by it", f"{nm} does not make the node shorter by the length its child had", w)
        for f in ("num_children", "children", "has_leaves", "parent"):
            same(c, R, L, t.f(t.node(post, t.top), f), t.f(node, f), out.g, f"{nm}: places stay", f"{nm} moves nodes or leaves it should only delete", w)
        for f in ("cursor", "root_idx"):
            same(c, R, L, L.f(post, t.GT, f), L.f(pre, t.GT, f), out.g, f"{nm}: {f}", f"{nm} changes the tree's {f}", w)
    fn = "delete_inode"
    for has in (1, 0):
        t, inst, w, lt, idx, pre, node = dsetup(c, fn, has, leaf)
        L, e = t.L, t.e
        nm = fn + (" (leaves)" if has else " (nodes)")
        bd = L.place("before", L.prog.types[lt[3]]["e"])
        rv, out, rty = L.call(inst, L.ref(t.g), idx, L.ref(bd))
        c.check(L.feasible(out.g) != 0, R, f"{nm} returns", f"{nm} never returns", w)
        W = [r for r in Walk(t, node, lens=False).recs if L.feasible(r.rec.cont)]
        if not c.check(len(W) == 1, R, f"{nm}: goes through the children", f"{nm} does not go through the children of the node", w):
            continue
        r = W[0]
        k, lo, hi, dr = r.k
        N = t.num(node)
        vec, know = frame(t, r.rec, pre, nm, w)
        if dr > 0:
            same(c, R, L, lo, e.I(0), r.rec.g, f"{nm}: from the first child", f"{nm} does not start with the first child", w)
            chk0(c, R, L, L.AND(out.g, e.lt(k, N)), f"{nm}: to the last child", f"{nm} stops before the last child", w)
        else:
            same(c, R, L, lo, e.sub(N, e.I(1)), r.rec.g, f"{nm}: from the last child", f"{nm} does not start with the last child", w)
            chk0(c, R, L, L.AND(out.g, L.NOT(e.eq(k, e.sub(e.I(0), e.I(1))))), f"{nm}: to the first child", f"{nm} stops before the first child", w)
        t.child_of(pre, t.top, node, k)
        x, y = t.kidn(node, k, 1), t.kidn(node, k, 0)
        know(t.IVT, t.top, [k])
        know(t.LVT, x)
        know(t.IVT, y)
        inl = [ev for ev in t.notes if ev.loop]
        if has:
            if not c.check(t.LVT in vec, R, f"{nm}: leaves are deleted", f"{nm} does not delete its leaves", w):
                continue
            v, init, back = vec[t.LVT]
            vf = lambda q, n: e.getf(e.geti(q, t.LVT, n), t.LNT, 0, t.names(t.LNT).index("value"))
            d = told_first(t, r.rec.cont, vf(v, x), nm, w)
            j = L.sym("any leaf", t.us)
            same(c, R, L, vf(back, j), vf(v, j), L.AND(r.rec.cont, L.NOT(e.eq(j, x))), f"{nm}: other leaves stay", f"{nm} changes other leaves", w)
            if d:
                same(c, R, L, vf(back, x), d.extra["new"], r.rec.cont, f"{nm}: the leaf is deleted", f"{nm} changes a leaf after it was deleted", w)
        else:
            ns = [ev for ev in t.notes if ev.kind == "note:node gone"]
            if c.check(len(ns) == 1 and ns[0].loop, R, f"{nm}: the children are deleted", f"{nm} does not delete the children of the node", w):
                chk0(c, R, L, L.AND(r.rec.cont, L.NOT(ns[0].g)), f"{nm}: every child", f"{nm} leaves out children it should delete", w)
                same(c, R, L, ns[0].extra["node"], y, ns[0].g, f"{nm}: each child", f"{nm} deletes another node than the child it has come to", w)
        post = t.cur(out)
        # the node's own length
        zero = e.eqc(t.tot(t.node(post, t.top)), 0)
        if t.IVT in vec:
            v, init, back = vec[t.IVT]
            own = lambda q: t.tot(e.geti(q, t.IVT, t.top))
            inv = L.feasible(L.AND(r.rec.g, L.NOT(e.eqc(own(init), 0)))) == 0 and L.feasible(L.AND(r.rec.cont, e.eqc(own(v), 0), L.NOT(e.eqc(own(back), 0)))) == 0
            if inv:
                L.assume(e.eqc(own(v), 0))
        chk0(c, LEN, L, L.AND(out.g, L.NOT(zero)), f"{nm}: no length is left", f"{nm} leaves the deleted node with a length", w)
        for f in ("num_children", "has_leaves"):
            if t.IVT not in vec:
                same(c, R, L, t.f(t.node(post, t.top), f), t.f(node, f), out.g, f"{nm}: places stay", f"{nm} moves nodes or leaves it should only delete", w)
        for f in ("cursor", "root_idx"):
            same(c, R, L, L.f(post, t.GT, f), L.f(pre, t.GT, f), out.g, f"{nm}: {f}", f"{nm} changes the tree's {f}", w)


class Top(Rec):
    """The operations on offsets, in terms of those on leaves and nodes."""

    def __init__(self, c, leaf="run"):
        Rec.__init__(self, c, leaf=leaf)
        L, e = self.L, self.e
        del e.userm[G + "delete_child"], e.userm[G + "child_measure"]
        for f in (G + "delete_range_in_leaf", G + "insert_at_leaf", G + "root_has_split", MOD + "insert::insert_at_offset", MOD + "delete::delete_range_in_inode"):
            e.userm[f] = self.m_call
        e.userm[G + "bubble"] = self.m_passed
        self.offsets()
        g = self.cur()
        some, n, off, ci = self.cur0
        L.assume(L.OR(L.NOT(some), e.lt(e.add(off, self.leaflen(self.val(g, n))), e.I(2 ** 62))))
        L.assume(e.eqc(self.O(self.n(L.f(g, self.GT, "root_idx"))), 0))

    def O(self, n):
        """where the text of a node starts"""
        return self.e.app("offset of node", self.us, n)

    def m_call(self, e, c, st):
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        g1 = self.fresh(self.GT, "tree after")
        if "delete::" in c.inst["def"]:
            g1 = self.putg(g1, "cursor", self.L.f(g, self.GT, "cursor"))
        rv = models.unit(e, c.dty) if self.L.prog.types[c.dty]["k"] == "tuple" and not self.L.prog.types[c.dty]["es"] else self.fresh(c.dty, "result")
        self.note("call", c, st, fn=c.inst["def"].rsplit("::", 1)[1], args=list(c.args), tys=list(c.atys), ret=rv, rty=c.dty, g0=g, g1=g1)
        return rv, self.wr(st, tg, g1)

    def m_passed(self, e, c, st):
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        idx, split, diff, ldiff = c.args[1:5]
        OT = c.atys[2]
        self.note("bubble", c, st, node=self.n(idx), some=self.L.isv(split, OT, "Some"), rest=self.L.payload(split, OT, "Some"), d=self.dv(diff), ld=self.dv(ldiff), g0=g)
        g1 = self.putg(self.fresh(self.GT, "tree after"), "cursor", self.L.f(g, self.GT, "cursor"))
        return models.unit(e, c.dty), self.wr(st, tg, g1)

    def m_find(self, e, c, st):
        r = Rec.m_find(self, e, c, st)
        if r is NotImplemented:
            return r
        ev = self.notes[-1].extra
        L, at, k, off, g = self.L, ev["at"], ev["k"], ev["off"], ev["g0"]
        h = L.G(self.f(at, "has_leaves"))
        x, y = self.kidn(at, k, 1), self.kidn(at, k, 0)
        here = e.add(self.O(ev["node"]), off)
        L.assume(L.OR(L.NOT(h), e.eq(self.off(x), here)))
        L.assume(L.OR(h, e.eq(self.O(y), here)))
        L.assume(L.OR(L.NOT(h), e.eq(self.number(at, x), k)))
        t = L.prog.types[c.atys[2]]
        if t["k"] == "adt":
            a, b = (L.f(c.args[2], c.atys[2], f) for f in ("start", "end"))
            ev.update(a=a, b=b)
            L.assume(L.NOT(L.AND(ev["some"], e.lt(a, off))))
            L.assume(L.NOT(L.AND(ev["some"], h, e.lt(e.add(off, self.leaflen(self.val(g, x))), b))))
            L.assume(L.NOT(L.AND(ev["some"], e.lt(b, off))))
            L.assume(L.NOT(L.AND(ev["some"], e.lt(e.I(2 ** 62), b))))
        return r

    def nonempty(self, c, st, back):
        r = Rec.nonempty(self, c, st, back)
        if r is NotImplemented:
            return r
        e, L = self.e, self.L
        ev = self.notes[-1].extra
        g, x, y = ev["g0"], ev["leaf"], ev["found"]
        p = self.par(g, y)
        for f in (e.lt(y, e.lenof(self.lnodes(g), self.LVT)), e.lt(p, e.lenof(self.inodes(g), self.IVT)), e.eq(ev["j"], self.number(self.node(g, p), y))):
            L.assume(L.OR(L.NOT(ev["some"]), f))
        a, b = (y, x) if back else (x, y)
        L.assume(L.OR(L.NOT(ev["some"]), e.eq(self.off(b), e.add(self.off(a), self.leaflen(self.val(g, a))))))
        L.assume(e.lt(self.leaflen(self.val(g, y)), e.I(2 ** 61)))
        return r


def at_leaf(t, ev, nm, w, x, off, ci, g0):
    """an operation on a leaf is given where the leaf is"""
    c, L, e = t.c, t.L, t.e
    same(c, CURSOR, L, off, t.off(x), ev.g, f"{nm}: where the leaf starts", f"{nm} works on a leaf with a wrong offset for where it starts", w)
    node = t.node(g0, t.par(g0, x))
    chk0(c, CURSOR, L, L.AND(ev.g, L.NOT(e.eq(ci, t.number(node, x)))), f"{nm}: the leaf's place in its node", f"{nm} works on a leaf with a wrong place in its node", w)


def untouched(t, ev, pre, nm, w):
    c, L = t.c, t.L
    for f in ("inodes", "lnodes", "root_idx"):
        same(c, STRUCT, L, L.f(ev.extra["g0"], t.GT, f), L.f(pre, t.GT, f), ev.g, f"{nm}: nothing is changed on the way", f"{nm} changes the tree before it has come to the place", w)


def descent(t, want, nm, w):
    """What holds whenever the loop looks at a node: the numbers still to be found
    are the ones given (`want`), less what comes before the node."""
    c, L, e = t.c, t.L, t.e
    for rec in e.loops:
        ph = []
        for phi, (init, back, (root, path)) in rec.phis.items():
            if path and path[-1] == ("disc",) or e.pathty(e.root_ty[root], path) != t.us or init is UNDEF or back is UNDEF:
                continue
            if init.k == "G" and back.k == "G":
                ph.append((e.G1(phi), init, back))
        known, more = set(), True
        while more:
            more = False
            for j, (q, qi, qb) in enumerate(ph):
                for i, (p, pi, pb) in enumerate(ph):
                    if p is q:
                        continue
                    for k, x in enumerate([None] + want):
                        if (i, j, k) in known:
                            continue
                        f = lambda n: t.O(n) if x is None else e.sub(x, t.O(n))
                        if L.diff(pi, f(qi), rec.g):
                            continue
                        if L.feasible(L.AND(rec.cont, e.eq(p, f(q)), L.NOT(e.eq(pb, f(qb))))) == 0:
                            L.assume(e.eq(p, f(q)))
                            known.add((i, j, k))
                            more = True


def by_offset(c, leaf="run"):
    """Insertions and deletions at offsets: whether or not the place is remembered, they
    are done at the leaf or node holding the offsets."""
    R = STRUCT
    # insert
    fn = "insert"
    t = Top(c, leaf)
    L, e = t.L, t.e
    inst = t.inst(fn)
    c.analysed.add(inst["def"])
    w, lt = where_(inst), inst["body"]["locals"]
    pre = t.cur()
    at, f = L.sym("offset", t.us), L.sym("f", lt[3])
    rv, out, rty = L.call(inst, L.ref(t.g), at, f)
    calls = [ev for ev in t.notes if ev.kind == "note:call"]
    done = 0
    for ev in calls:
        x, g = ev.extra, ev.g
        if not L.feasible(g):
            continue
        if x["fn"] == "root_has_split":
            continue
        chk0(c, R, L, L.AND(g, done), f"{fn}: once", f"{fn} may insert twice", w)
        done = L.OR(done, g)
        untouched(t, ev, pre, fn, w)
        c.check(x["tys"][-1] == lt[3], R, f"{fn}: hands on what its user does", f"{fn} does not hand on the user's function", w)
        if x["fn"] == "insert_at_leaf":
            _, lx, off, ci, rel = x["args"][:5]
            n = t.xn(lx)
            at_leaf(t, ev, fn, w, n, off, ci, x["g0"])
            same(c, R, L, rel, e.sub(at, off), g, f"{fn}: where in the leaf", f"{fn} inserts at a wrong place in the leaf", w)
            chk0(c, CURSOR, L, L.AND(g, L.NOT(e.lt(off, at))), f"{fn}: in the leaf holding the offset", f"{fn} inserts in the leaf it remembers although the offset belongs to the one before it", w)
            chk0(c, CURSOR, L, L.AND(g, e.lt(e.add(off, t.leaflen(t.val(x["g0"], n))), at)), f"{fn}: in the leaf holding the offset", f"{fn} inserts in the leaf it remembers although the offset is beyond it", w)
            same(c, R, L, e.getf(rv, rty, 0, 0), e.getf(x["ret"], x["rty"], 0, 0), L.AND(g, out.g), f"{fn}: result", f"{fn} does not return which leaves are new", w)
            same(c, R, L, e.getf(rv, rty, 0, 1), e.getf(x["ret"], x["rty"], 0, 1), L.AND(g, out.g), f"{fn}: result", f"{fn} does not return which leaves are new", w)
            after = x["g1"]
        else:
            _, n, lo, off = x["args"][:4]
            same(c, R, L, t.n(n), t.n(L.f(pre, t.GT, "root_idx")), g, f"{fn}: from the root down", f"{fn} does not search from the root", w)
            same(c, R, L, lo, e.I(0), g, f"{fn}: where the root starts", f"{fn} does not count from the start of the text", w)
            same(c, R, L, off, at, g, f"{fn}: the offset", f"{fn} inserts at another offset", w)
            es = L.prog.types[x["rty"]]["es"]
            sp = e.getf(x["ret"], x["rty"], 0, 1)
            some, rest = L.isv(sp, es[1], "Some"), L.payload(sp, es[1], "Some")
            up = [v for v in calls if v.extra["fn"] == "root_has_split" and v.seq > ev.seq]
            had = 0
            for v in up:
                gg = L.AND(v.g, g)
                chk0(c, R, L, L.AND(gg, had), f"{fn}: one new root", f"{fn} adds two roots", w)
                had = L.OR(had, gg)
                for ff in ("tot_len", "num_children", "children", "has_leaves"):
                    same(c, R, L, t.f(v.extra["args"][1], ff), t.f(rest, ff), gg, f"{fn}: the root's other half", f"{fn} puts something else in the tree than what was split off the root", w)
            chk0(c, R, L, L.AND(g, out.g, L.b.XOR(had, some)), f"{fn}: a split root gets a new root", f"{fn} loses what was split off the root", w)
            pr = e.getf(x["ret"], x["rty"], 0, 0)
            for i in (0, 1):
                same(c, R, L, e.getf(rv, rty, 0, i), e.getf(pr, es[0], 0, i), L.AND(g, out.g), f"{fn}: result", f"{fn} does not return which leaves are new", w)
    chk0(c, R, L, L.AND(out.g, L.NOT(done)), f"{fn}: inserts", f"{fn} may insert nothing", w)
    chk0(c, R, L, L.NOT(out.g), f"{fn} returns", f"{fn} fails", w)
    # delete
    fn = "delete"
    t = Top(c, leaf)
    L, e = t.L, t.e
    inst = t.inst(fn)
    c.analysed.add(inst["def"])
    w, lt = where_(inst), inst["body"]["locals"]
    pre = t.cur()
    RT = lt[2]
    rg = L.sym("range", RT)
    a, b = L.f(rg, RT, "start"), L.f(rg, RT, "end")
    L.assume(e.lt(a, b))
    L.assume(e.lt(b, e.I(2 ** 62)))
    fs = [L.sym(f"f{i}", lt[i]) for i in (4, 5, 6)]
    rv, out, rty = L.call(inst, L.ref(t.g), rg, L.sym("before", lt[3]), *fs)
    c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
    descent(t, [a, b], fn, w)
    finds = [ev for ev in t.notes if ev.kind == "note:find" and L.feasible(ev.g)]
    for ev in finds:
        x = ev.extra
        for p, q, s in ((x["a"], a, "start"), (x["b"], b, "end")):
            same(c, R, L, p, e.sub(q, t.O(x["node"])), ev.g, f"{fn}: the {s} in each node", f"{fn} looks for a wrong {s} of the range in a node", w)
    for ev in [ev for ev in t.notes if ev.kind == "note:sibling" and L.feasible(ev.g)]:
        x = ev.extra
        chk0(c, CURSOR, L, L.AND(ev.g, L.NOT(e.eq(x["i"], t.number(t.node(x["g0"], t.par(x["g0"], x["leaf"])), x["leaf"])))), f"{fn}: the leaf's place in its node", f"{fn} looks for the next leaf from a wrong place in the node", w)
    done = 0
    post = t.cur(out)
    for ev in [v for v in t.notes if v.kind == "note:call" and L.feasible(v.g)]:
        x, g = ev.extra, ev.g
        chk0(c, R, L, L.AND(g, done), f"{fn}: once", f"{fn} may delete twice", w)
        done = L.OR(done, g)
        untouched(t, ev, pre, fn, w)
        rr = next(v for v, ty in zip(x["args"], x["tys"]) if ty == RT)
        s0, e0 = L.f(rr, RT, "start"), L.f(rr, RT, "end")
        if x["fn"] == "delete_range_in_leaf":
            _, lx, off, ci = x["args"][:4]
            n = t.xn(lx)
            at_leaf(t, ev, fn, w, n, off, ci, x["g0"])
            same(c, R, L, s0, e.sub(a, off), g, f"{fn}: the start in the leaf", f"{fn} deletes from a wrong place in the leaf", w)
            same(c, R, L, e0, e.sub(b, off), g, f"{fn}: the end in the leaf", f"{fn} deletes up to a wrong place in the leaf", w)
            chk0(c, CURSOR, L, L.AND(g, e.lt(a, off)), f"{fn}: all of the range is in the leaf", f"{fn} works in one leaf although the range starts before it", w)
            chk0(c, CURSOR, L, L.AND(g, e.lt(e.add(off, t.leaflen(t.val(x["g0"], n))), b)), f"{fn}: all of the range is in the leaf", f"{fn} works in one leaf although the range ends beyond it", w)
            c.check(x["tys"][-1] == lt[4], R, f"{fn}: hands on what its user does", f"{fn} does not hand on the user's function", w)
            for i in (0, 1):
                same(c, R, L, e.getf(rv, rty, 0, i), e.getf(x["ret"], x["rty"], 0, i), L.AND(g, out.g), f"{fn}: result", f"{fn} does not return which leaves are new", w)
        else:
            n = t.n(x["args"][1])
            same(c, R, L, s0, e.sub(a, t.O(n)), g, f"{fn}: the start in the node", f"{fn} deletes from a wrong place in the node", w)
            same(c, R, L, e0, e.sub(b, t.O(n)), g, f"{fn}: the end in the node", f"{fn} deletes up to a wrong place in the node", w)
            c.check(x["tys"][-2:] == [lt[5], lt[6]], R, f"{fn}: hands on what its user does", f"{fn} does not hand on the user's functions", w)
            split = 0
            for v in finds:
                split = L.OR(split, L.AND(v.g, e.eq(v.extra["node"], n), L.NOT(v.extra["some"])))
            chk0(c, R, L, L.AND(g, L.NOT(split)), f"{fn}: goes down as far as it can", f"{fn} deletes across the children of a node although one of them may hold all of the range", w)
            es = L.prog.types[x["rty"]]["es"]
            pr, sp = e.getf(x["ret"], x["rty"], 0, 0), e.getf(x["ret"], x["rty"], 0, 1)
            some, rest = L.isv(sp, es[1], "Some"), L.payload(sp, es[1], "Some")
            had = 0
            for v in [v for v in t.notes if v.kind == "note:bubble" and v.seq > ev.seq]:
                y, gg = v.extra, L.AND(v.g, g)
                had = L.OR(had, gg)
                same(c, R, L, y["node"], n, gg, f"{fn}: ancestors are told", f"{fn} tells the ancestors of another node of the change", w)
                chk0(c, R, L, L.AND(gg, L.b.XOR(y["some"], some)), f"{fn}: a split is passed on", f"{fn} loses what was split off the node", w)
                for ff in ("tot_len", "num_children", "children", "has_leaves"):
                    same(c, R, L, t.f(y["rest"], ff), t.f(rest, ff), L.AND(gg, some), f"{fn}: a split is passed on", f"{fn} passes on something else than what was split off the node", w)
                old, new = t.tot(t.node(x["g0"], n)), t.tot(t.node(x["g1"], n))
                tot = e.add(new, e.mux(some, t.tot(rest), e.I(0)))
                same(c, LEN, L, e.add(old, y["d"]), new, L.AND(gg, some), f"{fn}: ancestors learn the new length", f"{fn} tells the ancestors a wrong length when the node was split", w)
                same(c, LEN, L, e.add(old, y["ld"]), tot, gg, f"{fn}: ancestors learn the new length", f"{fn} tells the ancestors a wrong difference in length", w)
            chk0(c, R, L, L.AND(g, out.g, L.NOT(had)), f"{fn}: ancestors are told", f"{fn} does not tell the ancestors of the node that it changed", w)
            CT = t.CT
            chk0(c, CURSOR, L, L.AND(g, out.g, L.NOT(L.isv(L.f(post, t.GT, "cursor"), CT, "None"))), f"{fn}: nothing is remembered", f"{fn} keeps remembering a position although text before it may be gone", w)
            for i in (0, 1):
                same(c, R, L, e.getf(rv, rty, 0, i), e.getf(pr, es[0], 0, i), L.AND(g, out.g), f"{fn}: result", f"{fn} does not return which leaves are new", w)
    chk0(c, R, L, L.AND(out.g, L.NOT(done)), f"{fn}: deletes", f"{fn} may delete nothing", w)
    # delete within a leaf
    fn = "delete_leaf_range"
    t = Top(c, leaf)
    L, e = t.L, t.e
    inst = t.inst(fn)
    c.analysed.add(inst["def"])
    w, lt = where_(inst), inst["body"]["locals"]
    x, p, node, ci = t.leafidx("leaf")
    pre = t.cur()
    off, rg = L.sym("offset", t.us), L.sym("range", RT)
    rv, out, rty = L.call(inst, L.ref(t.g), x, off, rg, L.sym("before", lt[5]), L.sym("f", lt[6]))
    calls = [v for v in t.notes if v.kind == "note:call" and L.feasible(L.AND(v.g, out.g))]
    if c.check(len(calls) == 1 and calls[0].extra["fn"] == "delete_range_in_leaf", R, f"{fn}: deletes", f"{fn} does not delete in the leaf", w):
        ev = calls[0]
        y = ev.extra
        chk0(c, R, L, L.AND(out.g, L.NOT(ev.g)), f"{fn}: deletes", f"{fn} may delete nothing", w)
        untouched(t, ev, pre, fn, w)
        same(c, R, L, t.xn(y["args"][1]), t.xn(x), ev.g, f"{fn}: the leaf", f"{fn} deletes in another leaf", w)
        same(c, CURSOR, L, y["args"][2], off, ev.g, f"{fn}: where it starts", f"{fn} changes where the leaf starts", w)
        same(c, R, L, y["args"][3], ci, ev.g, f"{fn}: its place", f"{fn} works on a leaf with a wrong place in its node", w)
        for q in ("start", "end"):
            same(c, R, L, L.f(y["args"][4], RT, q), L.f(rg, RT, q), ev.g, f"{fn}: the range", f"{fn} deletes another range", w)
        for i in (0, 1):
            same(c, R, L, e.getf(rv, rty, 0, i), e.getf(y["ret"], y["rty"], 0, i), out.g, f"{fn}: result", f"{fn} does not return which leaves are new", w)


def found_again(c, leaf="run"):
    """Looking for an offset finds the remembered leaf only if that is the one."""
    fn = "leaf_at_offset"
    t = Top(c, leaf)
    L, e = t.L, t.e
    inst = t.inst(fn)
    c.analysed.add(inst["def"])
    w = where_(inst)
    pre = t.cur()
    some, n, off, ci = t.cur0
    at = L.sym("offset", t.us)
    rv, out, rty = L.call(inst, L.ref(t.g), at)
    x, o = t.xn(e.getf(rv, rty, 0, 0)), e.getf(rv, rty, 0, 1)
    end = e.add(off, t.leaflen(t.val(pre, n)))
    here = L.AND(some, e.lt(off, at), L.NOT(e.lt(end, at)))
    k = e.G1(n) if n.k != "G" else n
    for tm, g in e.galts(x):
        if L.diff(e.G1(tm), k, L.AND(out.g, g)) == 0 and L.feasible(L.AND(out.g, g)):
            chk0(c, CURSOR, L, L.AND(out.g, g, L.NOT(here)), f"{fn}: the remembered leaf", f"{fn} finds the leaf it remembers although the offset is not in it", w)
            same(c, CURSOR, L, o, off, L.AND(out.g, g), f"{fn}: where it starts", f"{fn} tells a wrong offset for the leaf it remembers", w)

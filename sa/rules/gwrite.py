"""Writing to the tree: what is inserted goes where it should, lengths follow,
the remembered position stays right."""
import re
from lab import trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St, Event
import models
from rules.gtree import Nodes, G, LEAF, STRUCT, LEN
from lab import Lab
from rules.gsearch import index_of, INO, Walk, idxphi
from rules.runtree import chk0, same

CURSOR = "tree-cursor"
FOREIGN = re.compile(r"(<)?cola::(?!gtree::).*")
CALL = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")


class Ops(Nodes):
    """The tree's operations on one leaf, in terms of what is done to the node that
    holds it: children added to it, its length changed, its ancestors told."""

    def __init__(self, c, leaf="run", cfg="rel", opaque=()):
        Nodes.__init__(self, c, opaque, leaf, cfg)
        L, e = self.L, self.e
        index_of(self)
        self.k = 0
        self.names = L.prog.field_names
        e.userm[G + "insert_in_inode"] = self.m_insert
        e.userm[G + "insert_two_in_inode"] = self.m_insert
        e.userm[G + "patch"] = self.m_patch
        e.userm[G + "bubble"] = self.m_bubble
        e.userm[G + "prev_non_empty_sibling"] = self.m_prevnz
        e.userm[G + "next_non_empty_sibling"] = self.m_nextnz
        tr = "<cola::" + LEAF[leaf] + " as cola::gtree::Join>::"
        e.userm[tr + "append"] = self.m_join
        e.userm[tr + "prepend"] = self.m_join
        e.userm["cola::gtree::Join::append"] = self.m_join
        e.userm["cola::gtree::Join::prepend"] = self.m_join
        e.userm["<cola::" + LEAF[leaf] + " as cola::gtree::Leaf>::len"] = self.m_len
        self.CT = L.fty(self.GT, "cursor")
        self.CUR = L.prog.field_ty(self.CT, L.variant(self.CT, "Some"), 0)
        self._ll = {}
        self._nl = 0
        self.inner = e.dispatch
        e.dispatch = self.dispatch

    def dispatch(self, inst, fty, args, atys, dty, st, span, fr):
        """what the tree's user does with a leaf it is handed is unknown"""
        name = inst["def"] if inst else fty["n"]
        if (name in CALL or "{closure" in name) and self.foreign(inst, atys) and len(atys) == 2:
            tt = self.L.prog.types[atys[1]]
            if tt["k"] == "tuple":
                es = tt["es"]
                return self.usercall([self.e.getf(args[1], atys[1], 0, i) for i in range(len(es))], es, dty, st, span, self.who(atys[0]))
        return self.inner(inst, fty, args, atys, dty, st, span, fr)

    def foreign(self, inst, atys):
        if inst is not None and "{closure" in inst["def"]:
            return bool(FOREIGN.match(inst["def"]))
        P = self.L.prog
        t = P.types[atys[0]]
        if t["k"] == "ref":
            t = P.types[t["e"]]
        if t["k"] == "fndef":
            return t.get("inst") is not None and bool(FOREIGN.match(P.insts[t["inst"]]["def"]))
        if t["k"] == "closure":
            return "gtree.rs" not in t.get("n", "") and not str(t.get("def", "")).startswith("cola::gtree")
        return True

    def who(self, ty):
        t = self.L.prog.types[ty]
        return t["e"] if t["k"] == "ref" else ty

    def usercall(self, args, tys, dty, st, span, who=None):
        e, L = self.e, self.L
        s = models.fresh(st)
        c = models.Call(None, None, args, tys, dty, span, None) if hasattr(models, "Call") else type("C", (), {"span": span})()
        before = after = None
        rest = []
        for a, ty in zip(args, tys):
            t = L.prog.types[ty]
            if t["k"] == "ref" and t["e"] == self.LT:
                v = e.content(a, ty, st)
                if t.get("mut"):
                    new = self.fresh(self.LT, "leaf now")
                    e.wr(s, e.targets(a, self.LT, st), new)
                else:
                    new = None
                rest.append((v, new))
            else:
                rest.append((a, None))
        rv = self.fresh(dty, "what the user returns")
        self.note("user", c, st, who=who, args=rest, ret=rv, rty=dty, mut=any(x is not None for _, x in rest))
        return rv, s

    # ---------------------------------------------------------------- values
    def xn(self, leafidx):
        return self.e.getf(leafidx, self.LXT, 0, 0)

    def m_len(self, e, c, st):
        v, tg, ty = models.deref(e, c, 0, st)
        if ty != self.LT or v.k != "G":
            return NotImplemented
        return self.leaflen(v), models.fresh(st)

    def leaflen(self, leaf):
        """the length of a leaf: unknown, for leaves nothing is known of"""
        L, e = self.L, self.e
        if leaf is UNDEF:
            return UNDEF
        if leaf.k == "G":
            out = None
            for tm, g in e.galts(leaf):
                x = e.app("length of leaf", self.us, e.G1(tm))
                out = x if out is None else e.mux(g, x, out)
            return out
        if leaf not in self._ll:
            self._nl += 1
            root = L.place(f"some leaf {self._nl}", self.LT, leaf)
            i = [x for x in L.prog.insts if x["def"].endswith("as cola::gtree::Leaf>::len") and x.get("body") and L.prog.types[x["body"]["locals"][1]].get("e") == self.LT]
            if not i:
                raise MissingAnchor("length of a leaf")
            self._ll[leaf] = L.pure(i[0], L.ref(root))
        return self._ll[leaf]

    def val(self, g, n):
        """the leaf in slot n"""
        return self.L.f(self.e.geti(self.lnodes(g), self.LVT, n), self.LNT, "value")

    def par(self, g, n):
        return self.n(self.L.f(self.e.geti(self.lnodes(g), self.LVT, n), self.LNT, "parent"))

    def node(self, g, n):
        return self.e.geti(self.inodes(g), self.IVT, n)

    def kidn(self, node, j, has=1):
        """the number in child j's index"""
        L, e = self.L, self.e
        k = self.kid(node, j)
        n = L.prog.field_names(self.NT)
        if has:
            return self.xn(e.getf(k, self.NT, 0, n.index("leaf")))
        return self.n(e.getf(k, self.NT, 0, n.index("internal")))

    def kid_leaf(self, kid):
        """the number of a leaf given as a child"""
        return self.xn(self.e.getf(kid, self.NT, 0, self.names(self.NT).index("leaf")))

    def dv(self, d):
        """a difference in length as a number (mod 2^64)"""
        L, e = self.L, self.e
        DT = self.tyof(d, None)
        if DT is None:
            l = [i for i, t in enumerate(L.prog.types) if t.get("def", "").endswith("gtree::Diff")]
            if len(l) != 1:
                raise MissingAnchor("the tree's length difference")
            DT = l[0]
        if L.prog.types[DT]["k"] != "adt":
            return d
        a, s = L.payload(d, DT, "Add"), L.payload(d, DT, "Subtract")
        a = e.I(0) if a is UNDEF else a
        s = e.I(0) if s is UNDEF else s
        return e.mux(L.isv(d, DT, "Add"), a, e.sub(e.I(0), s))

    # ---------------------------------------------------------------- contracts
    def fresh(self, ty, what):
        self.k += 1
        return self.e.app(what, ty, self.e.I(self.k))

    def freshbit(self, what):
        self.k += 1
        return self.e.atom("bool", NT("X", what, None, self.k))

    def note(self, kind, c, st, **kw):
        ev = Event(kind="note:" + kind, inst=None, args=[], raw=[], g=st.g, loop=tuple(self.e.loopstack), span=c.span, ret=None, fn=None, seq=len(self.e.events), stack=())
        ev.extra = kw
        ev.post = {}
        self.e.events.append(ev)
        return ev

    @property
    def notes(self):
        return [ev for ev in self.e.events if ev.kind.startswith("note:")]

    def gdo(self, c, st):
        gt, tg, gty = models.deref(self.e, c, 0, st)
        return gt, tg, gty == self.GT

    def wr(self, st, tg, g):
        s = models.fresh(st)
        self.e.wr(s, tg, g)
        return s

    def putg(self, g, f, v):
        return self.e.putf(g, self.GT, 0, self.names(self.GT).index(f), v)

    def putn(self, node, **kw):
        for f, v in kw.items():
            node = self.e.putf(node, self.INT, 0, self.names(self.INT).index(f), v)
        return node

    def havoc(self, vec, vt, f):
        ety = self.e.elty(vt)
        self.k += 1
        return self.e.app("havocfield", vt, vec, self.names(ety).index(f), self.e.I(self.k))

    def m_insert(self, e, c, st):
        L = self.L
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        idx, rest = c.args[1], c.args[2:]
        ins = [tuple(rest[i:i + 3]) for i in range(0, len(rest), 3)]
        node = self.inode(g, idx)
        ln = ins[0][2] if len(ins) == 1 else e.add(ins[0][2], ins[1][2])
        split = self.freshbit("the node splits")
        keep = self.fresh(self.us, "length kept")
        t0 = self.tot(node)
        t1 = e.mux(split, keep, e.add(t0, ln))
        n1 = self.fresh(self.us, "children now")
        k1 = self.fresh(self.KT, "children now")
        L.assume(L.NOT(e.eqc(n1, 0)))
        L.assume(L.OR(split, e.eq(n1, e.add(self.num(node), e.I(len(ins))))))
        new = self.putn(node, tot_len=t1, num_children=n1, children=k1)
        r = self.fresh(self.INT, "split off node")
        r = self.putn(r, tot_len=e.sub(e.add(t0, ln), keep), has_leaves=self.f(node, "has_leaves"))
        self.note("insert", c, st, node=self.n(idx), ins=ins, split=split, rest=r, t0=t0, t1=t1, n1=n1, g0=g, ln=ln, before=node)
        iv = e.puti(self.inodes(g), self.IVT, self.n(idx), new)
        return models.opt(e, c.dty, split, r), self.wr(st, tg, self.putg(g, "inodes", iv))

    def m_patch(self, e, c, st):
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        idx, d = c.args[1], c.args[2]
        node = self.inode(g, idx)
        d = self.dv(d)
        iv = self.havoc(self.inodes(g), self.IVT, "tot_len")
        iv = e.puti(iv, self.IVT, self.n(idx), self.putn(node, tot_len=e.add(self.tot(node), d)))
        self.note("patch", c, st, node=self.n(idx), d=d, g0=g)
        return models.unit(e, c.dty), self.wr(st, tg, self.putg(g, "inodes", iv))

    def m_bubble(self, e, c, st):
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        idx, split, diff, ldiff = c.args[1:5]
        OT = c.atys[2]
        node = self.inode(g, idx)
        self.note("bubble", c, st, node=self.n(idx), some=self.L.isv(split, OT, "Some"), rest=self.L.payload(split, OT, "Some"), d=self.dv(diff), ld=self.dv(ldiff), g0=g, tot=self.tot(node))
        self.k += 1
        iv = e.app("after a split", self.IVT, self.inodes(g), e.I(self.k))
        self.L.assume(self.L.NOT(e.lt(e.lenof(iv, self.IVT), e.lenof(self.inodes(g), self.IVT))))
        iv = e.puti(iv, self.IVT, self.n(idx), self.putn(node, parent=self.fresh(self.IDX, "parent now")))
        g1 = self.putg(g, "inodes", iv)
        g1 = self.putg(g1, "lnodes", self.havoc(self.lnodes(g), self.LVT, "parent"))
        g1 = self.putg(g1, "root_idx", self.fresh(self.IDX, "root now"))
        return models.unit(e, c.dty), self.wr(st, tg, g1)

    def m_join(self, e, c, st):
        """joining two leaves: either one leaf as long as both, or nothing happens"""
        L = self.L
        a, tg, ty = models.deref(e, c, 0, st)
        if ty != self.LT:
            return NotImplemented
        b = c.args[1]
        yes = self.freshbit("the leaves join")
        j = self.fresh(self.LT, "joined leaf")
        L.assume(L.OR(L.NOT(yes), e.eq(self.leaflen(j), e.add(self.leaflen(a), self.leaflen(b)))))
        fn = c.inst["def"].rsplit("::", 1)[1]
        self.note("join", c, st, fn=fn, yes=yes, joined=j, a=a, b=b)
        vs = {v["n"]: i for i, v in enumerate(L.prog.types[c.dty]["vs"])}
        u = models.unit(e, L.prog.field_ty(c.dty, vs["Ok"], 0))
        r = e.mkA(c.dty, [(vs["Ok"], yes, (u,)), (vs["Err"], L.NOT(yes), (b,))])
        return r, self.wr(st, tg, e.mux(yes, j, a))

    def nonempty(self, c, st, back):
        e, L = self.e, self.L
        g, tg, ok = self.gdo(c, st)
        if not ok:
            return NotImplemented
        x, i = c.args[1], c.args[2]
        some = self.freshbit("a sibling has text")
        j = self.fresh(self.us, "its number")
        lx = self.fresh(self.LXT, "that sibling")
        L.assume(e.lt(j, i) if back else e.lt(i, j))
        self.note("sibling", c, st, leaf=self.xn(x), i=i, back=back, some=some, j=j, found=self.xn(lx), g0=g)
        pt = L.prog.field_ty(c.dty, L.variant(c.dty, "Some"), 0)
        return models.opt(e, c.dty, some, e.mkA(pt, [(0, 1, (lx, j))])), models.fresh(st)

    def m_prevnz(self, e, c, st):
        return self.nonempty(c, st, True)

    def m_nextnz(self, e, c, st):
        return self.nonempty(c, st, False)

    # ---------------------------------------------------------------- the remembered position
    def off(self, n):
        """the offset of a leaf in the tree, before the call"""
        return self.e.app("offset of leaf", self.us, n)

    def offsets(self):
        """contract of offset_of_leaf, and what the remembered position means"""
        e, L = self.e, self.L
        cur = self.cur()
        cv = L.f(cur, self.GT, "cursor")
        pay = L.payload(cv, self.CT, "Some")
        none = L.isv(cv, self.CT, "None")
        n = self.xn(L.f(pay, self.CUR, "leaf_idx"))
        p = self.par(cur, n)
        node = self.node(cur, p)
        self.cur0 = (L.NOT(none), n, L.f(pay, self.CUR, "offset"), L.f(pay, self.CUR, "child_idx"))
        for g in (e.lt(n, e.lenof(self.lnodes(cur), self.LVT)), e.lt(p, e.lenof(self.inodes(cur), self.IVT)), e.eq(self.cur0[2], self.off(n)), e.eq(self.cur0[3], self.number(node, n)), L.G(self.f(node, "has_leaves"))):
            L.assume(L.OR(none, g))

        def m(e, c, st):
            g, tg, ok = self.gdo(c, st)
            if not ok:
                return NotImplemented
            n = self.xn(c.args[1])
            late = [x for x in self.notes if L.feasible(L.AND(x.g, st.g)) and (x.kind != "note:user" or x.extra["mut"]) and x.kind != "note:sibling"]
            return (self.fresh(self.us, "offset by now") if late else self.off(n)), models.fresh(st)
        e.userm[G + "offset_of_leaf"] = m

    # ---------------------------------------------------------------- a call on a leaf
    def leafidx(self, name, ty=None):
        """an existing leaf, whose parent is an existing node that knows it"""
        L, e = self.L, self.e
        x = L.sym(name, self.LXT)
        cur = self.cur()
        L.assume(e.lt(self.xn(x), e.lenof(self.lnodes(cur), self.LVT)))
        p = self.par(cur, self.xn(x))
        L.assume(e.lt(p, e.lenof(self.inodes(cur), self.IVT)))
        node = self.node(cur, p)
        self.sane(node)
        L.assume(L.NOT(e.eqc(self.num(node), 0)))
        L.assume(L.G(self.f(node, "has_leaves")))
        ci = self.number(node, self.xn(x))
        L.assume(e.eq(self.kidn(node, ci), self.xn(x)))
        return x, p, node, ci


def ledger(t, p, pre, out, w, what, leaves, near=()):
    """Lengths: the node holding the leaf, and its ancestors, are told of every
    change. `leaves`: (slot, value before) of the leaves that may have changed."""
    L, e, c = t.L, t.e, t.c
    tot0 = t.tot(t.node(pre, p))
    know = tot0
    off = e.I(0)            # what went to split off nodes
    pend = 0
    pushed = e.I(0)
    notes = t.notes
    for ev in notes:
        x, g = ev.extra, L.AND(ev.g, out.g)
        if ev.kind == "note:insert":
            chk0(c, STRUCT, L, L.AND(g, L.NOT(e.eq(x["node"], p))), f"{what}: leaves are added to the leaf's node", f"{what} adds a leaf to another node than the one holding its neighbour", w)
            chk0(c, LEN, L, L.AND(g, pend), f"{what}: a split is dealt with", f"{what} loses the node split off by an earlier insertion", w)
            for at, kid, ln in x["ins"]:
                n = t.kid_leaf(kid)
                same(c, LEN, L, ln, t.leaflen(t.val(x["g0"], n)), g, f"{what}: the leaf's length is added", f"{what} adds a leaf with a wrong length to the node", w)
                same(c, STRUCT, L, t.par(x["g0"], n), p, g, f"{what}: the leaf knows its node", f"{what} adds a leaf that does not know its node", w)
                pushed = e.add(pushed, e.mux(g, e.I(1), e.I(0)))
            pend = L.OR(pend, L.AND(g, x["split"]))
        elif ev.kind == "note:patch":
            chk0(c, LEN, L, L.AND(g, L.NOT(e.eq(x["node"], p))), f"{what}: the leaf's node is told of the change", f"{what} changes the length of another node than the one holding the leaf", w)
            know = e.mux(g, e.add(know, x["d"]), know)
        elif ev.kind == "note:bubble":
            chk0(c, STRUCT, L, L.AND(g, L.NOT(e.eq(x["node"], p))), f"{what}: a split is passed on from its node", f"{what} hands a split to another node than the one that was split", w)
            chk0(c, STRUCT, L, L.AND(g, L.b.XOR(x["some"], pend)), f"{what}: a split is passed on", f"{what} loses a node that was split off", w)
            last = [y for y in notes[:notes.index(ev)] if y.kind == "note:insert"]
            for y in last[-1:]:
                for f in ("tot_len", "num_children", "children", "has_leaves"):
                    same(c, STRUCT, L, t.f(x["rest"], f), t.f(y.extra["rest"], f), L.AND(g, x["some"], pend), f"{what}: the split off node is passed on", f"{what} passes on another node than the one split off", w)
            sl = e.mux(L.AND(g, x["some"]), t.tot(x["rest"]), e.I(0))
            same(c, LEN, L, e.add(know, x["d"]), x["tot"], L.AND(g, x["some"]), f"{what}: ancestors learn the node's new length", f"{what} tells the ancestors a wrong length difference when the node was split", w)
            same(c, LEN, L, e.add(know, x["ld"]), e.add(x["tot"], sl), g, f"{what}: ancestors learn how much was added", f"{what} tells the ancestors a wrong length difference", w)
            off = e.add(off, sl)
            know = e.mux(g, x["tot"], know)
            pend = L.AND(pend, L.NOT(g))
    post = t.cur(out)
    node = t.node(post, p)
    chk0(c, STRUCT, L, L.AND(out.g, pend), f"{what}: no split is forgotten", f"{what} loses a node that was split off", w)
    same(c, LEN, L, t.tot(node), know, out.g, f"{what}: ancestors know the node's length", f"{what} changes the length of the leaf's node without telling its ancestors", w)
    want = tot0
    for n, v0 in leaves:
        want = e.sub(e.add(want, t.leaflen(t.val(post, n))), t.leaflen(v0))
    for g, n in near:
        want = e.add(want, e.mux(g, e.sub(t.leaflen(t.val(post, n)), t.leaflen(t.val(pre, n))), e.I(0)))
    ls = [L.f(g, t.GT, "lnodes") for g in (pre, post)]
    n0, n1 = [e.lenof(v, t.LVT) for v in ls]
    same(c, STRUCT, L, e.sub(n1, n0), pushed, out.g, f"{what}: every new leaf is put in the tree", f"{what} creates a leaf that it does not put in the tree, or puts one in twice", w)
    seen = []
    for ev in t.notes:
        if ev.kind != "note:insert":
            continue
        g = L.AND(ev.g, out.g)
        for at, kid, ln in ev.extra["ins"]:
            n = t.kid_leaf(kid)
            chk0(c, STRUCT, L, L.AND(g, e.lt(n, n0)), f"{what}: what is put in the tree is new", f"{what} puts a leaf in the tree that is there already", w)
            for g2, m in seen:
                chk0(c, STRUCT, L, L.AND(g, g2, e.eq(n, m)), f"{what}: each new leaf is put in once", f"{what} puts a leaf in the tree twice", w)
            seen.append((g, n))
            want = e.add(want, e.mux(g, t.leaflen(t.val(post, n)), e.I(0)))
    same(c, LEN, L, e.add(t.tot(node), off), want, out.g, f"{what}: lengths add up", f"{what}: the length of the leaf's node is not that of its leaves", w)
    # other leaves
    j = L.sym("any leaf", t.us)
    oth = L.AND(out.g, e.lt(j, n0), *[L.NOT(e.eq(j, n)) for n, _ in leaves], *[L.NOT(L.AND(g, e.eq(j, n))) for g, n in near])
    same(c, STRUCT, L, t.val(post, j), t.val(pre, j), oth, f"{what}: other leaves stay", f"{what} changes other leaves", w)


def begin(c, fn, leaf, which=0):
    t = Ops(c, leaf=leaf)
    l = t.insts(fn)
    inst = l[which % len(l)]
    c.analysed.add(inst["def"])
    return t, inst, t.at(fn), inst["body"]["locals"]


def inserted(t, out, ci, want, what, w):
    """the leaves put in the tree under `out`, in order: want = [(guard, value)] behind
    the leaf at place ci (d = 0: before it). Returns their slots."""
    L, e, c = t.L, t.e, t.c
    slots = [UNDEF] * len(want)
    had = [0] * len(want)
    for ev in t.notes:
        if ev.kind != "note:insert":
            continue
        g = L.AND(ev.g, out.g)
        ins = ev.extra["ins"]
        for k, (at, kid, ln) in enumerate(ins):
            same(c, STRUCT, L, at, ci, g, f"{what}: the place of a new leaf", f"{what} puts a new leaf in the wrong place", w)
            chk0(c, STRUCT, L, L.AND(g, had[k]), f"{what}: one insertion", f"{what} puts a leaf in the tree twice", w)
            n = t.kid_leaf(kid)
            slots[k] = n if slots[k] is UNDEF else e.mux(g, n, slots[k])
            had[k] = L.OR(had[k], g)
    post = t.cur(out)
    for k, (g, v) in enumerate(want):
        nm = f"{what}: new leaf {k + 1}" if len(want) > 1 else f"{what}: the new leaf"
        chk0(c, STRUCT, L, L.AND(out.g, L.b.XOR(g, had[k])), nm + " is put in the tree", f"{what} loses a leaf it should put in the tree", w)
        if slots[k] is not UNDEF:
            same(c, STRUCT, L, t.val(post, slots[k]), v, L.AND(out.g, g), nm, f"{what} puts another leaf in the tree than it should", w)
    return slots


def insert_one(c, leaf="run"):
    """One or two leaves put next to another one."""
    for fn, d, k in (("insert_leaf_after_leaf", 1, 1), ("insert_leaf_before_leaf", 0, 1), ("insert_two_leaves_after_leaf", 1, 2)):
        try:
            t, inst, w, lt = begin(c, fn, leaf)
        except MissingAnchor:
            if leaf == "piece" and (k, d) != (1, 1):
                continue
            raise
        L, e = t.L, t.e
        x, p, node, ci = t.leafidx("leaf")
        pre = t.cur()
        new = [L.sym(f"new {i}", t.LT) for i in range(k)]
        i = L.sym("number", t.us)
        L.assume(e.eq(i, ci))
        rv, out, rty = L.call(inst, L.ref(t.g), x, i, *new)
        chk0(c, STRUCT, L, L.NOT(out.g), f"{fn} returns", f"{fn} fails", w)
        slots = inserted(t, out, e.add(ci, e.I(d)), [(1, v) for v in new], fn, w)
        for j, s in enumerate(slots):
            r = rv if k == 1 else e.getf(rv, rty, 0, j)
            if s is not UNDEF:
                same(c, STRUCT, L, t.xn(r), s, out.g, f"{fn} returns where the new leaf is", f"{fn} returns the index of another leaf than the one it added", w)
        ledger(t, p, pre, out, w, fn, [])
        same(c, CURSOR, L, L.f(t.cur(out), t.GT, "cursor"), L.f(pre, t.GT, "cursor"), out.g, f"{fn} leaves the remembered position to its caller", f"{fn} changes the remembered position", w)


def remembers(t, p, out, cands, what, w):
    """The remembered position is one of `cands`: (guard, slot, offset, place), where
    places count the children of p and of the node split off from it."""
    L, e, c = t.L, t.e, t.c
    post = t.cur(out)
    cv = L.f(post, t.GT, "cursor")
    pay = L.payload(cv, t.CT, "Some")
    some = L.isv(cv, t.CT, "Some")
    if pay is UNDEF or not L.feasible(L.AND(out.g, some)):
        return
    n, o, i = t.xn(L.f(pay, t.CUR, "leaf_idx")), L.f(pay, t.CUR, "offset"), L.f(pay, t.CUR, "child_idx")
    np = t.num(t.node(post, p))
    ok = 0
    for g, slot, off, place in cands:
        if slot is UNDEF:
            continue
        ok = L.OR(ok, L.AND(g, e.eq(n, slot), e.eq(o, off), right(t, i, place, np, slot, post)))
    chk0(c, CURSOR, L, L.AND(out.g, some, L.NOT(ok)), f"{what}: the remembered position", f"{what} remembers a position that is not that of the leaf it names", w)


def right(t, i, place, np, slot, post):
    """is `i` the number of a child in its node, after the node may have been split"""
    L, e = t.L, t.e
    here = e.eq(i, e.mux(e.lt(place, np), place, e.sub(place, np)))
    return L.OR(here, e.eq(i, t.number(t.node(post, t.par(post, slot)), slot)))


def user(t, out, what, w, want, mut=True, slot=None):
    """the one call of the user's function on a leaf: (leaf after, its result)"""
    L, e, c = t.L, t.e, t.c
    evs = [ev for ev in t.notes if ev.kind == "note:user" and ev.extra["mut"] == mut and L.feasible(L.AND(ev.g, out.g))]
    R = STRUCT
    if not c.check(len(evs) == 1, R, f"{what}: the leaf is handed over once", f"{what} does not hand the leaf over exactly once", w):
        return None
    ev = evs[0]
    chk0(c, R, L, L.AND(out.g, L.NOT(ev.g)), f"{what}: the leaf is handed over", f"{what} does not always hand the leaf over", w)
    a = ev.extra["args"]
    if not c.check(len(a) == len(want), R, f"{what}: what is handed over", f"{what} hands over something else", w):
        return None
    for (v, new), x in zip(a, want):
        same(c, R, L, v, x, L.AND(ev.g, out.g), f"{what}: what is handed over", f"{what} hands over something else than the leaf" + ("" if len(want) == 1 else " and the place in it"), w)
    return [new for _, new in a if new is not None], ev.extra["ret"], ev.extra["rty"]


def leaf_with_another(c, leaf="run"):
    """Operations that split a leaf, or add one next to it."""
    R = STRUCT
    one = lambda e: e.I(1)
    # a leaf split in two with another one in between
    if leaf == "run":
        fn = "split_leaf_with_another"
        t, inst, w, lt = begin(c, fn, leaf)
        t.offsets()
        L, e = t.L, t.e
        x, p, node, ci = t.leafidx("leaf")
        pre = t.cur()
        O = t.off(t.xn(x))
        rv, out, rty = L.call(inst, L.ref(t.g), x, L.sym("f", lt[3]))
        c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
        u = user(t, out, fn, w, [t.val(pre, t.xn(x))])
        if u:
            (new,), ret, ut = u
            pieces = [e.getf(ret, ut, 0, i) for i in (0, 1)]
            slots = inserted(t, out, e.add(ci, e.I(1)), [(1, v) for v in pieces], fn, w)
            off = e.add(O, t.leaflen(new))
            same(c, CURSOR, L, e.getf(rv, rty, 0, 0), off, out.g, f"{fn} returns the offset", f"{fn} returns a wrong offset for the leaf it added", w)
            for j, s in enumerate(slots):
                if s is not UNDEF:
                    same(c, R, L, t.xn(e.getf(rv, rty, 0, j + 1)), s, out.g, f"{fn} returns where the leaves are", f"{fn} returns the index of another leaf than the one it added", w)
            same(c, R, L, t.val(t.cur(out), t.xn(x)), new, out.g, f"{fn}: the leaf is what the user made of it", f"{fn} changes the leaf after it was split", w)
            ledger(t, p, pre, out, w, fn, [(t.xn(x), t.val(pre, t.xn(x)))])
            remembers(t, p, out, [(1, t.xn(x), O, ci), (1, slots[0], off, e.add(ci, e.I(1))), (1, slots[1], e.add(off, t.leaflen(pieces[0])), e.add(ci, e.I(2)))], fn, w)
        # a leaf behind another one
        fn = "insert_leaf_after_another"
        t, inst, w, lt = begin(c, fn, leaf)
        t.offsets()
        L, e = t.L, t.e
        x, p, node, ci = t.leafidx("leaf")
        pre = t.cur()
        O = t.off(t.xn(x))
        v = L.sym("new", t.LT)
        args = {t.LT: v, t.LXT: x}
        rv, out, rty = L.call(inst, L.ref(t.g), args[lt[2]], args[lt[3]])
        c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
        slots = inserted(t, out, e.add(ci, e.I(1)), [(1, v)], fn, w)
        off = e.add(O, t.leaflen(t.val(pre, t.xn(x))))
        same(c, CURSOR, L, e.getf(rv, rty, 0, 0), off, out.g, f"{fn} returns the offset", f"{fn} returns a wrong offset for the leaf it added", w)
        if slots[0] is not UNDEF:
            same(c, R, L, t.xn(e.getf(rv, rty, 0, 1)), slots[0], out.g, f"{fn} returns where the leaf is", f"{fn} returns the index of another leaf than the one it added", w)
        ledger(t, p, pre, out, w, fn, [])
        remembers(t, p, out, [(1, t.xn(x), O, ci), (1, slots[0], off, e.add(ci, e.I(1)))], fn, w)
        # a leaf joined to another one
        fn = "append_leaf_to_another"
        t, inst, w, lt = begin(c, fn, leaf)
        t.offsets()
        L, e = t.L, t.e
        x, p, node, ci = t.leafidx("leaf")
        pre = t.cur()
        O = t.off(t.xn(x))
        v = L.sym("new", t.LT)
        args = {t.LT: v, t.LXT: x}
        rv, out, rty = L.call(inst, L.ref(t.g), args[lt[2]], args[lt[3]])
        js = [ev for ev in t.notes if ev.kind == "note:join" and L.feasible(L.AND(ev.g, out.g))]
        if c.check(len(js) == 1, R, f"{fn} joins the leaves", f"{fn} does not join the leaves", w):
            q = js[0].extra
            g = L.AND(out.g, js[0].g)
            chk0(c, R, L, L.AND(out.g, L.NOT(L.AND(js[0].g, q["yes"]))), f"{fn}: the leaves are joined", f"{fn} returns although the leaves were not joined", w)
            chk0(c, R, L, L.AND(js[0].g, q["yes"], L.NOT(out.g)), f"{fn} returns", f"{fn} fails", w)
            c.check(q["fn"] == "append", R, f"{fn}: the new text comes second", f"{fn} puts the new leaf before the other one", w)
            same(c, R, L, q["a"], t.val(pre, t.xn(x)), g, f"{fn}: the leaf named", f"{fn} joins the new leaf to another leaf than the one named", w)
            same(c, R, L, q["b"], v, g, f"{fn}: the new leaf", f"{fn} joins something else than the new leaf", w)
            same(c, R, L, t.val(t.cur(out), t.xn(x)), q["joined"], g, f"{fn}: the joined leaf is kept", f"{fn} changes the joined leaf", w)
        same(c, CURSOR, L, rv, O, out.g, f"{fn} returns the leaf's offset", f"{fn} returns a wrong offset for the leaf", w)
        ledger(t, p, pre, out, w, fn, [(t.xn(x), t.val(pre, t.xn(x)))])
        remembers(t, p, out, [(1, t.xn(x), O, ci)], fn, w)
        return
    fn = "split_leaf"
    t, inst, w, lt = begin(c, fn, leaf)
    L, e = t.L, t.e
    x, p, node, ci = t.leafidx("leaf")
    pre = t.cur()
    rv, out, rty = L.call(inst, L.ref(t.g), x, L.sym("f", lt[3]))
    chk0(c, R, L, L.NOT(out.g), f"{fn} returns", f"{fn} fails", w)
    u = user(t, out, fn, w, [t.val(pre, t.xn(x))])
    if u:
        (new,), ret, ut = u
        slots = inserted(t, out, e.add(ci, e.I(1)), [(1, ret)], fn, w)
        if slots[0] is not UNDEF:
            same(c, R, L, t.xn(rv), slots[0], out.g, f"{fn} returns where the new leaf is", f"{fn} returns the index of another leaf than the one it added", w)
        same(c, R, L, t.val(t.cur(out), t.xn(x)), new, out.g, f"{fn}: the leaf is what the user made of it", f"{fn} changes the leaf after it was split", w)
        ledger(t, p, pre, out, w, fn, [(t.xn(x), t.val(pre, t.xn(x)))])
    same(c, CURSOR, L, L.f(t.cur(out), t.GT, "cursor"), L.f(pre, t.GT, "cursor"), out.g, f"{fn} remembers nothing", f"{fn} changes the remembered position", w)


def leaf_insert(c, leaf="run"):
    """Inserting at a place in a leaf."""
    R = STRUCT
    fn = "insert_at_leaf"
    t, inst, w, lt = begin(c, fn, leaf)
    t.offsets()
    L, e = t.L, t.e
    x, p, node, ci = t.leafidx("leaf")
    pre = t.cur()
    O = L.sym("offset", t.us)
    L.assume(e.eq(O, t.off(t.xn(x))))
    i, at = L.sym("number", t.us), L.sym("at", t.us)
    L.assume(e.eq(i, ci))
    rv, out, rty = L.call(inst, L.ref(t.g), x, O, i, at, L.sym("f", lt[6]))
    old = t.val(pre, t.xn(x))
    u = user(t, out, fn, w, [old, at])
    if not u:
        return
    (new,), ret, ut = u
    ot = [L.prog.types[ut]["es"][k] for k in (0, 1)]
    os_ = [e.getf(ret, ut, 0, k) for k in (0, 1)]
    has = [L.isv(o, t_, "Some") for o, t_ in zip(os_, ot)]
    odd = L.AND(L.NOT(has[0]), has[1])
    chk0(c, R, L, L.AND(L.NOT(odd), L.NOT(out.g)), f"{fn} returns", f"{fn} fails", w)
    out.g = L.AND(out.g, L.NOT(odd))
    pieces = [L.payload(o, t_, "Some") for o, t_ in zip(os_, ot)]
    slots = inserted(t, out, e.add(ci, e.I(1)), list(zip(has, pieces)), fn, w)
    returned(t, out, rv, rty, has, slots, fn, w)
    same(c, R, L, t.val(t.cur(out), t.xn(x)), new, out.g, f"{fn}: the leaf is what the user made of it", f"{fn} changes the leaf after the insertion", w)
    ledger(t, p, pre, out, w, fn, [(t.xn(x), old)])
    off = e.add(O, t.leaflen(new))
    remembers(t, p, out, [(1, t.xn(x), O, ci), (has[0], slots[0], off, e.add(ci, e.I(1))), (has[1], slots[1], e.add(off, t.leaflen(pieces[0])), e.add(ci, e.I(2)))], fn, w)


def returned(t, out, rv, rty, has, slots, fn, w):
    L, e, c = t.L, t.e, t.c
    for k in (0, 1):
        o, oty = e.getf(rv, rty, 0, k), L.prog.types[rty]["es"][k]
        some = L.isv(o, oty, "Some")
        chk0(c, STRUCT, L, L.AND(out.g, L.b.XOR(some, has[k])), f"{fn} tells which leaves are new", f"{fn} returns an index for a leaf it did not add, or none for one it did", w)
        if slots[k] is not UNDEF and L.payload(o, oty, "Some") is not UNDEF:
            same(c, STRUCT, L, t.xn(L.payload(o, oty, "Some")), slots[k], L.AND(out.g, has[k]), f"{fn} returns where the new leaves are", f"{fn} returns the index of another leaf than the one it added", w)


def change(c, leaf="run"):
    """Operations that change leaves in place."""
    R = STRUCT
    for fn in ("with_leaf_mut", "with_last_leaf_mut"):
        try:
            k = len(Ops(c, leaf=leaf).insts(fn))
        except MissingAnchor:
            if fn == "with_last_leaf_mut" and leaf == "run":
                continue
            raise
        for n in range(k):
            t, inst, w, lt = begin(c, fn, leaf, n)
            t.offsets()
            L, e = t.L, t.e
            x, p, node, ci = t.leafidx("leaf")
            pre = t.cur()
            last = fn != "with_leaf_mut"
            if last:
                ends(t, "last_leaf", x, ci)
            f = L.sym("f", lt[2 if last else 3])
            own = L.prog.types[lt[2 if last else 3]]
            rv, out, rty = L.call(inst, L.ref(t.g), *([f] if last else [x, f]))
            old = t.val(pre, t.xn(x))
            if own["k"] == "closure" and not t.foreign(None, [lt[2 if last else 3]]):
                # the tree's own use of it, judged where it is used
                ledger(t, p, pre, out, w, fn, [(t.xn(x), old)])
            else:
                c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
                u = user(t, out, fn, w, [old])
                if not u:
                    continue
                same(c, R, L, t.val(t.cur(out), t.xn(x)), u[0][0], out.g, f"{fn}: the leaf is what the user made of it", f"{fn} changes the leaf after its user did", w)
                ledger(t, p, pre, out, w, fn, [(t.xn(x), old)])
            same(c, CURSOR, L, L.f(t.cur(out), t.GT, "cursor"), L.f(pre, t.GT, "cursor"), L.AND(out.g, L.NOT(L.isv(L.f(t.cur(out), t.GT, "cursor"), t.CT, "None"))), f"{fn} remembers nothing new", f"{fn} changes the remembered position", w)
    if leaf == "run":
        fn = "prepend"
        t, inst, w, lt = begin(c, fn, leaf)
        t.offsets()
        L, e = t.L, t.e
        x, p, node, ci = t.leafidx("leaf")
        ends(t, "first_leaf_idx", x, ci)
    else:
        fn = "append"
        t, inst, w, lt = begin(c, fn, leaf)
        L, e = t.L, t.e
        x, p, node, ci = t.leafidx("leaf")
        ends(t, "last_leaf", x, ci)
    pre = t.cur()
    v = L.sym("new", t.LT)
    rv, out, rty = L.call(inst, L.ref(t.g), v)
    c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
    slots = inserted(t, out, ci if fn == "prepend" else e.add(ci, e.I(1)), [(1, v)], fn, w)
    if slots[0] is not UNDEF:
        same(c, R, L, t.xn(rv), slots[0], out.g, f"{fn} returns where the new leaf is", f"{fn} returns the index of another leaf than the one it added", w)
    ledger(t, p, pre, out, w, fn, [])
    if leaf == "run":
        remembers(t, p, out, [(1, slots[0], e.I(0), e.I(0)), (1, t.xn(x), t.leaflen(v), e.I(1))], fn, w)
    else:
        same(c, CURSOR, L, L.f(t.cur(out), t.GT, "cursor"), L.f(pre, t.GT, "cursor"), out.g, f"{fn} remembers nothing", f"{fn} changes the remembered position", w)
        two_changed(c, leaf)


def ends(t, fn, x, ci):
    """contracts of first_leaf_idx and last_leaf"""
    e, L = t.e, t.L
    node = t.node(t.cur(), t.par(t.cur(), t.xn(x)))
    if fn.startswith("first"):
        L.assume(e.eq(ci, e.I(0)))
        L.assume(e.eq(t.off(t.xn(x)), e.I(0)))
    else:
        L.assume(e.eq(ci, e.sub(t.num(node), e.I(1))))

    def m(e, c, st):
        g, tg, ok = t.gdo(c, st)
        if not ok:
            return NotImplemented
        if fn.startswith("first"):
            return x, models.fresh(st)
        return e.mkA(c.dty, [(0, 1, (x, ci))]), models.fresh(st)
    e.userm[G + fn] = m


def two_changed(c, leaf="piece"):
    """Two leaves changed at once."""
    R = STRUCT
    fn = "with_two_mut"
    for n in range(len(Ops(c, leaf=leaf).insts(fn))):
        t, inst, w, lt = begin(c, fn, leaf, n)
        L, e = t.L, t.e
        x, p, _, _ = t.leafidx("first")
        y, q, _, _ = t.leafidx("second")
        xn, yn = t.xn(x), t.xn(y)
        L.assume(L.NOT(e.eq(xn, yn)))
        pre = t.cur()
        rv, out, rty = L.call(inst, L.ref(t.g), x, y, L.sym("f", lt[4]))
        post = t.cur(out)
        a, b = t.val(pre, xn), t.val(pre, yn)
        chk0(c, R, L, L.NOT(out.g), f"{fn} returns", f"{fn} fails", w)
        u = user(t, out, fn, w, [a, b])
        if not u:
            continue
        for m, new in ((xn, u[0][0]), (yn, u[0][1])):
            same(c, R, L, t.val(post, m), new, out.g, f"{fn}: the leaves are what the user made of them", f"{fn} changes a leaf after its user did", w)
        dx = e.sub(t.leaflen(u[0][0]), t.leaflen(a))
        dy = e.sub(t.leaflen(u[0][1]), t.leaflen(b))
        sp, sq = e.I(0), e.I(0)
        both = e.eq(p, q)
        for ev in t.notes:
            g = L.AND(ev.g, out.g)
            if ev.kind == "note:patch":
                m, d = ev.extra["node"], ev.extra["d"]
                chk0(c, LEN, L, L.AND(g, L.NOT(e.eq(m, p)), L.NOT(e.eq(m, q))), f"{fn}: the leaves' nodes are told", f"{fn} changes the length of a node that holds neither leaf", w)
                sp = e.add(sp, e.mux(L.AND(g, e.eq(m, p)), d, e.I(0)))
                sq = e.add(sq, e.mux(L.AND(g, e.eq(m, q)), d, e.I(0)))
            elif ev.kind in ("note:insert", "note:bubble"):
                chk0(c, R, L, g, f"{fn} adds nothing", f"{fn} adds leaves to the tree", w)
        same(c, LEN, L, sp, e.add(dx, e.mux(both, dy, e.I(0))), out.g, f"{fn}: lengths add up (first)", f"{fn} does not tell the first leaf's ancestors its new length", w)
        same(c, LEN, L, sq, e.add(dy, e.mux(both, dx, e.I(0))), out.g, f"{fn}: lengths add up (second)", f"{fn} does not tell the second leaf's ancestors its new length", w)
        j = L.sym("any leaf", t.us)
        same(c, R, L, t.val(post, j), t.val(pre, j), L.AND(out.g, L.NOT(e.eq(j, xn)), L.NOT(e.eq(j, yn)), e.lt(j, e.lenof(t.lnodes(pre), t.LVT))), f"{fn}: other leaves stay", f"{fn} changes other leaves", w)
        same(c, CURSOR, L, L.f(post, t.GT, "cursor"), L.f(pre, t.GT, "cursor"), out.g, f"{fn} remembers nothing", f"{fn} changes the remembered position", w)


def leaf_delete(c, leaf="run"):
    """Deleting a range inside a leaf."""
    R = STRUCT
    fn = "delete_range_in_leaf"
    # (its instances differ in the functions they are given only)
    one_delete(c, leaf, fn, 0)


def one_delete(c, leaf, fn, n):
    R = STRUCT
    t, inst, w, lt = begin(c, fn, leaf, n)
    t.offsets()
    L, e = t.L, t.e
    x, p, node, ci = t.leafidx("leaf")
    pre = t.cur()
    xn = t.xn(x)
    O = L.sym("offset", t.us)
    L.assume(e.eq(O, t.off(xn)))
    i = L.sym("number", t.us)
    L.assume(e.eq(i, ci))
    rng = L.sym("range", lt[5])
    old = t.val(pre, xn)
    # a leaf is in its node once
    I1 = e.I(1)
    nx, pv = t.kidn(node, e.add(ci, I1)), t.kidn(node, e.sub(ci, I1))
    more, less = e.lt(e.add(ci, I1), t.num(node)), e.lt(e.I(0), ci)
    for g, m in ((more, nx), (less, pv)):
        L.assume(L.OR(L.NOT(g), L.NOT(e.eq(m, xn))))
        L.assume(L.OR(L.NOT(g), e.lt(m, e.lenof(t.lnodes(pre), t.LVT))))
    L.assume(L.OR(L.NOT(more), L.NOT(less), L.NOT(e.eq(nx, pv))))
    bd = L.prog.types[lt[6]]["e"]
    rv, out, rty = L.call(inst, L.ref(t.g), x, O, i, rng, L.ref(L.place("before", bd)), L.sym("f", lt[7]))
    u = user(t, out, fn, w, [old, rng])
    if not u:
        return
    (new,), ret, ut = u
    # the user is told of the leaf before it changes
    user(t, out, fn + " (before)", w, [old], mut=False)
    us = [ev for ev in t.notes if ev.kind == "note:user"]
    c.check(len(us) >= 2 and not us[0].extra["mut"], R, f"{fn}: told before the leaf changes", f"{fn} changes the leaf before its user was told of it", w)
    ot = [L.prog.types[ut]["es"][k] for k in (0, 1)]
    os_ = [e.getf(ret, ut, 0, k) for k in (0, 1)]
    h0, h1 = has = [L.isv(o, t_, "Some") for o, t_ in zip(os_, ot)]
    P0, P1 = pieces = [L.payload(o, t_, "Some") for o, t_ in zip(os_, ot)]
    odd = L.AND(L.NOT(h0), h1)
    # a second piece comes with text on both sides of what is deleted; without it
    # one of the leaf and the first piece is what was deleted
    l0 = t.leaflen(P0)
    empty = e.eqc(l0, 0)
    gone = e.eqc(t.leaflen(new), 0)
    pre_ok = L.AND(L.NOT(odd), L.OR(L.AND(h0, h1), L.AND(h0, empty), gone))
    L.assume(pre_ok)
    out.g = L.AND(out.g, L.NOT(odd))
    c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
    post = t.cur(out)
    # what joined what
    jn = {"prepend": 0, "append": 0}
    jv = {"prepend": UNDEF, "append": UNDEF}
    for ev in t.notes:
        if ev.kind != "note:join":
            continue
        q = ev.extra
        g = L.AND(ev.g, out.g)
        if q["fn"] == "prepend":
            chk0(c, R, L, L.AND(g, L.NOT(L.AND(h0, L.NOT(h1), empty, more))), f"{fn}: a deleted end joins the next leaf", f"{fn} joins a leaf with the next one where it should not", w)
            same(c, R, L, q["a"], t.val(pre, nx), g, f"{fn}: joins the leaf right behind", f"{fn} joins deleted text to another leaf than the one right behind it", w)
            same(c, R, L, q["b"], P0, g, f"{fn}: what joins the next leaf", f"{fn} joins something else than the deleted text to the next leaf", w)
        else:
            chk0(c, R, L, L.AND(g, L.NOT(L.AND(h0, L.NOT(h1), L.NOT(empty), less))), f"{fn}: a deleted start joins the previous leaf", f"{fn} joins a leaf with the previous one where it should not", w)
            same(c, R, L, q["a"], t.val(pre, pv), g, f"{fn}: joins the leaf right before", f"{fn} joins deleted text to another leaf than the one right before it", w)
            same(c, R, L, q["b"], new, g, f"{fn}: what joins the previous leaf", f"{fn} joins something else than the deleted text to the previous leaf", w)
        y = L.AND(g, q["yes"])
        jv[q["fn"]] = q["joined"] if jv[q["fn"]] is UNDEF else e.mux(y, q["joined"], jv[q["fn"]])
        jn[q["fn"]] = L.OR(jn[q["fn"]], y)
    joined = L.OR(jn["prepend"], jn["append"])
    want = [(L.AND(h0, L.NOT(joined)), P0), (h1, P1)]
    slots = inserted(t, out, e.add(ci, I1), want, fn, w)
    returned(t, out, rv, rty, [g for g, _ in want], slots, fn, w)
    same(c, R, L, t.val(post, xn), e.mux(jn["append"], P0, new), out.g, f"{fn}: what stays in the leaf", f"{fn} leaves something else in the leaf than what is left of it", w)
    for nm, g, m in (("prepend", more, nx), ("append", less, pv)):
        same(c, R, L, t.val(post, m), e.mux(jn[nm], jv[nm], t.val(pre, m)) if jv[nm] is not UNDEF else t.val(pre, m), L.AND(out.g, g), f"{fn}: the neighbour ({nm})", f"{fn} changes the leaf's neighbour", w)
    ledger(t, p, pre, out, w, fn, [(xn, old)], [(more, nx), (less, pv)])
    # remembered: the leaf, if it has text left, or what is before it
    cands = [(1, xn, O, ci)]
    sib = [ev for ev in t.notes if ev.kind == "note:sibling"]
    np = t.num(t.node(post, p))
    for ev in sib:
        q = ev.extra
        g = L.AND(ev.g, out.g)
        # nothing lies between them but deleted text
        chk0(c, CURSOR, L, L.AND(g, L.NOT(e.eq(q["leaf"], xn))), f"{fn}: looks around the leaf", f"{fn} looks for a neighbour of another leaf", w)
        chk0(c, CURSOR, L, L.AND(g, L.NOT(right(t, q["i"], ci, np, xn, post))), f"{fn}: looks from the leaf's place", f"{fn} looks for a neighbour of the leaf from a wrong place", w)
        v = t.val(post, q["found"])
        o = e.sub(O, t.leaflen(v)) if q["back"] else None
        if o is not None:
            cands.append((L.AND(g, q["some"]), q["found"], o, ("at", q["j"])))
    cv = L.f(post, t.GT, "cursor")
    some = L.isv(cv, t.CT, "Some")
    pay = L.payload(cv, t.CT, "Some")
    if pay is not UNDEF:
        m, o, k = t.xn(L.f(pay, t.CUR, "leaf_idx")), L.f(pay, t.CUR, "offset"), L.f(pay, t.CUR, "child_idx")
        ok = 0
        for g, slot, off, place in cands:
            r = e.eq(k, place[1]) if isinstance(place, tuple) else right(t, k, place, np, slot, post)
            ok = L.OR(ok, L.AND(g, e.eq(m, slot), e.eq(o, off), r))
        chk0(c, CURSOR, L, L.AND(out.g, some, L.NOT(ok)), f"{fn}: the remembered position", f"{fn} remembers a position that is not that of the leaf it names", w)


# ---------------------------------------------------------------- nodes
def pushed(c, leaf="run"):
    """A node added to the tree becomes its children's parent."""
    R = STRUCT
    fn = "push_inode"
    for nm, has in (("leaves", 1), ("nodes", 0)):
        t, inst, w, lt = begin(c, fn, leaf)
        L, e = t.L, t.e
        node, pa = L.sym("node", t.INT), L.sym("parent", t.IDX)
        args = {t.INT: node, t.IDX: pa}
        pre = t.cur()
        h = L.G(t.f(node, "has_leaves"))
        L.assume(h if has else L.NOT(h))
        t.sane(node)
        L.assume(L.NOT(e.eqc(t.num(node), 0)))
        new = e.lenof(t.inodes(pre), t.IVT)
        L.assume(e.lt(new, e.I(2 ** 63)))
        rv, out, rty = L.call(inst, L.ref(t.g), args[lt[2]], args[lt[3]])
        post = t.cur(out)
        c.check(L.feasible(out.g) != 0, R, f"{fn} returns ({nm})", f"{fn} never returns", w)
        W = Walk(t, node, lens=False)
        good = [r for r in W.recs if L.feasible(r.rec.cont)]
        if not c.check(len(good) == 1, R, f"goes through the children ({nm})", f"{fn} does not go through the children of the new node", w):
            continue
        r = good[0]
        k, lo, hi, d = r.k
        n = t.num(node)
        if d > 0:
            same(c, R, L, lo, e.I(0), r.rec.g, f"starts at the first child ({nm})", f"{fn} does not start at the first child", w)
            chk0(c, R, L, L.AND(out.g, e.lt(k, n)), f"goes through all children ({nm})", f"{fn} stops before the last child", w)
        else:
            same(c, R, L, lo, e.sub(n, e.I(1)), r.rec.g, f"starts at the last child ({nm})", f"{fn} does not start at the last child", w)
            chk0(c, R, L, L.AND(out.g, L.NOT(e.eq(k, e.sub(e.I(0), e.I(1))))), f"goes through all children ({nm})", f"{fn} stops before the first child", w)
        VT, ET = (t.LVT, t.LNT) if has else (t.IVT, t.INT)
        kid = t.kidn(node, k, has)
        vec = None
        j = L.sym("any", t.us)
        for phi, (init, back, (root, path)) in r.rec.phis.items():
            ty = e.pathty(e.root_ty[root], path)
            if ty != VT:
                continue
            vec = e.G1(phi)
            n0 = e.lenof(t.lnodes(pre) if has else t.inodes(pre), VT)
            same(c, R, L, e.lenof(init, VT), n0, r.rec.g, f"starts with the tree as it is ({nm})", f"{fn} changes other nodes", w)
            same(c, R, L, e.lenof(back, VT), e.lenof(vec, VT), r.rec.cont, f"no nodes added or removed ({nm})", f"{fn} adds or removes other nodes", w)
            L.assume(e.eq(e.lenof(vec, VT), n0))
            fi = t.names(ET).index("parent")
            el = e.geti(vec, VT, j)
            want = e.mux(e.eq(j, kid), e.putf(el, ET, 0, fi, e.mkA(t.IDX, [(0, 1, (new,))])), el)
            same(c, R, L, e.geti(back, VT, j), want, r.rec.cont, f"children learn their parent, nothing else changes ({nm})", f"{fn} does not tell a child of the new node, and only it, which node it belongs to", w)
            same(c, R, L, e.geti(init, VT, j), e.geti(t.lnodes(pre) if has else t.inodes(pre), VT, j), L.AND(r.rec.g, e.lt(j, e.lenof(t.lnodes(pre) if has else t.inodes(pre), VT))), f"starts with the tree as it is ({nm})", f"{fn} changes other nodes", w)
        if not c.check(vec is not None, R, f"children learn their parent ({nm})", f"{fn} does not tell the children of the new node which node they belong to", w):
            continue
        same(c, R, L, t.n(rv), new, out.g, f"the new node's index ({nm})", f"{fn} returns a wrong index for the new node", w)
        same(c, R, L, e.lenof(t.inodes(post), t.IVT), e.add(new, e.I(1)), out.g, f"one node more ({nm})", f"{fn} does not add exactly one node", w)
        q = t.node(post, new)
        for f in ("tot_len", "num_children", "children", "has_leaves"):
            same(c, R, L, t.f(q, f), t.f(node, f), out.g, f"the new node ({nm})", f"{fn} changes the node it adds", w)
        same(c, R, L, t.f(q, "parent"), pa, out.g, f"the new node's parent ({nm})", f"{fn} gives the new node a wrong parent", w)
        old = L.AND(out.g, e.lt(j, new))
        same(c, R, L, e.geti(t.inodes(post), t.IVT, j), e.geti(t.inodes(pre) if has else vec, t.IVT, j), old, f"other nodes stay ({nm})", f"{fn} changes other nodes", w)
        same(c, R, L, e.geti(t.lnodes(post), t.LVT, j), e.geti(vec if has else t.lnodes(pre), t.LVT, j), out.g, f"leaves stay ({nm})", f"{fn} changes leaves", w)
        for f in ("root_idx", "cursor"):
            same(c, R, L, L.f(post, t.GT, f), L.f(pre, t.GT, f), out.g, f"{f} stays ({nm})", f"{fn} changes the tree's {f}", w)


def push_contract(t, st_notes=True):
    """contract of push_inode"""
    e, L = t.e, t.L

    def m(e, c, st):
        g, tg, ok = t.gdo(c, st)
        if not ok:
            return NotImplemented
        a = {ty: v for v, ty in zip(c.args[1:], c.atys[1:])}
        node, pa = a[t.INT], a[t.IDX]
        new = e.lenof(t.inodes(g), t.IVT)
        iv = t.havoc(t.inodes(g), t.IVT, "parent")
        fi = t.names(t.INT).index("parent")
        iv = e.app("push", t.IVT, iv, e.putf(node, t.INT, 0, fi, pa))
        L.assume(e.lt(new, e.I(2 ** 63)))
        g1 = t.putg(g, "inodes", iv)
        g1 = t.putg(g1, "lnodes", t.havoc(t.lnodes(g), t.LVT, "parent"))
        idx = e.mkA(t.IDX, [(0, 1, (new,))])
        t.note("push", c, st, node=node, parent=pa, idx=new, iv=iv)
        return idx, t.wr(st, tg, g1)
    e.userm[G + "push_inode"] = m


def new_root(c, leaf="run"):
    """A split root gets a new root above its halves."""
    R = STRUCT
    fn = "root_has_split"
    t, inst, w, lt = begin(c, fn, leaf)
    push_contract(t)
    L, e = t.L, t.e
    split = L.sym("split", t.INT)
    pre = t.cur()
    root = t.n(L.f(pre, t.GT, "root_idx"))
    N0 = e.lenof(t.inodes(pre), t.IVT)
    L.assume(e.lt(root, N0))
    L.assume(e.lt(N0, e.I(2 ** 62)))
    rv, out, rty = L.call(inst, L.ref(t.g), split)
    post = t.cur(out)
    chk0(c, R, L, L.NOT(out.g), f"{fn} returns", f"{fn} fails", w)
    ps = [ev for ev in t.notes if ev.kind == "note:push"]
    if not c.check(len(ps) == 2, R, f"{fn} adds two nodes", f"{fn} does not add exactly the split off node and a new root", w):
        return
    r = t.n(L.f(post, t.GT, "root_idx"))
    top = t.node(post, r)
    chk0(c, R, L, L.AND(out.g, e.lt(r, N0)), f"{fn}: the root is new", f"{fn} does not make a new node the root", w)
    a, b = t.kidn(top, e.I(0), 0), t.kidn(top, e.I(1), 0)
    same(c, R, L, t.num(top), e.I(2), out.g, f"{fn}: two children", f"{fn} gives the new root another number of children than two", w)
    chk0(c, R, L, L.AND(out.g, L.G(t.f(top, "has_leaves"))), f"{fn}: children are nodes", f"{fn} makes the new root take its children for leaves", w)
    same(c, R, L, a, root, out.g, f"{fn}: the old root comes first", f"{fn} does not put the old root first", w)
    s = t.node(post, b)
    for f in ("tot_len", "num_children", "children", "has_leaves"):
        same(c, R, L, t.f(s, f), t.f(split, f), out.g, f"{fn}: the split off node comes second", f"{fn} does not put the split off node second", w)
    chk0(c, R, L, L.AND(out.g, L.OR(e.eq(b, r), e.lt(b, N0))), f"{fn}: the split off node is a new node", f"{fn} does not put the split off node second", w)
    o0, o1 = t.node(pre, root), t.node(post, root)
    for f in ("tot_len", "num_children", "children", "has_leaves"):
        same(c, R, L, t.f(o1, f), t.f(o0, f), out.g, f"{fn}: the old root stays", f"{fn} changes the old root", w)
    same(c, LEN, L, t.tot(top), e.add(t.tot(o0), t.tot(split)), out.g, f"{fn}: lengths add up", f"{fn}: the length of the new root is not that of its children", w)
    same(c, R, L, t.n(t.f(top, "parent")), e.I(2 ** 64 - 1), out.g, f"{fn}: the root has no parent", f"{fn} gives the new root a parent", w)
    last = ps[-1].extra
    for x, nm in ((root, "the old root"), (b, "the split off node")):
        p = t.n(t.f(t.node(post, x), "parent"))
        # told by its new parent when that was added
        told = t.n(t.f(e.geti(last["iv"], t.IVT, x), "parent"))
        n = last["node"]
        knows = L.AND(e.eq(last["idx"], r), L.OR(e.eq(t.kidn(n, e.I(0), 0), x), e.eq(t.kidn(n, e.I(1), 0), x)), L.NOT(e.lt(x, last["idx"])) if 0 else e.lt(x, last["idx"]))
        chk0(c, R, L, L.AND(out.g, L.NOT(L.OR(e.eq(p, r), L.AND(e.eq(p, told), knows)))), f"{fn}: {nm} knows the new root", f"{fn} does not tell {nm} that its parent is the new root", w)
    j = L.sym("any", t.us)
    for f in ("tot_len", "num_children", "children", "has_leaves"):
        same(c, R, L, t.f(t.node(post, j), f), t.f(t.node(pre, j), f), L.AND(out.g, e.lt(j, N0)), f"{fn}: other nodes stay", f"{fn} changes other nodes", w)
    same(c, R, L, t.val(post, j), t.val(pre, j), L.AND(out.g, e.lt(j, e.lenof(t.lnodes(pre), t.LVT))), f"{fn}: leaves stay", f"{fn} changes leaves", w)
    same(c, CURSOR, L, L.f(post, t.GT, "cursor"), L.f(pre, t.GT, "cursor"), out.g, f"{fn} leaves the remembered position", f"{fn} changes the remembered position", w)


def patch_up(c, leaf="run"):
    """A change in length is told to every node up to the root."""
    R = LEN
    fn = "patch"
    t, inst, w, lt = begin(c, fn, leaf)
    del t.e.userm[G + fn]
    L, e = t.L, t.e
    idx, d = L.sym("node", lt[2]), L.sym("change", lt[3])
    pre = t.cur()
    rv, out, rty = L.call(inst, L.ref(t.g), idx, d)
    recs = [r for r in e.loops if L.feasible(r.cont)]
    c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
    if not c.check(len(recs) == 1, R, f"{fn} goes up the tree", f"{fn} does not go up the tree", w):
        return
    r = recs[0]
    D = t.dv(d)
    dang = e.I(2 ** 64 - 1)
    vec = None
    for phi, (init, back, (root, path)) in r.phis.items():
        if e.pathty(e.root_ty[root], path) == t.IVT:
            vec = (e.G1(phi), init, back)
    if not c.check(vec is not None, R, f"{fn} changes the nodes", f"{fn} does not change the length of the nodes", w):
        return
    p, init, back = vec
    j = L.sym("any", t.us)
    found = False
    for q, qi, qb in idxphi(t, r):
        if qi is UNDEF or qb is UNDEF:
            continue
        if L.diff(qi, t.n(idx), r.g) == 0:
            found = True
            el = e.geti(p, t.IVT, q)
            same(c, R, L, qb, t.n(t.f(el, "parent")), r.cont, f"{fn} goes from node to parent", f"{fn} does not go on with the node's parent", w)
            x = e.geti(p, t.IVT, j)
            want = e.mux(e.eq(j, q), t.putn(x, tot_len=e.add(t.tot(x), D)), x)
            same(c, R, L, e.geti(back, t.IVT, j), want, r.cont, f"{fn} changes the length of the node", f"{fn} does not change the node's length, and only that, by the difference", w)
            chk0(c, R, L, L.AND(r.cont, e.eq(q, dang)), f"{fn} stops at the root", f"{fn} goes past the root", w)
            chk0(c, R, L, L.AND(out.g, L.NOT(e.eq(q, dang))), f"{fn} goes up to the root", f"{fn} stops before it has told the root", w)
    c.check(found, R, f"{fn} starts at the node it is given", f"{fn} does not start at the node it is given", w)
    same(c, R, L, e.geti(init, t.IVT, j), e.geti(t.inodes(pre), t.IVT, j), r.g, f"{fn} starts with the tree as it is", f"{fn} changes other nodes", w)
    post = t.cur(out)
    for f in ("lnodes", "root_idx", "cursor"):
        same(c, R, L, L.f(post, t.GT, f), L.f(pre, t.GT, f), out.g, f"{fn}: {f} stay", f"{fn} changes the tree's {f}", w)
    same(c, R, L, e.geti(t.inodes(post), t.IVT, j), e.geti(p, t.IVT, j), out.g, f"{fn} ends with the nodes as changed", f"{fn} changes other nodes", w)


def bubble_up(c, leaf="run"):
    """A node split off is put next to the one it was split off from, up to the root."""
    R = STRUCT
    fn = "bubble"
    t, inst, w, lt = begin(c, fn, leaf)
    L, e = t.L, t.e
    del e.userm[G + fn]
    push_contract(t)

    def m_root(e, c_, st):
        g, tg, ok = t.gdo(c_, st)
        if not ok:
            return NotImplemented
        t.note("root", c_, st, rest=c_.args[1])
        return models.unit(e, c_.dty), models.fresh(st)
    e.userm[G + "root_has_split"] = m_root
    idx, S0, d0, ld = [L.sym(n, lt[i + 2]) for i, n in enumerate(("node", "split", "difference", "total"))]
    OT = lt[3]
    pre = t.cur()
    t.inb(idx)
    rv, out, rty = L.call(inst, L.ref(t.g), idx, S0, d0, ld)
    recs = [r for r in e.loops if L.feasible(r.cont)]
    c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
    if not c.check(len(recs) == 1, R, f"{fn} goes up the tree", f"{fn} does not go up the tree", w):
        return
    r = recs[0]
    dang = e.I(2 ** 64 - 1)
    S = D = T = LV = None
    for phi, (init, back, (root, path)) in r.phis.items():
        path_ = path[:-1] if path and path[-1] == ("disc",) else path
        ty = e.pathty(e.root_ty[root], path_)
        v = e.G1(phi)
        if ty == t.IVT:
            T = (v, init, back)
        elif ty == t.LVT:
            LV = (v, init, back)
        elif ty == OT:
            S = (v, init, back)
        elif ty == lt[4]:
            if L.diff(init, d0, r.g) == 0:
                D = (v, init, back)
    if not c.check(S is not None and D is not None and T is not None, R, f"{fn}: what it carries", f"{fn} does not carry a split off node and a difference in length up the tree", w):
        return
    same(c, R, L, T[1], t.inodes(pre), r.g, f"{fn} starts with the tree as it is", f"{fn} changes other nodes", w)
    same(c, R, L, S[1], S0, r.g, f"{fn} starts with the split off node", f"{fn} does not start with the split off node", w)
    chk0(c, R, L, L.AND(r.g, L.b.XOR(L.isv(S[1], OT, "Some"), L.isv(S0, OT, "Some"))), f"{fn} starts with the split off node", f"{fn} does not start with the split off node", w)
    cur = None
    ph = [x for x in idxphi(t, r) if x[1] is not UNDEF and x[2] is not UNDEF]
    for q, qi, qb in ph:
        if L.diff(qi, t.n(idx), r.g) == 0:
            cur = (q, qi, qb)
    if not c.check(cur is not None, R, f"{fn} starts at the node it is given", f"{fn} does not start at the node it is given", w):
        return
    i, _, ib = cur
    par = lambda vec, k: t.n(t.f(e.geti(vec, t.IVT, k), "parent"))
    P = par(T[0], i)
    for q, qi, qb in ph:
        if q is i:
            continue
        if L.diff(qi, par(T[1], t.n(idx)), r.g) == 0 and L.diff(qb, par(T[2], ib), r.cont) == 0:
            L.assume(e.eq(q, P))
    some = L.isv(S[0], OT, "Some")
    rest = L.payload(S[0], OT, "Some")
    node = e.geti(T[0], t.IVT, P)
    kidno = t.number(node, i)
    isroot = e.eq(P, dang)
    # the root is the node without a parent
    L.assume(L.NOT(L.b.XOR(isroot, e.eq(i, t.n(L.f(pre, t.GT, "root_idx"))))))
    L.assume(L.OR(isroot, e.lt(P, e.lenof(T[0], t.IVT))))
    L.assume(L.OR(isroot, L.NOT(L.G(t.f(node, "has_leaves")))))
    t.sane(node)
    chk0(c, R, L, L.AND(r.cont, L.NOT(some)), f"{fn} goes up while there is a split", f"{fn} goes on although nothing was split off", w)
    chk0(c, R, L, L.AND(r.cont, isroot), f"{fn} stops at the root", f"{fn} goes past the root", w)
    same(c, R, L, ib, P, r.cont, f"{fn} goes on with the parent", f"{fn} does not go on with the node's parent", w)
    Dv = t.dv(D[0])
    told = rooted = 0
    put = 0
    notes = [ev for ev in t.notes if ev.loop or L.feasible(L.AND(ev.g, r.g))]
    lastins = None
    pushes = [ev for ev in t.notes if ev.kind == "note:push"]
    for ev in notes:
        x, g = ev.extra, ev.g
        if ev.kind == "note:root":
            chk0(c, R, L, L.AND(g, L.NOT(L.AND(isroot, some))), f"{fn}: a new root only above a split root", f"{fn} makes a new root although the root was not split", w)
            for f in ("tot_len", "num_children", "children", "has_leaves"):
                same(c, R, L, t.f(x["rest"], f), t.f(rest, f), g, f"{fn}: the node below the new root", f"{fn} puts another node below the new root than the one split off", w)
            rooted = L.OR(rooted, g)
        elif ev.kind == "note:patch":
            chk0(c, LEN, L, L.AND(g, L.OR(some, isroot)), f"{fn}: told once the splitting is over", f"{fn} tells the ancestors of a change while nodes are still being split", w)
            same(c, LEN, L, x["node"], P, g, f"{fn}: the parent is told", f"{fn} tells another node than the parent of the last one changed", w)
            same(c, LEN, L, x["d"], t.dv(ld), g, f"{fn}: what the ancestors are told", f"{fn} tells the ancestors another difference than the one it was given", w)
            told = L.OR(told, g)
        elif ev.kind == "note:insert":
            lastins = x
            put = L.OR(put, g)
            chk0(c, R, L, L.AND(g, L.NOT(some)), f"{fn}: puts a split off node in the tree", f"{fn} adds a node although none was split off", w)
            same(c, R, L, x["node"], P, g, f"{fn}: next to its other half", f"{fn} puts the split off node in another node than its other half's parent", w)
            if not c.check(len(x["ins"]) == 1, R, f"{fn}: one node at a time", f"{fn} adds more than the split off node", w):
                continue
            at, kid, ln = x["ins"][0]
            same(c, R, L, at, e.add(kidno, e.I(1)), g, f"{fn}: right behind its other half", f"{fn} does not put the split off node right behind its other half", w)
            same(c, LEN, L, ln, t.tot(rest), g, f"{fn}: its length is added", f"{fn} adds the split off node with a wrong length", w)
            kn = t.n(e.getf(kid, t.NT, 0, t.names(t.NT).index("internal")))
            ok = 0
            for pv in pushes:
                y = pv.extra
                fine = L.AND(pv.g, e.eq(y["idx"], kn), e.eq(t.n(y["parent"]), P), e.veq(t.tot(y["node"]), t.tot(rest)), e.veq(t.num(y["node"]), t.num(rest)), e.veq(t.kids(y["node"]), t.kids(rest)))
                ok = L.OR(ok, fine)
            chk0(c, R, L, L.AND(g, L.NOT(ok)), f"{fn}: the split off node is put in the tree", f"{fn} puts another node in the tree than the one split off, or one with a wrong parent", w)
    chk0(c, R, L, L.AND(out.g, some, L.NOT(rooted)), f"{fn}: a split root gets a new root", f"{fn} loses a node split off the root", w)
    chk0(c, LEN, L, L.AND(out.g, L.NOT(some), L.NOT(isroot), L.NOT(told)), f"{fn}: the ancestors are told", f"{fn} does not tell the ancestors of the change", w)
    chk0(c, R, L, L.AND(r.cont, L.NOT(put)), f"{fn}: the split off node is put in the tree", f"{fn} loses a node that was split off", w)
    if lastins is not None:
        n2 = e.geti(T[2], t.IVT, P)
        got = L.isv(S[2], OT, "Some")
        r2 = L.payload(S[2], OT, "Some")
        chk0(c, R, L, L.AND(r.cont, L.b.XOR(got, lastins["split"])), f"{fn}: a further split is carried on", f"{fn} loses a node that was split off further up", w)
        for f in ("num_children", "children", "has_leaves"):
            same(c, R, L, t.f(r2, f), t.f(lastins["rest"], f), L.AND(r.cont, lastins["split"]), f"{fn}: a further split is carried on", f"{fn} goes on with another node than the one split off", w)
        have = e.add(t.tot(n2), e.mux(lastins["split"], t.tot(r2), e.I(0)))
        same(c, LEN, L, have, e.add(e.add(t.tot(node), Dv), t.tot(rest)), r.cont, f"{fn}: the parent's length is that of its children", f"{fn}: the parent's length is not that of its children any more", w)
        same(c, LEN, L, t.dv(D[2]), e.sub(t.tot(n2), t.tot(node)), r.cont, f"{fn}: the difference carried up", f"{fn} carries a wrong difference in length up the tree", w)
    post = t.cur(out)
    j = L.sym("any", t.us)
    lv = t.lnodes(pre)
    old = e.lt(j, e.lenof(lv, t.LVT))
    leaf_of = lambda v: e.getf(e.geti(v, t.LVT, j), t.LNT, 0, t.names(t.LNT).index("value"))
    if LV is not None:
        same(c, R, L, leaf_of(LV[1]), leaf_of(lv), L.AND(r.g, old), f"{fn}: leaves stay", f"{fn} changes leaves", w)
        same(c, R, L, leaf_of(LV[2]), leaf_of(LV[0]), L.AND(r.cont, old), f"{fn}: leaves stay", f"{fn} changes leaves", w)
        lv = LV[0]
    same(c, R, L, t.val(post, j), leaf_of(lv), L.AND(out.g, old), f"{fn}: leaves stay", f"{fn} changes leaves", w)
    same(c, CURSOR, L, L.f(post, t.GT, "cursor"), L.f(pre, t.GT, "cursor"), out.g, f"{fn} leaves the remembered position", f"{fn} changes the remembered position", w)


def first(c, leaf="run"):
    """A new tree holds its first leaf."""
    R = STRUCT
    if leaf == "piece":
        return leaves_given(c, leaf)
    fn = "from_first_leaf"
    t, inst, w, lt = making(c, fn, leaf)
    push_contract(t)
    L, e = t.L, t.e
    v = L.sym("first", t.LT)
    rv, out, rty = L.call(inst, v)
    chk0(c, R, L, L.NOT(out.g), f"{fn} returns", f"{fn} fails", w)
    g, x = L.f(rv, rty, "0"), L.f(rv, rty, "1")
    one_node(t, fn, g, out.g, e.I(1), w, told=[ev.extra for ev in t.notes if ev.kind == "note:push"])
    root = t.node(g, t.n(L.f(g, t.GT, "root_idx")))
    same(c, R, L, t.kidn(root, e.I(0), 1), t.xn(x), out.g, f"{fn} returns the leaf's index", f"{fn} returns the index of another leaf than the first", w)
    same(c, R, L, t.val(g, t.xn(x)), v, out.g, f"{fn}: the first leaf is in the tree", f"{fn} puts another leaf in the tree than the one it is given", w)
    same(c, LEN, L, t.tot(root), t.leaflen(v), out.g, f"{fn}: the tree's length", f"{fn}: the length of the new tree is not that of its leaf", w)


def one_node(t, fn, g, gd, n, w, told=()):
    """a tree made of a single node over all its n leaves"""
    c, L, e, R = t.c, t.L, t.e, STRUCT
    r = t.n(L.f(g, t.GT, "root_idx"))
    root = t.node(g, r)
    chk0(c, R, L, L.AND(gd, L.NOT(e.lt(r, e.lenof(t.inodes(g), t.IVT)))), f"{fn}: there is a root", f"{fn} makes a tree without a root", w)
    same(c, R, L, t.num(root), n, gd, f"{fn}: as many children as leaves", f"{fn} gives the root another number of children than there are leaves", w)
    same(c, R, L, e.lenof(t.lnodes(g), t.LVT), n, gd, f"{fn}: as many leaves as given", f"{fn} makes a tree with another number of leaves than it is given", w)
    chk0(c, R, L, L.AND(gd, L.NOT(L.G(t.f(root, "has_leaves")))), f"{fn}: the root holds leaves", f"{fn} makes the root take its leaves for nodes", w)
    same(c, R, L, t.n(t.f(root, "parent")), e.I(2 ** 64 - 1), gd, f"{fn}: the root has no parent", f"{fn} gives the root a parent", w)
    chk0(c, CURSOR, L, L.AND(gd, L.NOT(L.isv(L.f(g, t.GT, "cursor"), t.CT, "None"))), f"{fn}: nothing remembered", f"{fn} makes a tree that remembers a position", w)
    if n.k == "G" and L.diff(n, e.I(1), 1) == 0:
        p = t.par(g, t.kidn(root, e.I(0), 1))
        ok = e.eq(p, r)
        for x in told:
            if L.diff(t.kidn(x["node"], e.I(0), 1), t.kidn(root, e.I(0), 1), gd) == 0 and L.feasible(L.AND(gd, L.NOT(L.G(t.f(x["node"], "has_leaves"))))) == 0:
                ok = L.OR(ok, e.eq(x["idx"], r))
        chk0(c, R, L, L.AND(gd, L.NOT(ok)), f"{fn}: the leaf knows the root", f"{fn} gives the leaf a wrong parent", w)


def making(c, fn, leaf):
    """like begin, for functions that make a tree"""
    t = Ops(c, leaf=leaf)
    for inst in t.L.prog.insts:
        if inst["def"] != G + fn or not inst.get("body"):
            continue
        r = inst["body"]["locals"][0]
        if r == t.GT or t.GT in t.L.prog.types[r].get("es", []):
            c.analysed.add(inst["def"])
            return t, inst, inst["body"]["span"], inst["body"]["locals"]
    raise MissingAnchor("function " + fn)


def leaves_given(c, leaf):
    """A tree made of given leaves holds them all, in order."""
    R = STRUCT
    fn = "from_leaves"
    t, inst, w, lt = making(c, fn, leaf)
    L, e = t.L, t.e
    arr = L.ty(f"[run_indices::Fragment; {t.cap}]")
    given, n, tot = L.place("given", arr), L.sym("number", t.us), L.sym("total", lt[2])
    L.assume(e.lt(n, e.I(t.cap + 1)))
    ref = e.G1(NT("R", given, (("s", e.I(0), n),)))
    sit = L.prog.field_ty(lt[1], 0, 0)
    it = e.mkA(lt[1], [(0, 1, (e.G1(NT("X", "iterover:iter", sit, ref)),))])
    rv, out, rty = L.call(inst, it, tot)
    c.check(L.feasible(out.g) != 0, R, f"{fn} returns", f"{fn} never returns", w)
    recs = [r for r in e.loops if L.feasible(r.cont)]
    its = [k for k, key in e.iterloops.items() if recs and key == recs[0].key]
    if not c.check(len(recs) == 1 and len(its) == 1, R, f"{fn} goes through the leaves", f"{fn} does not go through the leaves it is given", w):
        return
    r = recs[0]
    i = e.app("iteridx", t.us, *its[0])
    has = e.atom("bool", NT("X", "iterhas", None, *its[0]))
    L.assume(L.OR(has, e.eq(i, n)))
    L.assume(L.NOT(e.lt(n, i)))
    root = t.node(rv, t.n(L.f(rv, t.GT, "root_idx")))
    rt = t.n(L.f(rv, t.GT, "root_idx"))
    K = V = None
    for phi, (init, back, (ro, path)) in r.phis.items():
        ty = e.pathty(e.root_ty[ro], path)
        v = e.G1(phi)
        if ty == t.KT:
            K = (v, init, back)
        elif ty == t.LVT:
            V = (v, init, back)
        elif ty == t.us and L.diff(back, e.add(v, e.I(1)), r.cont) == 0:
            L.assume(e.eq(v, e.add(init, i)))
    if not c.check(K is not None and V is not None, R, f"{fn} collects the leaves", f"{fn} does not collect the leaves it is given", w):
        return
    same(c, R, L, e.lenof(V[1], t.LVT), e.I(0), r.g, f"{fn}: starts empty", f"{fn} puts leaves in the tree that it was not given", w)
    L.assume(e.eq(e.lenof(V[0], t.LVT), i))
    same(c, R, L, e.lenof(V[2], t.LVT), e.add(i, e.I(1)), r.cont, f"{fn}: one leaf a round", f"{fn} does not put every leaf in the tree once", w)
    j = L.sym("any", t.us)
    fi = t.names(t.LNT).index("value")
    pi = t.names(t.LNT).index("parent")
    new = e.geti(V[2], t.LVT, i)
    same(c, R, L, e.getf(new, t.LNT, 0, fi), e.geti(e.root_value(L.st, given), arr, i), r.cont, f"{fn}: the leaf", f"{fn} puts other leaves in the tree than it is given", w)
    same(c, R, L, t.n(e.getf(new, t.LNT, 0, pi)), rt, r.cont, f"{fn}: the leaf's parent", f"{fn} gives the leaves a wrong parent", w)
    same(c, R, L, e.geti(V[2], t.LVT, j), e.geti(V[0], t.LVT, j), L.AND(r.cont, e.lt(j, i)), f"{fn}: earlier leaves stay", f"{fn} changes the leaves it has put in the tree", w)
    kid = lambda ks, x: t.kid_leaf(e.geti(ks, t.KT, x))
    same(c, R, L, kid(K[2], i), i, r.cont, f"{fn}: in order", f"{fn} does not keep the leaves in the order they are given in", w)
    raw = lambda ks: e.geti(ks, t.KT, j)
    same(c, R, L, raw(K[2]), raw(K[0]), L.AND(r.cont, e.lt(j, i)), f"{fn}: in order", f"{fn} does not keep the leaves in the order they are given in", w)
    chk0(c, R, L, L.AND(out.g, e.lt(i, n)), f"{fn}: all leaves", f"{fn} stops before the last leaf", w)
    same(c, R, L, raw(t.kids(root)), raw(K[0]), L.AND(out.g, e.lt(j, n)), f"{fn}: the root's children", f"{fn} does not make the leaves the root's children", w)
    same(c, R, L, e.geti(t.lnodes(rv), t.LVT, j), e.geti(V[0], t.LVT, j), L.AND(out.g, e.lt(j, n)), f"{fn}: the leaves", f"{fn} puts other leaves in the tree than it is given", w)
    one_node(t, fn, rv, out.g, n, w)
    same(c, LEN, L, t.tot(root), tot, out.g, f"{fn}: the tree's length", f"{fn} does not take over the length it is given", w)

"""The tree of nodes below the run tree: regrouping its nodes keeps the order of
their children, lengths are kept up to date, searches find what they look for."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St, Event
import models
from rules.runtree import where, chk0, same

G = "cola::gtree::Gtree::<ARITY, L>::"
LEAF = {"run": "run_tree::EditRun", "piece": "run_indices::Fragment"}
GT = {"run": "gtree::Gtree<32, run_tree::EditRun>", "piece": "gtree::Gtree<32, run_indices::Fragment>"}
STRUCT = "tree-order"
LEN = "tree-lengths"
FIND = "tree-search"


class Nodes:
    """A symbolic tree and what its nodes say."""

    def __init__(self, c, opaque=(), leaf="run", cfg="rel"):
        self.c = c
        L = self.L = Lab(c.prog(cfg), opaque=list(opaque))
        self.leafname = leaf
        e = self.e = L.e
        self.LT = L.ty(LEAF[leaf])
        self.GT = self.gty()
        self.us = L.ty("usize")
        self.IVT = L.fty(self.GT, "inodes")
        self.LVT = L.fty(self.GT, "lnodes")
        self.INT = e.elty(self.IVT)
        self.LNT = e.elty(self.LVT)
        self.IDX = L.fty(self.GT, "root_idx")
        self.KT = L.fty(self.INT, "children")
        self.NT = e.elty(self.KT)
        self.cap = e.prog.types[self.KT]["len"]
        self.g = L.place("tree", self.GT)

    def gty(self):
        L = self.L
        l = [i for n, i in L.prog.ty_by_name.items() if L.prog.types[i].get("def", "").endswith("gtree::Gtree") and any(self.LT == a for a in L.prog.types[i].get("args", [])) and all(not isinstance(a, str) or a.startswith("#") for a in L.prog.types[i]["args"])]
        if len(l) != 1:
            raise MissingAnchor("the tree of " + LEAF[self.leafname])
        return l[0]

    def insts(self, name):
        """the instances of a tree function for this kind of leaf"""
        L = self.L
        full = name if name.startswith(("cola::", "<")) else G + name
        out = []
        for i in L.prog.insts:
            if i["def"] != full or not i.get("body") or i["body"]["nargs"] < 1:
                continue
            t = i["body"]["locals"][1]
            t = L.prog.types[t].get("e", t)
            if t in (self.GT, self.INT):
                out.append(i)
        if not out:
            raise MissingAnchor("function " + full)
        return out

    def inst(self, name):
        l = self.insts(name)
        return l[0]

    # ---- values
    def cur(self, st=None):
        return self.L.get(self.g, st)

    def n(self, idx):
        """the number in an index"""
        return self.e.getf(idx, self.tyof(idx, self.IDX), 0, 0)

    def tyof(self, v, d):
        if v is not UNDEF and v.k == "A":
            return v.a[0]
        return d

    def inodes(self, g):
        return self.L.f(g, self.GT, "inodes")

    def lnodes(self, g):
        return self.L.f(g, self.GT, "lnodes")

    def inode(self, g, idx):
        return self.e.geti(self.inodes(g), self.IVT, self.n(idx))

    def lnode(self, g, idx):
        t = self.L.prog.types[self.LXT]
        return self.e.geti(self.lnodes(g), self.LVT, self.e.getf(idx, self.LXT, 0, 0))

    @property
    def LXT(self):
        L = self.L
        return self._lxt if hasattr(self, "_lxt") else self._find_lxt()

    def _find_lxt(self):
        L = self.L
        l = [i for n, i in L.prog.ty_by_name.items() if L.prog.types[i].get("def", "").endswith("gtree::LeafIdx") and L.prog.types[i].get("args") == [self.LT]]
        if len(l) != 1:
            raise MissingAnchor("leaf index type")
        self._lxt = l[0]
        return l[0]

    def leaf(self, g, idx):
        return self.L.f(self.lnode(g, idx), self.LNT, "value")

    def f(self, node, name):
        return self.L.f(node, self.INT, name)

    def tot(self, node):
        return self.f(node, "tot_len")

    def num(self, node):
        return self.f(node, "num_children")

    def kids(self, node):
        return self.f(node, "children")

    def kid(self, node, j):
        return self.e.geti(self.kids(node), self.KT, j)

    def sane(self, node):
        L, e = self.L, self.e
        L.assume(L.NOT(e.lt(e.I(self.cap), self.num(node))))

    def inb(self, idx):
        """an index of an existing inode"""
        L, e = self.L, self.e
        L.assume(e.lt(self.n(idx), e.lenof(self.inodes(self.cur()), self.IVT)))

    def at(self, name):
        i = self.inst(name)
        return i["def"] + " @ " + str(i["body"]["span"])

    def concat(self, left, right, has, j):
        """child j of two nodes put side by side (the right one only if `has`)"""
        e, L = self.e, self.L
        nl = self.num(left)
        a = self.kid(left, j)
        if right is None:
            return a
        b = self.kid(right, e.sub(j, nl))
        return e.mux(L.OR(e.lt(j, nl), L.NOT(has)), a, b)


LENOFF = r"cola::gtree::Gtree::<ARITY, L>::len_offset_of_child"


def lenoff(t):
    """the combined length of the first children of a node, as a term"""
    e = t.e

    def m(e, c, st):
        gt, tg, gty = models.deref(e, c, 0, st)
        if gty != t.GT:
            return NotImplemented
        node = t.inode(gt, c.args[1])
        return e.app("len of first", t.us, t.kids(node), c.args[2]), models.fresh(st)
    e.userm[G + "len_offset_of_child"] = m
    return lambda node, k: e.app("len of first", t.us, t.kids(node), k)


def one_child(c, leaf="run"):
    """Inserting a child into a node, split or not, keeps the others in order."""
    R = STRUCT
    t = Nodes(c, leaf=leaf)
    L, e = t.L, t.e
    first = lenoff(t)
    fn = "insert_in_inode"
    w = t.at(fn)
    inst = t.inst(fn)
    lt = inst["body"]["locals"]
    idx, at, child, ln = [L.sym(n, lt[i + 2]) for i, n in enumerate(("idx", "at", "child", "len"))]
    t.inb(idx)
    pre = t.cur()
    old = t.inode(pre, idx)
    n = t.num(old)
    t.sane(old)
    L.assume(L.NOT(e.lt(n, at)))
    rv, out, rty = L.call(inst, L.ref(t.g), idx, at, child, ln)
    post = t.cur(out)
    new = t.inode(post, idx)
    split = L.isv(rv, rty, "Some")
    rest = L.payload(rv, rty, "Some")
    chk0(c, R, L, L.NOT(out.g), "a child can always be added", "adding a child to a node fails", w)
    both = e.mux(split, e.add(t.num(new), t.num(rest)), t.num(new))
    same(c, R, L, both, e.add(n, e.I(1)), out.g, "one child more", "adding a child to a node changes the number of the others", w)
    j = L.sym("any child", t.us)
    J = e.lt(j, e.add(n, e.I(1)))
    want = e.mux(e.lt(j, at), t.kid(old, j), e.mux(e.eq(j, at), child, t.kid(old, e.sub(j, e.I(1)))))
    same(c, R, L, t.concat(new, rest, split, j), want, L.AND(out.g, J), "the children stay in order", "adding a child to a node loses, repeats or moves children", w)
    for q, nm in ((new, "node"), (rest, "split off node")):
        g = out.g if q is new else L.AND(out.g, split)
        chk0(c, R, L, L.AND(g, L.OR(e.eqc(t.num(q), 0), e.lt(e.I(t.cap), t.num(q)))), f"no {nm} is left empty or too full", f"adding a child leaves a {nm} empty or too full", w)
        chk0(c, R, L, L.AND(g, L.b.XOR(L.G(t.f(q, "has_leaves")), L.G(t.f(old, "has_leaves")))), f"the {nm}'s children are of the same kind", f"adding a child changes what the {nm} thinks its children are", w)
    same(c, R, L, t.f(new, "parent"), t.f(old, "parent"), out.g, "the node stays where it is", "adding a child changes the node's parent", w)
    nl = t.num(new)
    in_left = e.lt(at, nl)
    k = e.mux(in_left, e.sub(nl, e.I(1)), nl)
    want = e.add(first(old, k), e.mux(in_left, ln, e.I(0)))
    same(c, LEN, L, t.tot(new), want, L.AND(out.g, split), "a split node's length is that of its children", "a split node's length is not that of the children it keeps", w)
    lengths(t, old, new, rest, split, out.g, ln, w)
    others(t, pre, post, idx, out.g, w)
    c.analysed.add(inst["def"])


def lengths(t, old, new, rest, split, g, ln, w):
    """node lengths after children of total length ln were added"""
    L, e, c = t.L, t.e, t.c
    tot = e.add(t.tot(old), ln)
    same(c, LEN, L, t.tot(new), tot, L.AND(g, L.NOT(split)), "the node's length grows by the child's", "adding a child to a node does not add its length", w)
    same(c, LEN, L, e.add(t.tot(new), t.tot(rest)), tot, L.AND(g, split), "the nodes' lengths add up", "the lengths of a split node's halves do not add up", w)


def others(t, pre, post, idx, g, w, rule=STRUCT, what="adding a child"):
    L, e, c = t.L, t.e, t.c
    j = L.sym("any node", t.us)
    oth = L.AND(g, L.NOT(e.eq(j, t.n(idx))))
    same(c, rule, L, e.geti(t.inodes(post), t.IVT, j), e.geti(t.inodes(pre), t.IVT, j), oth, "other nodes stay", f"{what} changes other nodes", w)
    for f in ("lnodes", "root_idx"):
        same(c, rule, L, L.f(post, t.GT, f), L.f(pre, t.GT, f), g, f"{f} stay", f"{what} changes the tree's {f}", w)


def two_children(c, leaf="run"):
    """Inserting two children into a node, split or not, keeps the others in order."""
    R = STRUCT
    t = Nodes(c, leaf=leaf)
    L, e = t.L, t.e
    first = lenoff(t)
    fn = "insert_two_in_inode"
    w = t.at(fn)
    inst = t.inst(fn)
    lt = inst["body"]["locals"]
    idx, at1, ch1, ln1, at2, ch2, ln2 = [L.sym(n, lt[i + 2]) for i, n in enumerate(("idx", "first at", "first", "first len", "second at", "second", "second len"))]
    t.inb(idx)
    pre = t.cur()
    old = t.inode(pre, idx)
    n = t.num(old)
    t.sane(old)
    for at in (at1, at2):
        L.assume(L.NOT(e.lt(n, at)))
    again = []

    def put(node, a1, c1, l1, a2, c2, l2):
        """the node with two more children (contract, used for the recursive call)"""
        k = t.kids(node)
        k = e.app("insertat", t.KT, e.app("insertat", t.KT, k, a1, c1), e.add(a2, e.I(1)), c2)
        names = L.prog.field_names(t.INT)
        for nm, v in (("children", k), ("num_children", e.add(t.num(node), e.I(2))), ("tot_len", e.add(t.tot(node), e.add(l1, l2)))):
            node = e.putf(node, t.INT, 0, names.index(nm), v)
        return node

    def rec(e, cc, st):
        gt, tg, gty = models.deref(e, cc, 0, st)
        a = cc.args[1:]
        node = t.inode(gt, a[0])
        room = L.NOT(e.lt(e.I(t.cap - 2), t.num(node)))
        ok = L.AND(room, L.NOT(e.lt(a[4], a[1])), L.NOT(e.lt(t.num(node), a[4])))
        again.append((st.g, ok))
        s = models.fresh(st)
        node = put(node, *a[1:])
        iv = e.puti(t.inodes(gt), t.IVT, t.n(a[0]), node)
        e.wr(s, tg, e.putf(gt, t.GT, 0, L.prog.field_names(t.GT).index("inodes"), iv))
        return models.opt(e, cc.dty, 0, UNDEF), s
    e.userm[G + fn] = rec
    rv, out, rty = L.call(inst, L.ref(t.g), idx, at1, ch1, ln1, at2, ch2, ln2)
    for g, ok in again:
        chk0(c, R, L, L.AND(g, L.NOT(ok)), "a second attempt has room", "after a node was split it still has no room for two more children", w)
    post = t.cur(out)
    new = t.inode(post, idx)
    split = L.isv(rv, rty, "Some")
    rest = L.payload(rv, rty, "Some")
    chk0(c, R, L, L.NOT(out.g), "two children can always be added", "adding two children to a node fails", w)
    swap = e.lt(at2, at1)
    pick = lambda a, b: e.mux(swap, b, a)
    f, s_, cf, cs, lf, ls = pick(at1, at2), pick(at2, at1), pick(ch1, ch2), pick(ch2, ch1), pick(ln1, ln2), pick(ln2, ln1)
    both = e.mux(split, e.add(t.num(new), t.num(rest)), t.num(new))
    same(c, R, L, both, e.add(n, e.I(2)), out.g, "two children more", "adding two children to a node changes the number of the others", w)
    j = L.sym("any child", t.us)
    J = e.lt(j, e.add(n, e.I(2)))
    one = e.I(1)
    s1 = e.add(s_, one)
    want = e.mux(e.lt(j, f), t.kid(old, j), e.mux(e.eq(j, f), cf, e.mux(e.lt(j, s1), t.kid(old, e.sub(j, one)), e.mux(e.eq(j, s1), cs, t.kid(old, e.sub(j, e.I(2)))))))
    same(c, R, L, t.concat(new, rest, split, j), want, L.AND(out.g, J), "the children stay in order", "adding two children to a node loses, repeats or moves children", w)
    for q, nm in ((new, "node"), (rest, "split off node")):
        g = out.g if q is new else L.AND(out.g, split)
        chk0(c, R, L, L.AND(g, L.OR(e.eqc(t.num(q), 0), e.lt(e.I(t.cap), t.num(q)))), f"no {nm} is left empty or too full", f"adding two children leaves a {nm} empty or too full", w)
        chk0(c, R, L, L.AND(g, L.b.XOR(L.G(t.f(q, "has_leaves")), L.G(t.f(old, "has_leaves")))), f"the {nm}'s children are of the same kind", f"adding two children changes what the {nm} thinks its children are", w)
    same(c, R, L, t.f(new, "parent"), t.f(old, "parent"), out.g, "the node stays where it is", "adding two children changes the node's parent", w)
    nl = t.num(new)
    in1, in2 = e.lt(f, nl), e.lt(s1, nl)
    k = e.sub(nl, e.add(e.mux(in1, one, e.I(0)), e.mux(in2, one, e.I(0))))
    want = e.add(first(old, k), e.add(e.mux(in1, lf, e.I(0)), e.mux(in2, ls, e.I(0))))
    same(c, LEN, L, t.tot(new), want, L.AND(out.g, split), "a split node's length is that of its children", "a split node's length is not that of the children it keeps", w)
    lengths(t, old, new, rest, split, out.g, e.add(ln1, ln2), w)
    others(t, pre, post, idx, out.g, w)
    c.analysed.add(inst["def"])

"""What is stored and what comes back: the codecs of the replica's own state."""
import models
import tape
from gvf import NT, MissingAnchor
from lab import trunc
from . import codec

OK, ERR = "Ok", "Err"


def deref_elem(T, L, ref, sk, st):
    """the element an encoder's loop is at: (collection type, key or index, element)"""
    e = L.e
    us = L.ty("usize")
    for t, g in e.galts(ref):
        if t.k != "R":
            return None
        ty = e.pathty(e.rootty(t.a[0]), t.a[1])
        v = e.rd(st, t.a[0], t.a[1])
        ct = e.prog.types[ty]
        if ty == getattr(L, "FT", -1):
            et = L.ty("run_indices::Fragment")
            return ty, e.app("iteridx", us, ref, sk), e.symval(NT("X", "fragat", et, v, e.app("iteridx", us, ref, sk)), et)
        if ct["k"] == "adt" and ct["def"].endswith("HashMap"):
            key = e.app("iterkey", ct["args"][0], ref, sk)
            return ty, key, e.geti(v, ty, key, True)
        ix = e.app("iteridx", us, ref, sk)
        return ty, ix, e.geti(v, ty, ix)
    return None


def encoder_loops(t):
    """[(loop record, collection type, key or index, element)] of the encoder's loops, outermost first"""
    out = []
    for rid, (er, body) in enumerate(t.T.reps):
        for ref, sk in t.T.iters(er):
            x = deref_elem(t.T, t.L, ref, sk, t.pre)
            if x:
                out.append((er,) + x)
    return out


class Levels:
    """A value the decoder builds in a nest of loops: the loops, outermost
    first, and what one turn of the innermost makes of it."""

    def __init__(self, t, v, pc):
        L = t.L
        self.recs, self.phis, self.inits = [], [], []
        self.final = None
        cur, g = v, pc
        while True:
            alts = [x for x, h in L.e.galts(cur) if L.feasible(L.AND(h, g))]
            rec = None
            if len(alts) == 1:
                for r in L.e.loops:
                    if alts[0] in getattr(r, "phis", {}):
                        rec = r
            if rec is None or rec in self.recs:
                self.final = [(x, L.AND(h, g)) for x, h in L.e.galts(cur) if L.feasible(L.AND(h, g))]
                self.last = cur
                self.g = g
                return
            init, back, _ = rec.phis[alts[0]]
            self.recs.append(rec)
            self.phis.append(alts[0])
            self.inits.append((init, rec.g))
            cur, g = back, rec.cont

    def start(self, t, c, R, what, ok, msg):
        """the outermost loop starts from `ok(init)`, the inner ones where the outer one was"""
        L = t.L
        if not self.recs:
            c.check(False, R, f"{what} is rebuilt", f"{what} isn't rebuilt in a loop: {trunc(self.last)}", t.w)
            return False
        init, g = self.inits[0]
        for x, h in L.e.galts(init):
            z = L.feasible(L.AND(h, g))
            if z:
                c.check(ok(x), R, f"{what} {msg}", lambda: f"{what} does not start that way: {trunc(L.e.G1(x))} (it should: {msg})", t.w)
        for i in range(1, len(self.recs)):
            init, g = self.inits[i]
            d = L.diff(init, L.e.G1(self.phis[i - 1]), g)
            c.check(d == 0, R, f"{what}: what was built so far is kept", lambda: f"{what}: an inner loop starts over from {trunc(init)}, losing what was built, when {L.why(d)}", t.w)
        return True


class Sum:
    """A number the decoder adds to in its innermost loop, and carries through
    the loops around it: these loops, innermost first."""

    def __init__(self, t, v, pc):
        self.t, self.v, self.pc = t, v, pc
        L = t.L
        self.levels = []
        while True:
            alts = [x for x, h in L.e.galts(v) if L.feasible(L.AND(h, pc))]
            rec = None
            if len(alts) == 1:
                for r in L.e.loops:
                    if alts[0] in getattr(r, "phis", {}):
                        rec = r
            if rec is None or any(rec is x[0] for x in self.levels):
                self.start = v
                self.g = pc
                return
            init, back, _ = rec.phis[alts[0]]
            self.levels.append((rec, alts[0], init, back))
            v, pc = init, rec.g

    def check(self, c, R, what, step):
        """it's the sum of the steps since the start of the outermost of these loops"""
        t, L = self.t, self.t.L
        if not self.levels:
            d = 1
            c.check(False, R, f"{what} is added up", lambda: f"{what} isn't added up from piece to piece: {trunc(self.v)}", t.w)
            return
        d = L.diff(self.start, L.e.I(0), self.g)
        c.check(d == 0, R, f"{what} is 0 at first", lambda: f"{what} starts from {trunc(self.start)}, not 0, when {L.why(d)}", t.w)
        for i, (rec, ph, init, back) in enumerate(self.levels):
            want = L.e.add(L.e.G1(ph), step) if i == 0 else L.e.G1(self.levels[i - 1][1])
            d2 = L.diff(back, want, rec.cont)
            c.check(d2 == 0, R, f"{what} moves on by the length of each piece", lambda: f"{what} becomes {trunc(back)} instead of {trunc(want)}, when {L.why(d2)}", t.w)


def run_tree(c):
    R = "run-tree-codec"

    def setup(t):
        L = t.L
        tape.fragment_seq(L)
        leaves = L.e.lenof(L.f(t.val, t.vt, "gtree.lnodes"), None)

        def on_root(pos, n):
            # every leaf still to come takes up at least a byte
            if len(pos) == 1 and not any(it[0] == "rep" for it in t.T.seqs[pos[0][0]][:pos[0][1]]):
                L.assume(L.NOT(L.e.lt(n, leaves)))
        t.T.on_root = on_root

    t = codec.Trip(c, R, "RunTree", setup=setup)
    L, e = t.L, t.L.e
    LT, IT = L.fty(t.vt, "gtree.lnodes"), L.fty(t.vt, "gtree.inodes")
    lnodes = L.f(t.val, t.vt, "gtree.lnodes")
    LN, IN = e.elty(LT), e.elty(IT)
    ctx = {}
    for er, ty, ix, el in encoder_loops(t):
        n = e.prog.types[ty]["n"]
        if ty == IT:
            ctx["inode"] = (er, ix, el)
            arity = next(x["len"] for x in [e.prog.types[L.fty(IN, "children")]])
            L.assume(L.NOT(e.lt(e.I(arity), L.f(el, IN, "num_children"))))
        elif ty == L.FT:
            ctx["frag"] = (er, ix, el)
        elif e.prog.types[ty]["k"] == "adt" and e.prog.types[ty]["def"].endswith("HashMap"):
            ctx["rep"] = (er, ix, el, ty)
        elif ty == L.fty(L.ty("run_indices::ReplicaIndices"), "vec"):
            ctx["run"] = (er, ix, el, ty)
    for k in ("inode", "frag", "rep", "run"):
        if k not in ctx:
            raise MissingAnchor(f"the loop that encodes the run tree's {k}")
    FR = L.ty("run_indices::Fragment")
    frag = ctx["frag"][2]
    li = L.f(frag, FR, "idx.idx")
    leaf = e.geti(lnodes, LT, li)
    # the pieces of a run are leaves of the tree, whose text has its author, run and length
    txt = lambda x: L.f(leaf, LN, "value." + x)
    L.assume(e.lt(li, e.lenof(lnodes, LT)))
    L.assume(e.eq(txt("text.inserted_by"), ctx["rep"][1]))
    L.assume(e.eq(txt("run_ts"), ctx["run"][1]))
    L.assume(L.NOT(e.lt(txt("text.range.end"), txt("text.range.start"))))
    L.assume(e.eq(L.f(frag, FR, "len"), e.sub(txt("text.range.end"), txt("text.range.start"))))
    lv = {}

    def mid(t):
        pay = L.payload(t.rv, t.rty, OK)
        tt = L.prog.field_ty(t.rty, L.variant(t.rty, OK), 0)
        out = e.getf(pay, tt, 0, 0)
        pc = L.AND(t.post.g, L.isv(t.rv, t.rty, OK))
        m = lv["lnodes"] = Levels(t, L.f(out, t.vt, "gtree.lnodes"), pc)
        # storing a leaf leaves their number as it is
        for ph in m.phis:
            L.assume(e.eq(e.lenof(e.G1(ph), LT), e.lenof(lnodes, LT)))
        # where a leaf's text starts: the lengths of its author's pieces so far
        starts = []
        for x, g in m.final:
            if x.k == "X" and x.a[0] == "put":
                starts.append((L.f(x.a[4], LN, "value.text.range.start"), g))
        lv["starts"] = starts
        for s, g in starts:
            z = Sum(t, s, g)
            lv.setdefault("sums", []).append(z)
            if not z.levels:
                continue
            # the index says that this is where the leaf's text starts
            L.assume(e.eq(e.G1(z.levels[0][1]), txt("text.range.start")))
            L.assume(L.NOT(e.lt(e.I(2 ** 64 - 1), e.add(e.G1(z.levels[0][1]), e.sub(txt("text.range.end"), txt("text.range.start"))))))
            for rec, ph, _, _ in z.levels[1:]:
                if rec is turn(ctx["run"][0]):
                    L.assume(e.eq(e.G1(ph), e.getf(ctx["run"][2], e.elty(ctx["run"][3]), 0, 1)))
        # the decoder's n-th turn is about the n-th run
        rec = turn(ctx["run"][0])
        if rec is not None:
            p = t.T.dec_counts(rec, t.T.enc_count(ctx["run"][0], t.pre), rec.g, pc)
            if p is not None:
                L.assume(e.eq(p, ctx["run"][1]))

    def turn(er):
        k = t.T.assigned.get(next(i for i, (r, _) in enumerate(t.T.reps) if r is er))
        return next((r for r in reversed(e.loops) if r.key == k and r.phis), None)
    t.mid = mid
    out = t.decode()
    if out is None:
        return t.finish()
    pc = t.pg
    # the lengths add up
    for z in lv.get("sums", []):
        z.check(c, R, "the position a piece of text starts at", e.sub(txt("text.range.end"), txt("text.range.start")))
        c.check(not any(x[0] is turn(ctx["rep"][0]) for x in z.levels), R, "each author's text starts at 0", "the position a piece of text starts at goes on from the text of the author before", t.w)
    c.check(bool(lv.get("sums")), R, "leaves are stored", "the decoder stores no leaf", t.w)
    # the leaves
    m = lv["lnodes"]
    if m.start(t, c, R, "the tree's leaves", lambda x: x.k == "X" and x.a[0] == "filled" and L.diff(x.a[2], e.lenof(lnodes, LT)) == 0, "have room for as many as were encoded"):
        for x, g in m.final:
            if not c.check(x.k == "X" and x.a[0] == "put" and e.galts(x.a[2])[0][0] is m.phis[-1], R, "one leaf per piece", lambda: f"a piece read does not store one leaf: {trunc(e.G1(x))}", t.w):
                continue
            d = L.diff(x.a[3], li, g)
            c.check(d == 0, R, "leaves keep their places", lambda: f"a leaf is stored at {trunc(x.a[3])} instead of its place, when {L.why(d)}", t.w)
            t.same(x.a[4], leaf, LN, "leaf", g)
    # the nodes
    t.same(L.f(out, t.vt, "gtree.root_idx"), L.f(t.val, t.vt, "gtree.root_idx"), L.fty(t.vt, "gtree.root_idx"), "root_idx", pc)
    CT = L.fty(t.vt, "gtree.cursor")
    z = L.feasible(L.AND(pc, L.isv(L.f(out, t.vt, "gtree.cursor"), CT, "Some")))
    c.check(z == 0, R, "no position is remembered", lambda: f"a decoded tree remembers a position, when {L.why(z)}", t.w)
    t.same(L.f(out, t.vt, "gtree.inodes"), L.f(t.val, t.vt, "gtree.inodes"), IT, "inodes", pc)
    indices(c, R, t, L.f(out, t.vt, "run_indices.map"), L.fty(t.vt, "run_indices.map"), pc, ctx, frag)
    t.finish()


def indices(c, R, t, out, MT, pc, ctx, frag):
    """where each author's runs are: the same pieces at the same positions"""
    L, e = t.L, t.L.e
    key, RT, FT = ctx["rep"][1], e.elty(MT), L.FT
    m = Levels(t, out, pc)
    if not m.start(t, c, R, "the index of runs", lambda x: x.k == "X" and x.a[0] == "new", "is empty at first"):
        return
    for x, g in m.final:
        while x.k == "X" and x.a[0] == "put":
            # an entry made first, and filled in then
            ys = [y for y, h in e.galts(x.a[2]) if L.feasible(L.AND(g, h))]
            inner = [y for y in ys if y.k == "X" and y.a[0] == "put" and L.diff(y.a[3], x.a[3], g) == 0]
            bases = {id(z): z for y in ys for z in ([w for w, _ in e.galts(y.a[2])] if y in inner else [y])}
            if not inner or len(bases) != 1:
                break
            x = NT("X", "put", x.a[1], e.G1(list(bases.values())[0]), x.a[3], x.a[4])
        base = [y for y, h in e.galts(x.a[2]) if L.feasible(L.AND(g, h))] if x.k == "X" and x.a[0] == "put" else []
        if not c.check(base == [m.phis[-1]], R, "one entry per author", lambda: f"what is read of one author does not make one entry of the index of runs: {trunc(e.G1(x))}", t.w):
            continue
        d = L.diff(x.a[3], key, g)
        c.check(d == 0, R, "the index of runs keeps its authors", lambda: f"the runs of an author are stored under {trunc(x.a[3])}, when {L.why(d)}", t.w)
        VT = L.fty(RT, "vec")
        v = Levels(t, L.f(x.a[4], RT, "vec"), g)
        if not v.start(t, c, R, "an author's runs", lambda y: y.k == "X" and y.a[0] == "new", "are none at first"):
            continue
        ET = e.elty(VT)
        for y, h in v.final:
            if not c.check(y.k == "X" and y.a[0] == "push" and e.galts(y.a[2])[0][0] is v.phis[-1], R, "one run per turn", lambda: f"what is read of a run does not add one run to its author's: {trunc(e.G1(y))}", t.w):
                continue
            d2 = L.diff(e.getf(y.a[3], ET, 0, 1), e.getf(ctx["run"][2], ET, 0, 1), h)
            c.check(d2 == 0, R, "runs start where they did", lambda: f"a run is said to start at {trunc(e.getf(y.a[3], ET, 0, 1))}, when {L.why(d2)}", t.w)
            f = Levels(t, e.getf(y.a[3], ET, 0, 0), h)
            if not f.start(t, c, R, "a run's pieces", lambda z: z.k == "X" and z.a[0] == "new", "are none at first"):
                continue
            for z, k in f.final:
                if not c.check(z.k == "X" and z.a[0] == "fpush" and e.galts(z.a[2])[0][0] is f.phis[-1], R, "one piece per turn", lambda: f"what is read of a piece does not add one piece to its run: {trunc(e.G1(z))}", t.w):
                    continue
                t.same(z.a[3], frag, L.ty("run_indices::Fragment"), "piece", k)


def replica(c):
    """the replica's parts are read back in the order they were written"""
    R = "replica-codec"
    P = c.prog()
    RT = next(i for i, t in enumerate(P.types) if t["k"] == "adt" and t["n"] == "replica::Replica")
    fields = {P.field_ty(RT, 0, i): f for i, f in enumerate(P.field_names(RT))}
    parts = [t for t in fields if P.types[t]["k"] == "adt"]

    def setup(t):
        L, e, T = t.L, t.L.e, t.T

        def enc(e, c, st):
            ty = e.prog.types[c.atys[0]]["e"]
            return T.encoder(P.types[ty]["n"])(e, c, st) if ty in parts else NotImplemented

        def dec(e, c, st):
            ok = e.prog.field_ty(c.dty, next(i for i, v in enumerate(e.prog.types[c.dty]["vs"]) if v["n"] == OK), 0)
            ty = e.prog.types[ok]["es"][0] if e.prog.types[ok]["k"] == "tuple" else None
            return T.decoder(P.types[ty]["n"])(e, c, st) if ty in parts else NotImplemented
        for ty in parts:
            n = P.types[ty]["n"].split("<")[0].split("::")[-1]
            try:
                for i in codec.enc_fn(P, n):
                    e.userm[i["def"]] = enc
                for i in codec.dec_fn(P, n):
                    e.userm[i["def"]] = dec
            except MissingAnchor:
                pass
    t = codec.Trip(c, R, "Replica", setup=setup)
    L, e = t.L, t.L.e
    out = t.decode()
    if out is None:
        return t.finish()
    ot = P.types[t.oty]
    got = [(x, e.getf(out, t.oty, 0, i)) for i, x in enumerate(ot["es"])] if ot["k"] == "tuple" else \
        [(P.field_ty(t.oty, 0, i), e.getf(out, t.oty, 0, i)) for i, _ in enumerate(P.field_names(t.oty))]
    for ty, v in got:
        if ty in parts:
            d = L.diff(v, L.f(t.val, t.vt, fields[ty]), t.pg)
            c.check(d == 0, R, f"the replica's {fields[ty]} survives", lambda: f"the replica's {fields[ty]} is read back as {trunc(v)}, when {L.why(d)}", t.w)
    stored = [fields[ty] for ty, _ in got if ty in parts]
    c.floor("parts of a replica read back", len(stored), 5)
    t.finish()


def backlog(c):
    """what waits in the backlog still waits"""
    R = "backlog-codec"
    t = codec.Trip(c, R, "Backlog")
    L, e = t.L, t.L.e
    IB, INS = L.ty("backlog::InsertionsBacklog"), L.ty("insertion::Insertion")
    keys = [(k, el, ty) for _, ty, k, el in encoder_loops(t) if e.prog.types[ty]["k"] == "adt" and e.prog.types[ty]["def"].endswith("HashMap") and e.elty(ty) == IB]
    n = 0
    for er, ty, ix, el in encoder_loops(t):
        if e.elty(ty) == INS:
            for k, _, _ in keys:
                # an author's list holds insertions of that author
                L.assume(e.eq(L.f(el, INS, "text.inserted_by"), k))
                L.assume(L.NOT(e.lt(L.f(el, INS, "text.range.end"), L.f(el, INS, "text.range.start"))))
                n += 1
    c.floor("the backlog's lists of insertions", n, 1)
    out = t.decode()
    if out is not None:
        t.same(out, t.val, t.vt, "Backlog", t.pg)
    t.finish()


def parts(c):
    R = "part-codec"
    codec.simple(c, R, "LamportClock")
    codec.simple(c, R, "BaseMap", "u64")
    codec.simple(c, R, "BaseMap", "usize")

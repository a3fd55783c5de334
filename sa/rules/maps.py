"""What a replica knows of the others: laws of the version/deletion maps and
their comparison.

The comparison is decided by a finite abstraction of its loops: for an
arbitrary key k0, whose entries stand in relation lt/eq/gt, the reachable
combinations of (loop variables, k0 visited?, relation of k0, has a smaller /
greater entry been seen?) are computed from the loops' transitions, and every
result is compared with what the combination says about all keys (k0 is
arbitrary) and about some key (the seen flags)."""
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St, pp
from lab import Lab, trunc
import models
from rules.replica import lab, done

VM = "version_map::BaseMap<usize>"


def get(L, inst, root, key, st=None):
    return L.pure(inst, L.ref(root), key, state=st)


def getter(L, ety):
    l = [i for i in L.prog.find(r"cola::version_map::BaseMap::<T>::get") if L.prog.types[i["body"]["locals"][0]]["n"] == ety]
    if not l:
        raise MissingAnchor("BaseMap::get")
    return l[0]


def instances(L, pat, mapty):
    try:
        return [inst_for(L, pat, mapty)]
    except MissingAnchor:
        return []


def inst_for(L, pat, mapty):
    """the instance of a BaseMap method for one element type"""
    out = []
    for i in L.prog.find(pat):
        t = L.prog.types[i["body"]["locals"][1]]
        t = L.prog.types[t["e"]] if t["k"] == "ref" else t
        if t["n"] == mapty:
            out.append(i)
    if not out:
        raise MissingAnchor(pat + " for " + mapty)
    return out[0]


# ------------------------------------------------------------------ laws
def map_laws(c):
    R = "map-laws"
    for ety in ("usize", "u64"):
        L = lab(c)
        mty = f"version_map::BaseMap<{ety}>"
        g = getter(L, ety)
        a = L.place("map", mty)
        k, k2 = L.sym("k", "u64"), L.sym("k2", "u64")
        v = L.sym("v", ety)
        pre = St(1, dict(L.st.m))
        mv, T = L.get(a), L.ty(mty)
        this_id, this = L.f(mv, T, "this_id"), L.f(mv, T, "this_value")
        w = g["def"]
        old = get(L, g, a, k)
        x = L.diff(old, this, L.e.eq(k, this_id))
        c.check(x == 0, R, f"own entry ({ety})", lambda: f"looking the replica's own entry up does not give it: {trunc(old)}", w)
        # get_mut: writes exactly that entry
        l = [i for i in L.prog.find(r"cola::version_map::BaseMap::<T>::get_mut") if L.prog.types[i["body"]["locals"][0]]["n"] == "&mut " + ety]
        for gm in l[:1]:
            rv, out, rty = L.call(gm, L.ref(a), k)
            L.e.wr(out, L.e.targets(rv, L.ty(ety), out), v)
            after = get(L, g, a, k2, out)
            want = L.e.mux(L.e.eq(k, k2), v, get(L, g, a, k2, pre))
            x = L.diff(after, want)
            c.check(x == 0, R, f"entries are independent ({ety})", lambda: f"writing one replica's entry leaves another's as {trunc(after)} instead of {trunc(want)} when {L.why(x)}", gm["def"])
            z, out0, _ = L.call(gm, L.ref(a), k)
            second(c, R, L, mty, a, pre, out0, k, f"looking an entry up ({ety})", gm["def"])
            cur = L.e.content(z, rty, out0)
            x = L.diff(cur, old)
            c.check(x == 0, R, f"mutable and shared lookup agree ({ety})", lambda: f"get_mut finds {trunc(cur)}, get finds {trunc(old)}", gm["def"])
        c.floor(f"get_mut instances ({ety})", len(l), 1)
        # insert never touches the own entry
        for ins in instances(L, r"cola::version_map::BaseMap::<T>::insert", mty):
            _, out, _ = L.call(ins, L.ref(a), k, v)
            after = get(L, g, a, k2, out)
            want = L.e.mux(L.AND(L.e.eq(k, k2), L.NOT(L.e.eq(k, this_id))), v, get(L, g, a, k2, pre))
            x = L.diff(after, want)
            c.check(x == 0, R, f"inserting an entry ({ety})", lambda: f"after inserting an entry, another is {trunc(after)} instead of {trunc(want)} when {L.why(x)}", ins["def"])
            second(c, R, L, mty, a, pre, out, k, f"inserting an entry ({ety})", ins["def"])
        # iteration: own entry first, then each other replica's
        entries(c, R, L, mty, ety, a)
        done(c, L)


def second(c, R, L, mty, a, pre, out, k, what, w):
    """the own replica never gets a second entry"""
    T = L.ty(mty)
    own = L.f(L.get(a, pre), T, "this_id")
    rest, r2 = L.f(L.get(a, pre), T, "rest"), L.f(L.get(a, out), T, "rest")
    h = models.map_has(L.e, r2, own, L.fty(T, "rest"))
    x = L.AND(h, L.NOT(models.map_has(L.e, rest, own, L.fty(T, "rest"))))
    c.check(not L.feasible(x), R, "no second own entry: " + what, lambda: f"the map gets a second entry for the replica itself when {L.why(x)}", w)


def entries(c, R, L, mty, ety, a):
    """the iterators over a map visit the own entry and each other one"""
    for name in ("iter", "iter_mut"):
        try:
            it = inst_for(L, r"cola::version_map::BaseMap::<T>::" + name, mty)
        except MissingAnchor:
            continue
        rv, out, rty = L.call(it, L.ref(a))
        root = L.place("it_" + name + ety, rty, rv)
        out.m[root] = rv
        T = L.ty(mty)
        mv = L.get(a, out)
        P = L.prog
        # the chain's two halves, taken apart
        if not P.types[rty]["n"].startswith("std::iter::Chain<std::iter::Once<"):
            raise Imprecise("iterator over a map's entries of type " + P.types[rty]["n"])
        aty, bty = L.fty(rty, "a"), L.fty(rty, "b")
        first, fty = L.payload(L.f(rv, rty, "a"), aty, "Some"), P.field_ty(aty, L.variant(aty, "Some"), 0)
        while P.types[fty]["k"] != "tuple":
            t = P.types[fty]
            if t["ak"] == "struct":
                first, fty = L.e.getf(first, fty, 0, 0), P.field_ty(fty, 0, 0)
            else:
                first, fty = L.payload(first, fty, "Some"), P.field_ty(fty, L.variant(fty, "Some"), 0)
        cont = lambda v, t, st: L.e.content(v, t, st) if P.types[t]["k"] == "ref" else v

        def pair(v, ty, st):
            return [cont(L.e.getf(v, ty, 0, i), P.field_ty(ty, 0, i), st) for i in (0, 1)]
        key, val = pair(first, fty, out)
        ok = L.diff(key, L.f(mv, T, "this_id")) == 0 and L.diff(val, L.f(mv, T, "this_value")) == 0
        c.check(ok, R, f"{name} starts with the own entry ({ety})", lambda: f"the first item of the map's iterator is {trunc(first)}", it["def"])
        # the other half: the remaining entries, each mapped to (id, value)
        m, mapty = L.payload(L.f(rv, rty, "b"), bty, "Some"), P.field_ty(bty, L.variant(bty, "Some"), 0)
        inner, fn = L.f(m, mapty, "iter"), L.f(m, mapty, "f")
        al = L.e.galts(inner)
        restty = L.fty(T, "rest")
        ok = len(al) == 1 and str(al[0][0].a[0]).startswith("iterover:")
        if ok:
            tg = L.e.targets(al[0][0].a[2], restty, out)
            ok = len(tg) == 1 and tg[0][1] == a and L.e.rd(out, tg[0][1], tg[0][2]) is L.f(mv, T, "rest")
        c.check(ok, R, f"{name} goes on with every other entry ({ety})", lambda: f"after the own entry the map's iterator gives {trunc(inner)}", it["def"])
        if ok:
            k = L.sym("k3", "u64")
            kr = ("const", NT("X", "keyref", k))
            L.e.root_ty[kr], L.e.consts[kr] = L.ty("u64"), k
            vr = L.e.mkG([(NT("R", r, tuple(p) + (("k", k),)), g) for g, r, p in tg])
            fi = P.insts[P.types[L.fty(mapty, "f")]["inst"]]
            argty = fi["body"]["locals"][2]
            root = L.place("mapclosure" + name + ety, L.fty(mapty, "f"), fn)
            out.m[root] = fn
            mk = lambda i, v: L.e.G1(NT("R", kr, ())) if i == 0 else v
            arg = L.e.mkA(argty, [(0, 1, (mk(0, None), vr))])
            r2, s2, pty = L.call(fi, L.ref(root), arg, state=out)
            k3, v3 = pair(r2, pty, s2)
            ok = L.diff(k3, k) == 0 and L.diff(v3, L.e.geti(L.f(mv, T, "rest"), restty, k, True)) == 0
            c.check(ok, R, f"{name} yields each entry under its replica ({ety})", lambda: f"an entry of the map is yielded as ({trunc(k3)}, {trunc(v3)})", it["def"])


# ------------------------------------------------------------ comparison
class Visits:
    def __init__(self, L, roots, g):
        self.L, self.g = L, g
        self.seen = {}
        e = L.e
        for i in L.prog.find(r"cola::version_map::BaseMap::<T>::iter"):
            e.userm[i["def"]] = self.m_iter
        for i in L.prog.insts:
            d = i["def"]
            if d == "<std::iter::Chain<A, B> as std::iter::Iterator>::next":
                e.userm[d] = self.m_next
            if d.endswith("<std::iter::Filter<I, P> as std::iter::Iterator>::next"):
                e.userm[d] = self.m_filter

    def m_iter(self, e, c, st):
        return e.G1(NT("X", "entries", c.dty, c.args[0])), models.fresh(st)

    def src(self, e, v):
        al = e.galts(v)
        if len(al) == 1 and al[0][0].k == "X" and al[0][0].a[0] == "entries":
            return al[0][0].a[2]
        return None

    def visit(self, e, c, st, ref):
        L = self.L
        sk = models.site(e, c)
        u64 = L.ty("u64")
        key = e.app("entrykey", u64, ref, sk)
        has = e.atom("bool", NT("X", "entryhas", None, ref, sk))
        val = L.pure(self.g, ref, key, state=st)
        rec = {"key": key, "ref": ref, "has": has, "skip": 0, "loop": e.loopstack[-1] if e.loopstack else None}
        self.seen[sk] = rec
        return key, val, has, rec

    def item(self, e, pty, key, val, st):
        fs = []
        for i, v in enumerate((key, val)):
            t = e.prog.field_ty(pty, 0, i)
            if e.prog.types[t]["k"] == "ref":
                r = ("const", NT("X", "itemref", t, v))
                e.root_ty[r] = e.prog.types[t]["e"]
                e.consts[r] = v
                v = e.G1(NT("R", r, ()))
            fs.append(v)
        return e.mkA(pty, [(0, 1, tuple(fs))])

    def m_next(self, e, c, st):
        v = models.deref(e, c, 0, st)[0]
        ref = self.src(e, v)
        if ref is None:
            return NotImplemented
        key, val, has, rec = self.visit(e, c, st, ref)
        some = self.L.variant(c.dty, "Some")
        return models.opt(e, c.dty, has, self.item(e, e.prog.field_ty(c.dty, some, 0), key, val, st)), models.fresh(st)

    def m_filter(self, e, c, st):
        v, tg, ty = models.deref(e, c, 0, st)
        names = e.prog.field_names(ty)
        ii, pi = names.index("iter"), names.index("predicate")
        ref = self.src(e, e.getf(v, ty, 0, ii))
        if ref is None:
            return NotImplemented
        key, val, has, rec = self.visit(e, c, st, ref)
        some = self.L.variant(c.dty, "Some")
        pty = e.prog.field_ty(c.dty, some, 0)
        it = self.item(e, pty, key, val, st)
        r = ("const", NT("X", "filteritem", pty, it))
        e.root_ty[r] = pty
        e.consts[r] = it
        ok, s = models.callclosure(e, e.getf(v, ty, 0, pi), e.prog.field_ty(ty, 0, pi), [e.G1(NT("R", r, ()))], [None], st, c)
        g = self.L.G(ok)
        rec["skip"] = e.b.NOT(g)
        rec["keep"] = g
        s = models.fresh(s)
        # an item that is yielded satisfies the predicate
        s.g = e.b.AND(s.g, e.b.OR(e.b.NOT(has), g))
        return models.opt(e, c.dty, has, it), s


def finite(L, phis):
    """valuations of the loop variables that range over few values:
    [(tuple of labels, guard over the phis)] and readers for init/back values"""
    vars_ = []
    for ph, (init, back, (root, path)) in phis.items():
        t = L.e.root_ty[root]
        if path[-1:] == (("disc",),):
            ty = L.e.pathty(t, path[:-1])
        else:
            ty = L.e.pathty(t, path)
        tt = L.prog.types[ty]
        if tt["n"] == "bool" or tt["k"] == "adt" and tt["ak"] == "enum":
            vars_.append((ph, ty, path, init, back))
    return vars_


def labels(L, v, ty):
    if L.prog.types[ty]["n"] == "bool":
        g = L.G(v)
        return [(1, g), (0, L.NOT(g))]
    x = L.e.expand(v, ty)
    out = {}
    for vv, g, _ in x.a[1]:
        out[vv] = L.OR(out.get(vv, 0), g)
    return sorted(out.items())


def splits(L, vals, g):
    """feasible combinations of the values under g: [(labels, guard)]"""
    out = [((), g)]
    for v, ty in vals:
        nxt = []
        for lab_, gg in out:
            for k, kg in labels(L, v, ty):
                h = L.AND(gg, kg)
                if h and L.feasible(h):
                    nxt.append((lab_ + (k,), h))
        out = nxt
    return out


def map_order(c):
    R = "map-order"
    L = lab(c)
    e = L.e
    g = getter(L, "usize")
    a, b = L.place("a", VM), L.place("b", VM)
    V = Visits(L, (a, b), g)
    fn = r"<cola::version_map::BaseMap<usize> as std::cmp::PartialOrd(<.*>)?>::partial_cmp"
    rv, out, oty = L.call(fn, L.ref(a), L.ref(b))
    w = L.fn(fn)["def"] + " @ " + str(L.fn(fn)["body"]["span"])
    for p in L.e.panics:
        c.check(not L.feasible(p.g), R, "no panic", lambda: "comparing two version maps can panic", w)
    loops = [r for r in e.loops if r.parent is None]
    by = {}
    for rec in V.seen.values():
        if rec["loop"] is not None:
            by.setdefault(id(e.loops[rec["loop"]]), []).append(rec)
    steps = []
    for r in loops:
        vs = by.get(id(r), [])
        if len(vs) != 1:
            raise Imprecise(f"{len(vs)} visits of map entries in one iteration of {r.key}")
        steps.append((r, vs[0]))
    c.floor("loops over the maps' entries", len(steps), 1)
    ORD = L.prog.field_ty(oty, L.variant(oty, "Some"), 0)
    som = L.isv(rv, oty, "Some")
    pay = L.payload(rv, oty, "Some")
    RES = {"None": L.NOT(som)}
    for n in ("Less", "Equal", "Greater"):
        RES[n] = L.AND(som, L.isv(pay, ORD, n))

    def rel(key):
        x, y = get(L, g, a, key), get(L, g, b, key)
        lt, gt = e.lt(x, y), e.lt(y, x)
        zx, zy = e.eqc(x, 0), e.eqc(y, 0)
        return {("lt",): L.AND(lt, zx), ("lt", "+"): L.AND(lt, L.NOT(zx)), ("gt",): L.AND(gt, zy), ("gt", "+"): L.AND(gt, L.NOT(zy)),
                ("eq",): L.AND(L.NOT(lt), L.NOT(gt), zx), ("eq", "+"): L.AND(L.NOT(lt), L.NOT(gt), L.NOT(zx))}
    classes = list(rel(L.sym("k0", "u64")))
    # must the key be visited by a pass over a's / b's entries?
    must = {"a": {("lt", "+"), ("gt",), ("gt", "+"), ("eq", "+")}, "b": {("gt", "+"), ("lt",), ("lt", "+"), ("eq", "+")}}

    def which(ref):
        rs = {root for _, root, p in e.targets(ref, L.ty(VM), L.st)}
        return "a" if rs == {a} else "b" if rs == {b} else None
    # states: (labels of the current loop's variables, class of k0, seen smaller, seen greater, k0 visited in this loop) with the path's guard
    cur = [(cl, False, False, 1) for cl in classes]
    ends = []
    nstates = 0
    for li, (r, rec) in enumerate(steps):
        src = which(rec["ref"])
        if src is None:
            raise Imprecise("pass over the entries of an unknown map")
        vars_ = finite(L, r.phis)
        rl = rel(rec["key"])
        init = set()
        pend = {}
        for cl, sl, sg, gd in cur:
            for lb, gg in splits(L, [(x[3], x[1]) for x in vars_], L.AND(gd, r.g)):
                # a state keeps the guard of earlier loops, to relate their exits
                init.add((lb, cl, False, sl, sg, gd))
        head = {}
        for ph, ty, path, i, bk in vars_:
            head[ph] = L.e.symval(ph, L.e.pathty(L.e.root_ty[r.phis[ph][2][0]], path)) if path[-1:] != (("disc",),) else None
        todo, seen = list(init), set(init)

        def headg(lb):
            h = 1
            for (ph, ty, path, i, bk), want in zip(vars_, lb):
                for k, kg in labels(L, headval(L, r, ph), ty):
                    if k == want:
                        h = L.AND(h, kg)
            return h
        nxt = []
        while todo:
            s = todo.pop()
            lb, cl, vis, sl, sg, gd = s
            hg = L.AND(headg(lb), gd)
            # an element is visited: it is k0, or it is another
            for isk in (True, False):
                if isk and vis:
                    continue
                for cl2 in ([cl] if isk else classes):
                    if cl2 not in must[src] and cl2[0] != "eq" and False:
                        continue
                    eg = L.AND(hg, rec["has"], rl[cl2])
                    nsl, nsg = sl or cl2[0] == "lt", sg or cl2[0] == "gt"
                    keep = rec.get("keep", 1)
                    if rec["skip"] and L.feasible(L.AND(eg, rec["skip"])):
                        t = (lb, cl, vis or isk, sl, sg, gd)
                        if t not in seen:
                            seen.add(t)
                            todo.append(t)
                    for lb2, gg in splits(L, [(x[4], x[1]) for x in vars_], L.AND(eg, r.cont)):
                        t = (lb2, cl, vis or isk, nsl, nsg, gd)
                        if t not in seen:
                            seen.add(t)
                            todo.append(t)
                    ex = L.AND(eg, keep, L.NOT(r.cont))
                    if ex and L.feasible(ex):
                        nxt.append((cl, nsl, nsg, ex, False))
            # no element is left
            if vis or cl not in must[src]:
                ex = L.AND(hg, L.NOT(rec["has"]))
                if ex and L.feasible(ex):
                    nxt.append((cl, sl, sg, ex, True))
        nstates += len(seen)
        # leave: results decided here are checked at the end, the others go on
        later = [x[0].g for x in steps[li + 1:li + 2]]
        cur = []
        for cl, sl, sg, ex, full in nxt:
            go = L.AND(ex, later[0]) if later else 0
            if later and go and L.feasible(go):
                cur.append((cl, sl, sg, go))
            stop = L.AND(ex, L.NOT(later[0])) if later else ex
            if stop and L.feasible(stop):
                ends.append((cl, sl, sg, stop))
        cur = list(dict.fromkeys(cur))
    bad = set()
    for cl, sl, sg, gd in ends:
        for n, rg in RES.items():
            x = L.AND(gd, rg)
            if not x or not L.feasible(x):
                continue
            if n in ("Greater", "Equal") and cl[0] == "lt":
                bad.add((n, "although some entry of the left map is smaller"))
            if n in ("Less", "Equal") and cl[0] == "gt":
                bad.add((n, "although some entry of the left map is greater"))
            if n in ("Less", "None") and not sl:
                bad.add((n, "although no entry of the left map is smaller"))
            if n in ("Greater", "None") and not sg:
                bad.add((n, "although no entry of the left map is greater"))
    c.floor("abstract states of the comparison", nstates, 4)
    for n in RES:
        msgs = [m for k, m in sorted(bad) if k == n]
        c.check(not msgs, R, f"result {n}", lambda: f"comparing two version maps gives {n} {msgs[0]}: knowledge of some replica is left out", w)
    done(c, L)
    c.samples.append(f"version-map comparison: {len(steps)} loops, {nstates} abstract states")


def headval(L, rec, ph):
    root, path = rec.phis[ph][2]
    return L.e.symval(ph, L.e.pathty(L.e.root_ty[root], path))

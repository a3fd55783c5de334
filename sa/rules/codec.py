"""Codec rules: what is decoded is what was encoded."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, pp
from tape import Tape


def enc_fn(prog, ty):
    for p in (rf"<.*\b{ty}(<.*>)? as cola::encode::Encode>::encode", rf"cola::.*<impl cola::encode::Encode for cola::(.*::)?{ty}(<.*>)?>::encode"):
        l = prog.find(p)
        if l:
            return l
    raise MissingAnchor("encoder of " + ty)


def dec_fn(prog, ty):
    for p in (rf"<.*\b{ty}(<.*>)? as cola::encode::Decode>::decode", rf"cola::.*<impl cola::encode::Decode for cola::(.*::)?{ty}(<.*>)?>::decode"):
        l = prog.find(p)
        if l:
            return l
    raise MissingAnchor("decoder of " + ty)


def pick(l, tyname):
    """the instance for the monomorphic type"""
    m = [i for i in l if tyname in i["n"]]
    return m[0] if m else l[0]


class Trip:
    """One round trip of a value of type `ty`."""
    mid = None          # what is known of the value, stated in terms of the decoder's loops

    def __init__(self, c, R, ty, mono=None, opaque=(), setup=None, cfg="rel", inv=None):
        self.inv = inv and (lambda *a: inv(self, *a))
        self.c, self.R, self.ty = c, R, ty
        L = self.L = Lab(c.prog(cfg), opaque=list(opaque))
        self.T = Tape(L)
        self.enc = pick(enc_fn(L.prog, ty), mono or ty)
        self.dec = pick(dec_fn(L.prog, ty), mono or ty)
        self.w = self.dec["def"] + " @ " + str(self.dec["body"]["span"])
        self.vt = L.prog.types[self.enc["body"]["locals"][1]]["e"]
        bt = L.prog.types[self.enc["body"]["locals"][2]]["e"]
        self.v = L.place("value", self.vt)
        self.val = L.get(self.v)
        if setup:
            setup(self)
        buf = L.place("buf", bt, L.e.app("new", bt))
        pan = len(L.e.panics)
        L.do(self.enc, L.ref(self.v), L.ref(buf))
        self.encpanics = L.e.panics[pan:]
        self.pre = type(L.st)(1, dict(L.st.m))
        d = L.diff(self.val, L.get(self.v))
        c.check(d == 0, R, f"{ty}: encoding leaves the value alone", f"encoding changes the {ty}", self.w)
        self.forms = self.T.parse(L.get(buf), None, L.st.g)
        self.alts = []
        for h, (g, items) in zip(self.T.settle([g for g, _ in self.forms], L.st.g), self.forms):
            self.alts.append((h, self.T.root(self.T.start(items))))
        # where the encoder's loops ended says nothing about the decoder's turns
        L.st.g = 1

    def decode(self):
        L, c, R, ty = self.L, self.c, self.R, self.ty
        ptr = L.e.mkG([(t, g) for g, t in self.alts])
        pan = len(L.e.panics)
        self.rv, self.post, self.rty = L.call(self.dec, ptr)
        if self.mid:
            self.mid(self)
        for p in L.e.panics[pan:]:
            z = L.feasible(p.g)
            c.check(z == 0, R, f"{ty}: decoding does not panic", lambda: f"decoding an encoded {ty} panics ({p.extra} at {p.span}) when {L.why(z)}", self.w)
        for g, m in self.T.problems:
            z = L.feasible(g)
            c.check(z == 0, R, f"{ty}: the decoder reads what the encoder wrote", lambda: f"{ty}: {m}, when {L.why(z)}", self.w)
        if self.post is None:
            c.check(False, R, f"{ty}: decoding succeeds", f"decoding an encoded {ty} never returns", self.w)
            return None
        ok = L.isv(self.rv, self.rty, "Ok")
        self.pg = L.AND(self.post.g, ok)
        z = L.feasible(L.AND(self.post.g, L.NOT(ok)))
        c.check(z == 0, R, f"{ty}: decoding succeeds", lambda: f"decoding an encoded {ty} fails when {L.why(z)}", self.w)
        for rec, key in self.T.stuck():
            c.check(False, R, f"{ty}: the decoder moves from one group to the next", f"{ty}: the decoder's loop {key} reads what the encoder's loop {rec.key} wrote, but starts every turn where the first one started", self.w)
        # everything was read
        for rid, (rec, body) in enumerate(self.T.reps):
            self.group(rid, rec, body)
        for sid, items in enumerate(self.T.seqs):
            for i, it in enumerate(items):
                if it[0] == "tok":
                    c.check((sid, i) in self.T.used, R, f"{ty}: every encoded field is read", lambda: f"{ty}: the encoded {it[1]} {str(it[2])[:100]} is never read back", self.w)
        tt = L.fty_of_ok = L.prog.field_ty(self.rty, L.variant(self.rty, "Ok"), 0)
        pay = L.payload(self.rv, self.rty, "Ok")
        out = L.e.getf(pay, tt, 0, 0)
        rest = L.e.getf(pay, tt, 0, 1)
        for t, g in L.e.galts(rest):
            z = L.feasible(L.AND(g, self.pg))
            if z:
                pos = t.a[0][1][1] if t.k == "R" and isinstance(t.a[0][1], tuple) else None
                fin = pos is not None and len(pos) == 1 and self.T.item(pos) is None
                c.check(fin, R, f"{ty}: the decoder stops where the encoder did", lambda: f"{ty}: the decoder does not consume exactly what was encoded (left at {pos}) when {L.why(z)}", self.w)
        self.out = out
        self.oty = L.prog.types[tt]["es"][0]
        return out

    def group(self, rid, rec, body):
        """a repeated group must be read as often as it was written"""
        L, c, R, ty = self.L, self.c, self.R, self.ty
        k = self.T.assigned.get(rid)
        nonempty = any(self.T.seqs[s] for _, s in body)
        if not nonempty:
            return
        if not c.check(k is not None, R, f"{ty}: repeated groups are read in a loop", f"{ty}: what the encoder's loop {rec.key} writes isn't read by a loop", self.w):
            return
        n = self.T.enc_count(rec, self.pre)
        dr = [r for r in L.e.loops if r.key == k and r.phis]
        if not c.check(n is not None and dr, R, f"{ty}: repeated groups are counted", f"{ty}: could not relate the encoder's loop {rec.key} to a count", self.w):
            return
        p = self.T.dec_counts(dr[-1], n, rec.g, self.pg)
        dr[-1].pos = p
        c.check(p is not None, R, f"{ty}: as many groups are read as were written", lambda: f"{ty}: the decoder does not read exactly as many groups as the encoder wrote (decoder loop {k}, count {trunc(n)})", self.w)

    # ------------------------------------------------------------ comparison
    def same(self, out, orig, ty, what, pc):
        """`out` is `orig` again, collections being rebuilt element by element"""
        L, c, R = self.L, self.c, self.R
        t = L.prog.types[ty]
        if t["k"] == "adt" and t["ak"] == "struct" and t.get("local"):
            for i, f in enumerate(L.prog.field_names(ty)):
                self.same(L.e.getf(out, ty, 0, i), L.e.getf(orig, ty, 0, i), L.prog.field_ty(ty, 0, i), what + "." + f, pc)
            return
        if t["k"] == "tuple" and t["es"]:
            for i in range(len(t["es"])):
                self.same(L.e.getf(out, ty, 0, i), L.e.getf(orig, ty, 0, i), t["es"][i], f"{what}.{i}", pc)
            return
        if self.inv and self.inv(what, out, orig, ty, pc):
            return
        if t["k"] == "adt" and t["ak"] == "union":
            # the same word, whichever way it's looked at
            word = self.word(out, ty)
            d = L.AND(*[L.diff(word, x, pc) for x in self.words(orig, ty)])
            c.check(d == 0, R, f"{what} survives", lambda: f"{what} is decoded as {trunc(word)} although {trunc(orig)} was encoded, when {L.why(d)}", self.w)
            return
        if t["k"] == "array" or t["k"] == "adt" and t["def"].split("::")[-1] in ("HashMap", "Vec", "VecDeque"):
            return self.collection(out, orig, ty, what, pc)
        d = L.diff(out, orig, pc)
        c.check(d == 0, R, f"{what} survives", lambda: f"{what} is decoded as {trunc(out)} although {trunc(orig)} was encoded, when {L.why(d)}", self.w)

    def scalar(self, v, ty):
        """the word inside nested single-field structs"""
        e = self.L.e
        while True:
            t = e.prog.types[ty]
            fs = [(i, self.L.prog.field_ty(ty, 0, i)) for i, _ in enumerate(t["vs"][0]["f"])] if t["k"] == "adt" and t.get("vs") else []
            fs = [(i, f) for i, f in fs if not e.prog.types[f]["n"].startswith("std::marker::PhantomData")]
            if not fs:
                return v
            if len(fs) > 1:
                raise Imprecise("a union of more than words: " + t["n"])
            v, ty = e.getf(v, ty, 0, fs[0][0]), fs[0][1]

    def words(self, v, ty):
        """the word in a union of words, through each of its fields"""
        P = self.L.prog
        w = [self.scalar(self.L.e.getf(v, ty, 0, i), P.field_ty(ty, 0, i)) for i, _ in enumerate(P.types[ty]["vs"][0]["f"])]
        al = self.L.e.galts(v) if v.k == "G" else []
        return w + ([self.L.e.app("transmute", self.L.ty("usize"), self.L.e.G1(al[0][0]))] if len(al) == 1 else [])

    def word(self, v, ty):
        """the word that was put into it"""
        e, P = self.L.e, self.L.prog
        if v.k == "A":
            for _, g, fs in v.a[1]:
                for i, f in enumerate(fs):
                    if f is not UNDEF:
                        return self.scalar(f, P.field_ty(ty, 0, i))
        return self.words(v, ty)[0]

    def collection(self, out, orig, ty, what, pc):
        L, c, R = self.L, self.c, self.R
        terms = [t for t, g in L.e.galts(out) if L.feasible(L.AND(g, pc))]
        rec = None
        if len(terms) == 1:
            for r in L.e.loops:
                if terms[0] in getattr(r, "phis", {}):
                    rec = r
        if not c.check(rec is not None, R, f"{what} is rebuilt", lambda: f"{what} isn't rebuilt from the encoded elements: {trunc(out)}", self.w):
            return
        init, back, _ = rec.phis[terms[0]]
        array = L.prog.types[ty]["k"] == "array"
        c.check(array or all(t.k == "X" and t.a[0] == "new" for t, g in L.e.galts(init)), R, f"{what} starts out empty", lambda: f"{what} does not start out empty: {trunc(init)}", self.w)
        n = 0
        for t, g in L.e.galts(back):
            gg = L.AND(g, rec.cont)
            if not L.feasible(gg):
                continue
            base_ok = t.k == "X" and t.a[0] in ("put", "push") and L.e.galts(t.a[2])[0][0] is terms[0]
            if not c.check(base_ok, R, f"{what}: one element per turn", lambda: f"{what}: a turn of the decoder's loop does not add one element: {trunc(L.e.G1(t))}", self.w):
                continue
            n += 1
            ety = L.e.elty(ty)
            if array:
                val = t.a[4]
                d = L.diff(t.a[3], rec.pos, gg) if getattr(rec, "pos", None) is not None else 1
                c.check(d == 0, R, f"{what}: elements stay in place", lambda: f"{what}: an element is stored at {trunc(t.a[3])} instead of where it was", self.w)
                k = 0
                for er, ix in self.indices(orig, ty, rec):
                    k += 1
                    self.same(val, L.e.geti(orig, ty, ix), ety, what + "[]", L.AND(gg, er.cont))
                c.check(k > 0, R, f"{what}: elements survive", f"{what}: the stored elements aren't those of the encoded collection", self.w)
            elif t.a[0] == "put":
                key, val = t.a[3], t.a[4]
                ks = self.src(key)
                if not c.check(ks is not None and ks[0] == "iterkey", R, f"{what}: keys survive", lambda: f"{what}: an element is stored under {trunc(key)} instead of its key", self.w):
                    continue
                self.same(val, L.e.geti(orig, ty, key, True), ety, what + "[]", gg)
            else:
                val = t.a[3]
                idx = self.index(orig, ty, rec)
                if not c.check(idx is not None, R, f"{what}: elements survive", lambda: f"{what}: the stored element {trunc(val)} isn't an element of the encoded collection", self.w):
                    continue
                self.same(val, L.e.geti(orig, ty, idx), ety, what + "[]", gg)
        c.check(n > 0, R, f"{what}: elements are stored", f"{what}: the decoder's loop stores nothing", self.w)

    def src(self, key):
        al = self.L.e.galts(key)
        if len(al) == 1 and al[0][0].k == "X":
            return al[0][0].a
        return None

    def index(self, orig, ty, rec):
        l = self.indices(orig, ty, rec)
        return l[0][1] if l else None

    def indices(self, orig, ty, rec):
        """[(encoder loop, index of the element it writes in the corresponding turn)]"""
        L = self.L
        us = L.ty("usize")
        out = []
        for rid, (er, body) in enumerate(self.T.reps):
            if self.T.assigned.get(rid) != rec.key:
                continue
            for ref, sk in self.T.iters(er):
                # does it run over `orig`?
                for t, g in L.e.galts(ref):
                    if t.k != "R":
                        continue
                    path, lo = t.a[1], None
                    if path and path[-1][0] == "s":
                        lo, path = path[-1][1], path[:-1]
                    if (lo is None or L.e.eqc(lo, 0) == 1) and L.e.veq(L.e.rd(self.pre, t.a[0], path), orig) == 1:
                        out.append((er, L.e.app("iteridx", us, ref, sk)))
        return out

    def finish(self):
        self.c.analysed |= self.L.e.analysed
        self.c.samples.append(f"{self.ty} is encoded as " + " | ".join(self.show(i) for _, i in self.forms))

    def show(self, items):
        s = []
        for it in items:
            if it[0] == "tok":
                s.append(f"{it[1]} {trunc(it[2], 60)}")
            else:
                s.append("(" + " / ".join(self.show(self.T.seqs[b]) for _, b in self.T.reps[it[1]][1]) + ")*")
        return ", ".join(s)


def simple(c, R, ty, mono=None, setup=None, opaque=(), inv=None):
    t = Trip(c, R, ty, mono, setup=setup, opaque=opaque, inv=inv)
    out = t.decode()
    if out is not None:
        t.same(out, t.val, t.vt, ty, t.pg)
    t.finish()
    return t


def edits(c):
    R = "edit-codec"

    def ins(t):
        L, v, T = t.L, t.val, t.vt
        s, e = L.f(v, T, "text.range.start"), L.f(v, T, "text.range.end")
        L.assume(L.NOT(L.e.lt(e, s)))
        # an insertion that continues a run is anchored where its text starts
        same = L.AND(L.e.eq(L.f(v, T, "anchor.replica_id"), L.f(v, T, "text.inserted_by")), L.e.eq(L.f(v, T, "anchor.contained_in"), L.f(v, T, "run_ts")))
        L.assume(L.OR(L.NOT(same), L.e.eq(L.f(v, T, "anchor.offset"), s)))
    simple(c, R, "Insertion", setup=ins)

    def dele(t):
        L, v, T = t.L, t.val, t.vt
        same = L.AND(L.e.eq(L.f(v, T, "start.replica_id"), L.f(v, T, "end.replica_id")), L.e.eq(L.f(v, T, "start.contained_in"), L.f(v, T, "end.contained_in")))
        L.assume(L.OR(L.NOT(same), L.NOT(L.e.lt(L.f(v, T, "end.offset"), L.f(v, T, "start.offset")))))
    simple(c, R, "Deletion", setup=dele)

    def text(t):
        L, v, T = t.L, t.val, t.vt
        L.assume(L.NOT(L.e.lt(L.f(v, T, "range.end"), L.f(v, T, "range.start"))))
    simple(c, R, "Text", setup=text)
    simple(c, R, "Anchor")


def byteloop(L, t, arr, aty):
    """A loop that pushes an array's first bytes one by one extends by that slice."""
    e = L.e
    if t.k == "X":
        return t
    for rec in e.loops:
        for phi, (init, back, (root, path)) in rec.phis.items():
            if phi is not t:
                continue
            ty = e.pathty(e.root_ty[root], path)
            for (ref, sk), key in e.iterloops.items():
                ps = [x for x, _ in e.galts(ref)]
                if key != rec.key or (ref, sk) in e.backward or len(ps) != 1 or ps[0].k != "R" or not ps[0].a[1] or ps[0].a[1][-1][0] != "s":
                    continue
                lo, hi = ps[0].a[1][-1][1:3]
                x = e.geti(arr, aty, e.add(lo, e.app("iteridx", L.ty("usize"), ref, sk)))
                if L.diff(back, e.app("push", ty, e.G1(phi), x), rec.cont) == 0:
                    return e.galts(e.app("extend", ty, init, e.app("slice", aty, arr, lo, hi)))[0][0]
    return t


def ints(c):
    """Primitives are written and read by the same library codec, in full."""
    R = "int-codec"
    n = 0
    for t in ("u16", "u32", "u64"):
        L = Lab(c.prog("rel"))
        enc = L.fn(rf"<{t} as cola::encode::Encode>::encode|cola::encode::<impl cola::encode::Encode for {t}>::encode")
        dec = L.fn(rf"<{t} as cola::encode::Decode>::decode|cola::encode::<impl cola::encode::Decode for {t}>::decode")
        w = enc["def"] + " @ " + str(enc["body"]["span"])
        buf = L.place("buf", L.prog.types[enc["body"]["locals"][2]]["e"])
        v = L.place("value", t)
        before = L.get(buf)
        _, out, _ = L.call(enc, L.ref(v), L.ref(buf))
        if not c.check(out is not None, R, f"{t}: encoding returns", f"encoding a {t} never returns", w):
            continue
        evs = [e for e in L.e.events if "encode" in e.inst["def"]]
        if not c.check(len(evs) == 1, R, f"{t}: encoded by one call", f"encoding a {t} calls {[e.inst['n'] for e in evs]}", w):
            continue
        ev = evs[0]
        c.check(L.diff(ev.args[0], L.get(v)) == 0, R, f"{t}: the value itself is encoded", lambda: f"{trunc(ev.args[0])} is encoded instead of the {t}", w)
        al = L.e.galts(L.get(buf, out))
        t0 = al[0][0]
        if t0.k != "X":
            t0 = byteloop(L, t0, L.e.getf(ev.ret, retty(L, ev), 0, 0), L.prog.field_ty(retty(L, ev), 0, 0))
        app = len(al) == 1 and t0.k == "X" and t0.a[0] == "extend"
        if c.check(app and L.diff(t0.a[2], before) == 0, R, f"{t}: appended to the buffer", lambda: f"encoding a {t} leaves {trunc(L.get(buf, out))} in the buffer", w):
            x = L.e.galts(t0.a[3])[0][0]
            okx = x.k == "X" and x.a[0] == "slice"
            ety = retty(L, ev)
            if c.check(okx and L.e.veq(x.a[3], L.e.I(0)) == 1 and L.diff(x.a[2], L.e.getf(ev.ret, ety, 0, 0)) == 0 and L.diff(x.a[4], L.e.getf(ev.ret, ety, 0, 1)) == 0, R, f"{t}: all encoded bytes are written", lambda: f"{trunc(t0.a[3])} is written instead of the encoded bytes", w):
                n += 1
        # the library writes at most that many bytes
        most = {"u16": 3, "u32": 5, "u64": 10}[t]
        L.assume(L.e.lt(L.e.getf(ev.ret, retty(L, ev), 0, 1), L.e.I(most + 1)))
        for p in L.e.panics:
            z = L.feasible(p.g)
            c.check(z == 0, R, f"{t}: encoding does not panic", lambda: f"encoding a {t} panics ({p.extra} at {p.span}) when {L.why(z)}", w)
        lib = ev.inst["def"].rsplit("::", 1)[0]
        mono = ev.inst["n"].rsplit("::<", 1)[-1]
        # ------------------------------------------------------- decoding
        # (the length the library reports fits in a byte)
        L.e.fits = lambda t, bits: bits >= 8 and "decode@" in pp(L.e.G1(t)) and pp(L.e.G1(t)).endswith("Ok.0.1")
        L.e.events, L.e.panics = [], []
        w = dec["def"] + " @ " + str(dec["body"]["span"])
        b = L.place("bytes", L.prog.types[dec["body"]["locals"][1]]["e"])
        rv, out, rty = L.call(dec, L.ref(b))
        evs = [e for e in L.e.events if "decode" in e.inst["def"]]
        if not c.check(len(evs) == 1 and evs[0].inst["def"].rsplit("::", 1)[0] == lib and evs[0].inst["n"].rsplit("::<", 1)[-1] == mono, R, f"{t}: decoded by the same codec", f"{t} is encoded by {ev.inst['n']} but decoded by {[e.inst['n'] for e in evs]}", w):
            continue
        ev = evs[0]
        dty = retty(L, ev)
        c.check(L.diff(ev.args[0], L.get(b)) == 0, R, f"{t}: the bytes themselves are decoded", lambda: f"{trunc(ev.args[0])} is decoded instead of the buffer", w)
        good = L.isv(ev.ret, dty, "Ok")
        pt = L.prog.field_ty(dty, L.variant(dty, "Ok"), 0)
        pay = L.payload(ev.ret, dty, "Ok")
        val, used = L.e.getf(pay, pt, 0, 0), L.e.getf(pay, pt, 0, 1)
        L.assume(L.OR(L.NOT(good), L.e.lt(used, L.e.I(most + 1))))
        fits = L.NOT(L.e.lt(L.e.lenof(L.get(b), L.rootty(b)), used))
        if out is None:
            c.check(False, R, f"{t}: decoding returns", f"decoding a {t} never returns", w)
            continue
        for p in L.e.panics:
            z = L.feasible(p.g)
            c.check(z == 0, R, f"{t}: decoding does not panic", lambda: f"decoding a {t} panics ({p.extra} at {p.span}) when {L.why(z)}", w)
        ok = L.isv(rv, rty, "Ok")
        z = L.feasible(L.AND(out.g, L.b.XOR(ok, L.AND(good, fits))))
        c.check(z == 0, R, f"{t}: decoding succeeds exactly on complete encodings", lambda: f"decoding a {t} succeeds on the wrong inputs: {L.why(z)}", w)
        tt = L.prog.field_ty(rty, L.variant(rty, "Ok"), 0)
        pay = L.payload(rv, rty, "Ok")
        d = L.diff(L.e.getf(pay, tt, 0, 0), val, ok)
        c.check(d == 0, R, f"{t}: the decoded value is returned", lambda: f"decoding a {t} returns {trunc(L.e.getf(pay, tt, 0, 0))}", w)
        rest = L.e.getf(pay, tt, 0, 1)
        rty2 = L.prog.types[tt]["es"][1]
        rc = L.e.content(rest, rty2, out)
        want = L.e.app("slice", L.rootty(b), L.get(b), used, L.e.lenof(L.get(b), L.rootty(b)))
        import os
        if os.environ.get("DBG"):
            print(t, "rest", trunc(rest), "| rc", trunc(rc), "| want", trunc(want), L.diff(rc, want, ok))
        good2 = L.diff(rc, want, L.AND(ok, out.g)) == 0
        c.check(good2, R, f"{t}: decoding stops right behind the value", lambda: f"decoding a {t} leaves {trunc(rest)}", w)
        n += 1
        c.analysed |= L.e.analysed
    wide(c, R)
    flag(c, R)
    c.floor("integer codecs", n, 6)


def retty(L, ev):
    """type of what an opaque call returned"""
    t = L.e.galts(ev.ret)[0][0] if ev.ret.k == "G" else None
    return ev.ret.a[0] if t is None else L.e.symty_of(t)


def wide(c, R):
    """usize travels as u64"""
    L = Lab(c.prog("rel"), opaque=[r"<u64 as cola::encode::(En|De)code>::(en|de)code", r"cola::encode::<impl cola::encode::(En|De)code for u64>::(en|de)code"])
    enc = L.fn(r"<usize as cola::encode::Encode>::encode|cola::encode::<impl cola::encode::Encode for usize>::encode")
    dec = L.fn(r"<usize as cola::encode::Decode>::decode|cola::encode::<impl cola::encode::Decode for usize>::decode")
    w = enc["def"]
    buf = L.place("buf", L.prog.types[enc["body"]["locals"][2]]["e"])
    v = L.place("value", "usize")
    L.call(enc, L.ref(v), L.ref(buf))
    evs = L.e.events
    c.check(len(evs) == 1 and L.diff(evs[0].args[0], L.get(v)) == 0 and L.diff(evs[0].raw[1] if evs[0].raw else evs[0].args[1], L.ref(buf)) == 0, R, "usize: encoded as u64", lambda: f"usize is encoded by {[(e.inst['n'], trunc(e.args[0])) for e in evs]}", w)
    L.e.events = []
    w = dec["def"]
    b = L.place("bytes", L.prog.types[dec["body"]["locals"][1]]["e"])
    rv, out, rty = L.call(dec, L.ref(b))
    evs = L.e.events
    if c.check(out is not None and len(evs) == 1 and L.diff(evs[0].args[0], L.get(b)) == 0, R, "usize: decoded as u64", f"usize is decoded by {[e.inst['n'] for e in evs]}", w):
        ev = evs[0]
        et = retty(L, ev)
        ok, ok2 = L.isv(rv, rty, "Ok"), L.isv(ev.ret, et, "Ok")
        z = L.feasible(L.b.XOR(ok, ok2))
        c.check(z == 0, R, "usize: decoded exactly when a u64 is", lambda: f"decoding a usize succeeds on other inputs than decoding a u64: {L.why(z)}", w)
        a, at = L.payload(rv, rty, "Ok"), L.prog.field_ty(rty, L.variant(rty, "Ok"), 0)
        b2, bt = L.payload(ev.ret, et, "Ok"), L.prog.field_ty(et, L.variant(et, "Ok"), 0)
        for i, what in ((0, "value"), (1, "rest")):
            x, y = (L.e.getf(q, qt, 0, i) for q, qt in ((a, at), (b2, bt)))
            if i:
                # (the bytes left, wherever the slice is held)
                x, y = (L.e.content(q, L.prog.types[qt]["es"][1], out) for q, qt in ((x, at), (y, bt)))
            d = L.diff(x, y, ok)
            c.check(d == 0, R, f"usize: {what} of the u64", lambda: f"decoding a usize returns {trunc(L.e.getf(a, at, 0, i))}", w)


def flag(c, R):
    """bool: a byte 0 or 1"""
    L = Lab(c.prog("rel"))
    enc = L.fn(r"<bool as cola::encode::Encode>::encode|cola::encode::<impl cola::encode::Encode for bool>::encode")
    dec = L.fn(r"<bool as cola::encode::Decode>::decode|cola::encode::<impl cola::encode::Decode for bool>::decode")
    w = enc["def"]
    buf = L.place("buf", L.prog.types[enc["body"]["locals"][2]]["e"])
    v = L.place("value", "bool")
    before = L.get(buf)
    _, out, _ = L.call(enc, L.ref(v), L.ref(buf))
    t = L.e.galts(L.get(buf, out))[0][0]
    vb = L.G(L.get(v))
    if c.check(t.k == "X" and t.a[0] == "push" and L.diff(t.a[2], before) == 0, R, "bool: one byte", lambda: f"a bool is encoded as {trunc(L.get(buf, out))}", w):
        byte = t.a[3]
        w = dec["def"]
        b = L.place("bytes", L.prog.types[dec["body"]["locals"][1]]["e"])
        rv, out, rty = L.call(dec, L.ref(b))
        c.check(not [p for p in L.e.panics if L.feasible(p.g)], R, "bool: no panic", "decoding a bool panics", w)
        bt = L.rootty(b)
        ln = L.e.lenof(L.get(b), bt)
        L.assume(L.e.lt(L.e.I(0), ln))
        L.assume(L.e.eq(L.e.geti(L.get(b), bt, L.e.I(0)), byte))
        ok = L.isv(rv, rty, "Ok")
        z = L.feasible(L.NOT(L.AND(out.g, ok)))
        c.check(z == 0, R, "bool: what was encoded is decoded", lambda: f"decoding an encoded bool fails: {L.why(z)}", w)
        tt = L.prog.field_ty(rty, L.variant(rty, "Ok"), 0)
        pay = L.payload(rv, rty, "Ok")
        z = L.feasible(L.AND(L.b.XOR(L.G(L.e.getf(pay, tt, 0, 0)), vb), ok, out.g))
        c.check(z == 0, R, "bool: the flag survives", lambda: f"a bool is decoded as its opposite: {L.why(z)}", w)
        rest = L.e.getf(pay, tt, 0, 1)
        good = True
        for tm, g in L.e.galts(rest):
            if not L.feasible(L.AND(g, ok, out.g)):
                continue
            rl = L.e.lenof(L.e.content(L.e.G1(tm), L.prog.types[tt]["es"][1], out), None)
            good = good and L.feasible(L.AND(g, ok, L.NOT(L.e.eq(L.e.add(rl, L.e.I(1)), ln)))) == 0
        c.check(good, R, "bool: one byte is consumed", lambda: f"decoding a bool leaves {trunc(rest)}", w)

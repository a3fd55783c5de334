"""Symbolic tape: what an encoder writes is recorded as a sequence of typed
tokens (repeated groups for its loops); the decoder is then pushed over that
sequence.  Positions inside a repeated group behave like a Kleene star, so a
decoder loop that consumes one group per turn is at a fixpoint at once."""
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor
import models

INTS = {"u16": "u16", "u32": "u32", "u64": "u64", "usize": "u64", "bool": "bool"}


class Tape:
    def __init__(self, L):
        self.L = L
        self.e = L.e
        self.seqs = []          # list of item lists
        self.assigned = {}      # rep id -> decoder loop key
        self.reps = []          # rep id -> (encoder loop record, [(guard, seq id)])
        self.problems = []
        self.used = set()
        for p in INTS:
            for i in L.prog.find(rf"<{p} as cola::encode::Encode>::encode"):
                self.e.userm[i["def"]] = self.encoder(INTS[p])
            for i in L.prog.find(rf"<{p} as cola::encode::Decode>::decode"):
                self.e.userm[i["def"]] = self.decoder(INTS[p])
        for n in ("core::slice::<impl [T]>::split_first",):
            self.e.userm[n] = self.split_first
        self.moves = {}         # (decoder loop key, rep id) -> does the loop carry its progress round?
        self.e.on_leave = self.on_leave
        self.e.on_back = self.on_back

    # ------------------------------------------------------------- encoding
    def encoder(self, kind):
        def f(e, c, st):
            v = models.deref(e, c, 0, st)[0]
            b, tg, ty = models.deref(e, c, 1, st)
            s = models.fresh(st)
            e.wr(s, tg, e.app("tok:" + kind, ty, b, v))
            return models.unit(e, c.dty), s
        return f

    def parse(self, v, stop=None, pc=1):
        """value of the buffer -> [(guard, items)]"""
        out = []
        for t, g in self.e.galts(v):
            gg = self.L.b.AND(pc, g)
            if not self.L.feasible(gg):
                continue
            for h, items in self.parse_t(t, stop, gg):
                hh = self.L.b.AND(g, h)
                if self.L.feasible(self.L.b.AND(pc, hh)):
                    out.append((hh, items))
        return out

    def parse_t(self, t, stop, pc):
        if t is stop:
            return [(1, [])]
        if t.k == "X":
            if t.a[0] == "new":
                return [(1, [])]
            if str(t.a[0]).startswith("tok:"):
                return [(g, i + [("tok", t.a[0][4:], t.a[3])]) for g, i in self.parse(t.a[2], stop, pc)]
            if t.a[0] == "push":
                return [(g, i + [("tok", "byte", t.a[3])]) for g, i in self.parse(t.a[2], stop, pc)]
            if t.a[0] == "extend":
                return [(g, i + [("tok", "raw", t.a[3])]) for g, i in self.parse(t.a[2], stop, pc)]
        for r in self.e.loops:
            if t in getattr(r, "phis", {}):
                init, back, _ = r.phis[t]
                body = self.parse(back, t, r.cont)
                rid = len(self.reps)
                alts = []
                self.reps.append((r, alts))
                for h, (g, items) in zip(self.settle([g for g, _ in body], r.cont), body):
                    self.seqs.append(items)
                    alts.append((h, len(self.seqs) - 1))
                return [(g, i + [("rep", rid)]) for g, i in self.parse(init, stop, pc)]
        raise Imprecise("the encoder's output is built in a way that isn't understood: " + str(t)[:200])

    def settle(self, gs, pc):
        """which of several forms it is, given `pc`: a choice among them that
        doesn't depend on how far any of the encoder's loops has got"""
        B, e = self.L.b, self.e
        if len(gs) == 1:
            return [1]
        loose = set()
        for g in list(gs) + [pc]:
            for v in B.support(g):
                a = e.atoms[v]
                if a[0] == "bool" and a[1].k == "X" and a[1].a[0] == "iterhas":
                    loose.add(v)
        out = []
        for g in gs:
            h = B.AND(g, pc)
            for v in loose:
                h = B.OR(B.cofactor(h, v, 0), B.cofactor(h, v, 1))
            out.append(h)
        left, every = 1, 0
        for h in out:
            every = B.OR(every, h)
        for i, h in enumerate(out):
            if any(self.L.feasible(B.AND(h, k)) for k in out[:i]):
                raise Imprecise("what is encoded depends on how far a loop got")
            h = B.constrain(h, every)
            out[i] = B.AND(left, h) if i < len(out) - 1 else left
            left = B.AND(left, B.NOT(h))
        return out

    # ------------------------------------------------------------- decoding
    def root(self, pos):
        r = ("const", ("tape", pos))
        e = self.e
        if r not in e.consts:
            u8 = next(i for i, t in enumerate(e.prog.types) if t["n"] == "u8")
            ty = next(i for i, t in enumerate(e.prog.types) if t["k"] == "slice" and t["e"] == u8)
            e.root_ty[r] = ty
            e.consts[r] = e.G1(N("S", "tape" + repr(pos), ty))
            if self.on_root is not None:
                self.on_root(pos, e.lenof(e.consts[r], ty))
        return NT("R", r, ())

    on_root = None

    def start(self, items):
        self.seqs.append(items)
        return self.wrap(((len(self.seqs) - 1, 0),))

    def keys(self):
        return [self.e.loops[i].key for i in self.e.loopstack]

    def wrap(self, pos):
        """at the end of a group we're back in front of it (marked as turned)"""
        while len(pos) > 1:
            sid, i = pos[-1][:2]
            if i < len(self.seqs[sid]):
                return pos
            pos = pos[:-2] + (pos[-2][:2] + (1,),)
        return pos

    @staticmethod
    def plain(pos):
        return pos[:-1] + (pos[-1][:2],)

    def item(self, pos):
        sid, i = pos[-1][:2]
        return self.seqs[sid][i] if i < len(self.seqs[sid]) else None

    def enter(self, pos, g=1, depth=0):
        """[(guard, pos of the next token)], entering or skipping groups"""
        if depth > 40:
            raise Imprecise("tape position does not settle")
        pos = self.plain(pos)
        it = self.item(pos)
        if it is None or it[0] == "tok":
            return [(g, pos)]
        rid = it[1]
        keys = self.keys()
        k = self.assigned.get(rid)
        if k is None:
            encl = {self.assigned.get(self.seqs[s][i][1]) for s, i in pos[:-1] if self.seqs[s][i][0] == "rep"}
            if keys and keys[-1] not in encl:
                self.assigned[rid] = k = keys[-1]
        if k is not None and k in keys:
            out = []
            for h, sid in self.reps[rid][1]:
                gg = self.L.b.AND(g, h) if len(self.reps[rid][1]) > 1 else g
                if self.L.feasible(gg):
                    if not self.seqs[sid]:
                        continue
                    out += self.enter(pos + ((sid, 0),), gg, depth + 1)
            return out
        return self.enter(self.skip(pos), g, depth + 1)

    def skip(self, pos):
        return self.wrap(pos[:-1] + ((pos[-1][0], pos[-1][1] + 1),))

    def on_leave(self, key, st):
        """leaving the decoder loop `key`: positions in front of its group move past it"""
        for r, v in list(st.m.items()):
            nv = self.subst(v, key)
            if nv is not v:
                st.m[r] = nv

    @staticmethod
    def istape(t):
        return t.k == "R" and t.a[0][0] == "const" and isinstance(t.a[0][1], tuple) and t.a[0][1][0] == "tape"

    def on_back(self, key, head, st):
        """going round the decoder loop `key`: a place that stood in front of a
        group and stands there again, having read it, shows that it moves on"""
        for r, v in list(st.m.items()):
            found = {}
            nv = self.unturn(v, key, st.g, found)
            if nv is not v:
                st.m[r] = nv
            for rid, stay in found.items():
                if r in head and self.standing(head[r], rid):
                    ok = not self.L.feasible(stay)
                    self.moves[(key, rid)] = ok or self.moves.get((key, rid), False)

    def standing(self, v, rid):
        if v.k == "G":
            return any(self.istape(t) and (self.item(t.a[0][1][1]) or (0,))[:2] == ("rep", rid) for t, _ in v.a[0])
        if v.k == "A":
            return any(self.standing(f, rid) for _, _, fs in v.a[1] for f in fs)
        return False

    def unturn(self, v, key, pc, found):
        e, B = self.e, self.L.b
        if v.k == "G":
            if not any(self.istape(t) for t, _ in v.a[0]):
                return v
            out, ch, reps, stay = [], False, {}, []
            for t, g in v.a[0]:
                if self.istape(t):
                    pos = t.a[0][1][1]
                    it = self.item(pos)
                    if it is not None and it[0] == "rep" and self.assigned.get(it[1]) == key:
                        if len(pos[-1]) > 2:
                            t, ch = self.root(self.plain(pos)), True
                            reps[it[1]] = 1
                        else:
                            stay.append((it[1], B.AND(pc, g)))
                out.append((t, g))
            for rid in reps:
                s = found.get(rid, 0)
                for k, g in stay:
                    if k == rid:
                        s = B.OR(s, g)
                found[rid] = s
            return e.mkG(out) if ch else v
        if v.k == "A":
            vs, ch = [], False
            for vv, g, fs in v.a[1]:
                nf = tuple(self.unturn(f, key, B.AND(pc, g), found) for f in fs)
                ch = ch or any(a is not b for a, b in zip(nf, fs))
                vs.append((vv, g, nf))
            return NT("A", v.a[0], tuple(vs)) if ch else v
        return v

    def stuck(self):
        """[(encoder loop record, decoder loop key)] of the groups that are read in a loop that never gets past the first"""
        out = []
        for rid, key in self.assigned.items():
            if any((sid, i) in self.used for _, sid in self.reps[rid][1] for i in range(len(self.seqs[sid]))) and not self.moves.get((key, rid)):
                out.append((self.reps[rid][0], key))
        return out

    def subst(self, v, key):
        e = self.e
        if v.k == "G":
            if not any(t.k == "R" and t.a[0][0] == "const" and isinstance(t.a[0][1], tuple) and t.a[0][1][0] == "tape" for t, g in v.a[0]):
                return v
            out = []
            for t, g in v.a[0]:
                if t.k == "R" and t.a[0][0] == "const" and isinstance(t.a[0][1], tuple) and t.a[0][1][0] == "tape":
                    pos = t.a[0][1][1]
                    for _ in range(20):
                        it = self.item(pos)
                        if it is not None and it[0] == "rep" and self.assigned.get(it[1]) == key:
                            pos = self.skip(pos)
                        else:
                            break
                    t = self.root(pos)
                out.append((t, g))
            return e.mkG(out)
        if v.k == "A":
            vs = []
            ch = False
            for vv, g, fs in v.a[1]:
                nf = tuple(self.subst(f, key) for f in fs)
                ch = ch or any(a is not b for a, b in zip(nf, fs))
                vs.append((vv, g, nf))
            return NT("A", v.a[0], tuple(vs)) if ch else v
        return v

    def read(self, ref, kind, st):
        """-> (ok guard, value, ref to the rest)"""
        e, B = self.e, self.L.b
        ok, val, rest = 0, None, None
        for t, g in e.galts(ref):
            if not B.AND(g, st.g):
                continue
            if not (t.k == "R" and t.a[0][0] == "const" and isinstance(t.a[0][1], tuple) and t.a[0][1][0] == "tape"):
                raise Imprecise("decoding from something that isn't the encoded buffer: " + str(t)[:120])
            for h, pos in self.enter(t.a[0][1][1]):
                gh = B.AND(g, h)
                it = self.item(pos)
                if it is None:
                    if self.L.feasible(B.AND(gh, st.g)):
                        self.problems.append((gh, f"the decoder reads a {kind} past the end of what the encoder wrote"))
                    continue
                v = self.conv(it[1], it[2], kind)
                if v is None:
                    if self.L.feasible(B.AND(gh, st.g)):
                        self.problems.append((gh, f"the decoder reads a {kind} where the encoder wrote a {it[1]} ({str(it[2])[:80]})"))
                    continue
                self.used.add((pos[-1][0], pos[-1][1]))
                nx = e.G1(self.root(self.skip(pos)))
                val = v if val is None else e.mux(gh, v, val)
                rest = nx if rest is None else e.mux(gh, nx, rest)
                ok = B.OR(ok, gh)
        return ok, val, rest

    def conv(self, k, v, want):
        e = self.e
        if k == want:
            return v
        if k == "bool" and want == "byte":
            return e.mkG(e.galts(v))
        if k == "byte" and want == "bool":
            if all(t.k == "I" and t.a[0] in (0, 1) for t, _ in e.galts(v)):
                return e.B(e.eqc(v, 1))
        return None

    def decoder(self, kind):
        def f(e, c, st):
            ok, val, rest = self.read(c.args[0], kind, st)
            rt = e.prog.types[c.dty]
            ix = {v["n"]: i for i, v in enumerate(rt["vs"])}
            ety = e.prog.field_ty(c.dty, ix["Err"], 0)
            err = e.symval(N("S", "decode error", ety), ety)
            vs = []
            if val is not None:
                tt = e.prog.field_ty(c.dty, ix["Ok"], 0)
                vs.append((ix["Ok"], ok, (e.mkA(tt, [(0, 1, (val, rest))]),)))
            vs.append((ix["Err"], e.b.NOT(ok), (err,)))
            return e.mkA(c.dty, vs), models.fresh(st)
        return f

    def split_first(self, e, c, st):
        al = e.galts(c.args[0])
        if not all(t.k == "R" and t.a[0][0] == "const" and isinstance(t.a[0][1], tuple) and t.a[0][1][0] == "tape" for t, _ in al):
            return NotImplemented
        ok, val, rest = self.read(c.args[0], "byte", st)
        if val is None:
            return models.opt(e, c.dty, 0, UNDEF), models.fresh(st)
        rt = e.prog.types[c.dty]
        some = next(i for i, v in enumerate(rt["vs"]) if v["n"] == "Some")
        tt = e.prog.field_ty(c.dty, some, 0)
        vr = ("const", ("tapeval", val))
        e.consts[vr] = val
        e.root_ty[vr] = e.prog.types[e.prog.types[tt]["es"][0]]["e"]
        return models.opt(e, c.dty, ok, e.mkA(tt, [(0, 1, (e.G1(NT("R", vr, ())), rest))])), models.fresh(st)

    # ------------------------------------------------------------- counting
    def iters(self, rec):
        """[(ref, site)] of the collections this loop iterates over"""
        e = self.e
        out = []
        for v in e.b.support(rec.cont):
            a = e.atoms[v]
            if a[0] == "bool" and a[1].k == "X" and a[1].a[0] == "iterhas" and e.iterloops.get((a[1].a[2], a[1].a[3])) == rec.key:
                out.append((a[1].a[2], a[1].a[3]))
        return out

    def lenref(self, ref, st):
        e = self.e
        out = None
        for t, g in e.galts(ref):
            if t.k != "R":
                return None
            ty = e.pathty(e.rootty(t.a[0]), t.a[1])
            x = self.seqlen(e.rd(st, t.a[0], t.a[1]), ty)
            out = x if out is None else e.mux(g, x, out)
        return out

    def seqlen(self, v, ty):
        if ty == getattr(self.L, "FT", -1):
            return self.L.seqlen(v)
        return self.e.lenof(v, ty)

    def enc_count(self, rec, st):
        """how often an encoder loop turns: the length of what it iterates over"""
        it = self.iters(rec)
        return self.lenref(it[0][0], st) if len(it) == 1 else None

    def dec_counts(self, rec, n, care=1, fin=1):
        """does the decoder loop turn exactly n times?"""
        e, L = self.e, self.L
        if not L.feasible(L.AND(rec.cont, care)):
            return None
        for ph, (init, back, _) in rec.phis.items():
            if init.k != "G" or not e.isint(ph):
                continue
            pv = e.G1(ph)
            if L.e.veq(init, e.I(0)) != 1:
                continue
            if L.diff(back, e.add(pv, e.I(1)), L.AND(rec.cont, care)) != 0:
                continue
            more = e.lt(pv, n)
            out = rec.parent.cont if rec.parent is not None else fin
            if L.implies(rec.cont, more, care) and L.feasible(L.AND(out, more, care)) == 0:
                return pv
        # counting down
        for ph, (init, back, _) in rec.phis.items():
            if init.k != "G" or not e.isint(ph):
                continue
            pv = e.G1(ph)
            if L.diff(init, n, L.AND(rec.g, care)) != 0 or L.diff(back, e.sub(pv, e.I(1)), L.AND(rec.cont, care)) != 0:
                continue
            more = L.NOT(e.eqc(pv, 0))
            out = rec.parent.cont if rec.parent is not None else fin
            if L.implies(rec.cont, more, care) and L.feasible(L.AND(out, more, care)) == 0:
                return e.sub(n, pv)
        # iterating over something of that length
        for ref, sk in self.iters(rec):
            for t, g in e.galts(ref):
                if t.k == "R" and t.a[1] and t.a[1][-1][0] == "s":
                    m = e.sub(t.a[1][-1][2], t.a[1][-1][1])
                    has = e.atom("bool", NT("X", "iterhas", None, ref, sk))
                    out = rec.parent.cont if rec.parent is not None else fin
                    if L.diff(m, n, L.AND(rec.g, care)) == 0 and L.feasible(L.AND(out, has, care)) == 0:
                        return e.app("iteridx", e.prog.ty_by_name.get("usize"), ref, sk)
        return None


def fragment_seq(L):
    """The fragments of a run as a plain sequence (their own representation is
    decided by the rules over the run indices)."""
    e, P = L.e, L.prog
    FT = L.ty("run_indices::fragments::Fragments<8>")
    ET = L.ty("run_indices::Fragment")
    US = L.ty("usize")

    def seqlen(v):
        out = None
        for t, g in e.galts(v):
            if t.k == "X" and t.a[0] == "new":
                x = e.I(0)
            elif t.k == "X" and t.a[0] == "fpush":
                x = e.add(seqlen(t.a[2]), e.I(1))
            else:
                x = e.app("fraglen", US, e.G1(t))
            out = x if out is None else e.mux(g, x, out)
        return out

    def new(e, c, st):
        return e.app("new", FT), models.fresh(st)

    def append(e, c, st):
        v, tg, ty = models.deref(e, c, 0, st)
        s = models.fresh(st)
        e.wr(s, tg, e.app("fpush", FT, v, c.args[1]))
        return models.unit(e, c.dty), s

    def num(e, c, st):
        return seqlen(models.deref(e, c, 0, st)[0]), models.fresh(st)

    def it(e, c, st):
        return e.G1(NT("X", "iterfrag", c.dty, c.args[0])), models.fresh(st)

    def nxt(e, c, st):
        v = models.deref(e, c, 0, st)[0]
        al = e.galts(v)
        if len(al) != 1 or al[0][0].k != "X" or al[0][0].a[0] != "iterfrag":
            raise Imprecise("iterating over fragments")
        ref = al[0][0].a[2]
        sk = models.site(e, c)
        has = e.atom("bool", NT("X", "iterhas", None, ref, sk))
        if e.loopstack:
            e.iterloops[(ref, sk)] = e.loops[e.loopstack[-1]].key
        fr = None
        for t, g in e.galts(ref):
            if t.k != "R":
                raise Imprecise("fragments")
            x = e.rd(st, t.a[0], t.a[1])
            fr = x if fr is None else e.mux(g, x, fr)
        root = ("const", NT("X", "fragelem", ET, ref, sk))
        e.root_ty[root] = ET
        e.consts[root] = e.symval(NT("X", "fragat", ET, fr, e.app("iteridx", US, ref, sk)), ET)
        return models.opt(e, c.dty, has, e.G1(NT("R", root, ()))), models.fresh(st)
    D = "cola::run_indices::fragments::"
    e.userm[f"<{D}Fragments<N> as std::default::Default>::default"] = new
    e.userm[f"{D}Fragments::<INLINE>::append"] = append
    e.userm[f"{D}Fragments::<INLINE>::num_fragments"] = num
    e.userm[f"{D}Fragments::<INLINE>::iter"] = it
    e.userm[f"<{D}FragmentsIter<'a, N> as std::iter::Iterator>::next"] = nxt
    L.FT, L.seqlen = FT, seqlen

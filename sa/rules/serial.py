"""The way in and out through serde: what is handed to the serializer are the
bytes the encoder wrote, and what the deserializer hands back is what the decoder
makes of all the bytes, in their order."""
import re
import lab
import models
from rules.replica import where
from rules.runtree import chk0, same

ENC = re.compile(r"(as cola::encode::Encode|cola::encode::Encode for .*)>::encode$")
DEC = re.compile(r"(as cola::encode::Decode|cola::encode::Decode for .*)>::decode$")
WHO = re.compile(r"serde::(?:Serialize|Deserialize<'\w+>) for ([\w:]+(?:<.*>)?)>::(serialize|deserialize)(?:::Visitor as .*>::(visit_\w+))?$")


def insts(prog):
    out = []
    for i in prog.insts:
        m = WHO.search(i["def"])
        if m and i["local"] and "body" in i:
            out.append((i, m.group(1), m.group(3) or m.group(2)))
    return out


def bench(c, prog, inst):
    L = lab.Lab(prog)
    e = L.e
    L.decoded = []

    def m_enc(e, c_, st):
        v = models.deref(e, c_, 0, st)[0]
        b, tg, ty = models.deref(e, c_, 1, st)
        s = models.fresh(st)
        e.wr(s, tg, e.app("encoded", ty, b, v))
        return models.unit(e, c_.dty), s

    def m_dec(e, c_, st):
        rv, s2 = e.opaque_call(c_.inst, c_.inst["def"], c_.args, c_.atys, c_.dty, st, c_.span, c_.fr)
        L.decoded.append((st.g, models.deref(e, c_, 0, st)[0], rv, c_.dty, c_.inst))
        return rv, s2
    for i in prog.insts:
        if i["local"] and ENC.search(i["def"]):
            e.userm[i["def"]] = m_enc
        if i["local"] and DEC.search(i["def"]):
            e.userm[i["def"]] = m_dec
    args = []
    b = inst["body"]
    for k, ty in enumerate(b["locals"][1:1 + b["nargs"]]):
        pt = prog.types[ty]
        args.append(L.ref(L.place(f"in{k}", pt["e"])) if pt["k"] == "ref" else L.sym(f"in{k}", ty))
    return L, args


def one(L, v, tag):
    """the only alternative of v, when it is an application of tag"""
    al = L.e.galts(v)
    al = [(t, g) for t, g in al if L.feasible(g)]
    if len(al) == 1 and al[0][0].k == "X" and al[0][0].a[0] == tag:
        return al[0][0]
    return None


def serde(c, cfg="rel", only=None):
    R = f"serde ({cfg})"
    prog = c.prog(cfg)
    n = 0
    for inst, ty, fn in insts(prog):
        if fn == "expecting" or only and not only(ty):
            continue
        short = ty.split("::")[-1].replace("'_", "").replace("'static", "").replace("<>", "")
        L, args = bench(c, prog, inst)
        e = L.e
        w = where(L, inst)
        rv, out, rty = L.call(inst, *args)
        nm = f"{short}::{fn}"
        c.analysed |= e.analysed
        if not c.check(out is not None and (fn == "visit_seq" or L.feasible(L.NOT(out.g)) == 0), R, f"{nm} returns", f"{nm} does not always return", w):
            continue
        n += 1
        for p in e.panics:
            chk0(c, R, L, p.g, f"{nm}: {p.extra} at {p.span}", f"{nm} panics ({p.extra} at {p.span})", w)
        if fn == "serialize":
            evs = [ev for ev in e.events if ev.inst["def"].endswith("::serialize_bytes") and L.feasible(ev.g)]
            if not c.check(len(evs) == 1 and L.feasible(L.NOT(evs[0].g)) == 0, R, f"{nm}: bytes are handed over", f"{nm} does not hand bytes to the serializer, once", w):
                continue
            ev = evs[0]
            t = one(L, ev.args[1], "encoded")
            if c.check(t is not None and one(L, t.a[2], "new") is not None, R, f"{nm}: the encoding is handed over", lambda: f"{nm} hands over {lab.trunc(ev.args[1])} instead of what encoding writes", w):
                same(c, R, L, t.a[3], L.get(("arg", "in0")), 1, f"{nm}: the value itself is encoded", f"{nm} encodes another value", w)
            same(c, R, L, ev.raw[0], args[1], 1, f"{nm}: to the serializer it was given", f"{nm} uses another serializer", w)
            same(c, R, L, rv, ev.ret, out.g, f"{nm}: returns what the serializer says", f"{nm} returns something else than the serializer does", w)
        elif fn == "deserialize":
            evs = [ev for ev in e.events if re.search(r"::deserialize_byte(s|_buf)$", ev.inst["def"]) and L.feasible(ev.g)]
            if c.check(len(evs) == 1 and L.feasible(L.NOT(evs[0].g)) == 0, R, f"{nm}: asks for bytes", f"{nm} does not ask for the bytes that serializing wrote", w):
                same(c, R, L, rv, evs[0].ret, out.g, f"{nm}: returns what the deserializer says", f"{nm} returns something else than the deserializer does", w)
        else:
            dec = [d for d in L.decoded if L.feasible(d[0])]
            if not c.check(len(dec) == 1, R, f"{nm}: decodes", f"{nm} does not decode what it is given, once", w):
                continue
            g, buf, dv, dty, di = dec[0]
            if fn == "visit_seq":
                recs = [r for r in e.loops if L.feasible(r.cont)]
                el = [ev for ev in e.events if ev.inst["def"].endswith("::next_element") and ev.loop]
                if not c.check(len(recs) == 1 and len(el) == 1, R, f"{nm}: goes through the elements", f"{nm} does not go through the elements one by one", w):
                    continue
                r, ev = recs[0], el[0]
                from rules.codec import retty
                ety = retty(L, ev)
                okt = prog.field_ty(ety, L.variant(ety, "Ok"), 0)
                good, some = L.isv(ev.ret, ety, "Ok"), L.isv(L.payload(ev.ret, ety, "Ok"), okt, "Some")
                byte = L.payload(L.payload(ev.ret, ety, "Ok"), okt, "Some")
                vec = None
                for phi, (init, back, _) in r.phis.items():
                    if e.veq(e.G1(phi), buf) == 1 or L.diff(e.G1(phi), buf, g) == 0:
                        vec = (phi, init, back)
                if not c.check(vec is not None, R, f"{nm}: decodes the elements", f"{nm} does not decode the bytes it was given", w):
                    continue
                phi, init, back = vec
                c.check(one(L, init, "new") is not None, R, f"{nm}: starts with no bytes", f"{nm} starts with bytes it was not given", w)
                al = [(t, h) for t, h in e.galts(back) if L.feasible(L.AND(h, r.cont))]
                okp = len(al) == 1 and al[0][0].k == "X" and al[0][0].a[0] == "push" and L.diff(al[0][0].a[2], e.G1(phi), r.cont) == 0
                if c.check(okp, R, f"{nm}: keeps the bytes in order", f"{nm} does not keep the bytes in the order they come in", w):
                    same(c, R, L, al[0][0].a[3], byte, r.cont, f"{nm}: keeps every byte", f"{nm} keeps another byte than the one it is given", w)
                chk0(c, R, L, L.AND(r.cont, L.NOT(L.AND(good, some))), f"{nm}: goes on while there are bytes", f"{nm} goes on without a byte", w)
                chk0(c, R, L, L.AND(g, L.NOT(L.AND(good, L.NOT(some)))), f"{nm}: stops when there are none", f"{nm} stops before the last byte, or in spite of an error", w)
                chk0(c, R, L, L.AND(out.g, L.isv(rv, rty, "Ok"), L.NOT(g)), f"{nm}: nothing but decoding yields a value", f"{nm} yields a value that was not decoded", w)
            else:
                chk0(c, R, L, L.NOT(g), f"{nm}: always decodes", f"{nm} does not always decode", w)
                same(c, R, L, buf, L.get(("arg", "in1")), 1, f"{nm}: decodes the bytes it is given", f"{nm} decodes other bytes", w)
            dok = L.isv(dv, dty, "Ok")
            dp, dpt = L.payload(dv, dty, "Ok"), prog.field_ty(dty, L.variant(dty, "Ok"), 0)
            ok = L.isv(rv, rty, "Ok")
            chk0(c, R, L, L.AND(g, L.b.XOR(ok, dok)), f"{nm}: fails exactly when decoding does", f"{nm} fails although decoding did not, or the other way around", w)
            same(c, R, L, L.payload(rv, rty, "Ok"), e.getf(dp, dpt, 0, 0), L.AND(g, ok), f"{nm}: yields the decoded value", f"{nm} yields another value than the decoded one", w)
    c.floor(f"serde functions ({cfg})", n, 4 if only else 12)


def edits(c):
    serde(c, only=lambda ty: ty in ("cola::insertion::Insertion", "cola::deletion::Deletion", "cola::anchor::Anchor", "cola::text::Text"))


def replica(c):
    serde(c, only=lambda ty: "EncodedReplica" in ty)

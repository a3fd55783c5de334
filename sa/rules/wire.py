"""Encoded replicas: what is handed out is version, checksum, payload; what is
taken in is checked in that order before anything is decoded."""
from lab import Lab, trunc
from gvf import N, NT, UNDEF, Imprecise, MissingAnchor, St
import models

RENC = r"cola::.*<impl cola::encode::Encode for cola::.*Replica>::encode|<cola::.*\bReplica as cola::encode::Encode>::encode"
RDEC = r"cola::.*<impl cola::encode::Decode for cola::.*Replica>::decode|<cola::.*\bReplica as cola::encode::Decode>::decode"
UENC = r"<u64 as cola::encode::Encode>::encode|cola::encode::<impl cola::encode::Encode for u64>::encode"
UDEC = r"<u64 as cola::encode::Decode>::decode|cola::encode::<impl cola::encode::Decode for u64>::decode"
ER = r"cola::encoded_replica::EncodedReplica::<.*>::"


def replica_only(l):
    return [i for i in l if i["def"].split("::")[-2].rstrip(">").endswith("Replica") and "EncodedReplica" not in i["def"] or "replica::Replica" in i["def"]]


def bench(c):
    L = Lab(c.prog("rel"))
    e = L.e
    log = {"enc": [], "dec": [], "ver": []}

    def appender(tag):
        def f(e, cc, st):
            v, _, _ = models.deref(e, cc, 0, st)
            b, tg, ty = models.deref(e, cc, 1, st)
            s = models.fresh(st)
            x = e.app(tag, L.ty("[u8]"), v)
            log["enc"].append((tag, v, st.g))
            e.wr(s, tg, e.app("extend", ty, b, x))
            return models.unit(e, cc.dty), s
        return f

    def digest(e, cc, st):
        x = e.content(cc.args[0], cc.atys[0], st)
        return e.app("sha256", cc.dty, x), models.fresh(st)

    def asref(e, cc, st):
        v, _, _ = models.deref(e, cc, 0, st)
        ty = e.prog.types[cc.dty]["e"]
        s = models.fresh(st)
        root = ("deref", NT("X", "bytesof", ty, v))
        e.root_ty[root] = ty
        s.m[root] = e.app("bytesof", ty, v)
        return e.G1(NT("R", root, ())), s

    def boxed(e, cc, st):
        """a new box holding a copy of the bytes"""
        x = e.content(cc.args[0], cc.atys[0], st)
        sl = e.prog.types[cc.atys[0]]["e"]
        v = e.app("boxed", cc.dty, x)
        s = models.fresh(st)
        for i, t in enumerate(e.prog.types):
            if t["k"] == "ptr" and t["e"] == sl:
                p = e.cast("Transmute", e.getf(v, cc.dty, 0, 0), e.prog.field_ty(cc.dty, 0, 0), i, st)
                for g, root, path in e.targets(p, sl, s):
                    if not path:
                        s.m[root] = x
        return v, s

    for i in L.prog.insts:
        if "Box<[T]" in i["def"] and i["def"].endswith("::from") and "From<&" in i["def"]:
            e.userm[i["def"]] = boxed
        if "Box<[T]" in i["def"] and i["def"].endswith("Clone>::clone"):
            e.userm[i["def"]] = lambda e, cc, st: (models.deref(e, cc, 0, st)[0], models.fresh(st))
    for i in L.prog.find(UENC):
        e.userm[i["def"]] = appender("version bytes")
    r = [i for i in L.prog.find(RENC) if "EncodedReplica" not in i["def"]]
    if not r:
        raise MissingAnchor("encoder of the replica")
    for i in r:
        e.userm[i["def"]] = appender("payload")
    for i in L.prog.insts:
        if i["def"].endswith("Digest>::digest"):
            e.userm[i["def"]] = digest
        if i["def"].endswith("::as_ref") and "GenericArray" in i["def"]:
            e.userm[i["def"]] = asref

    def decoder(which):
        def f(e, cc, st):
            b = e.content(cc.args[0], cc.atys[0], st)
            rt = e.prog.types[cc.dty]
            names = {v["n"]: i for i, v in enumerate(rt["vs"])}
            okt = e.prog.field_ty(cc.dty, names["Ok"], 0)
            n = len(log[which])
            ok = e.atom("bool", NT("X", f"{which} {n} decodes", None))
            u8s = e.prog.types[e.prog.types[okt]["es"][1]]["e"]
            root = ("const", f"what follows {which} {n}")
            e.root_ty[root] = u8s
            e.consts[root] = e.G1(N("S", f"rest{n}", u8s))
            vt = e.prog.types[okt]["es"][0]
            val = e.symval(N("S", f"{which} value {n}", vt), vt)
            err = e.symval(N("S", f"{which} error {n}", e.prog.field_ty(cc.dty, names["Err"], 0)), e.prog.field_ty(cc.dty, names["Err"], 0))
            log[which].append(dict(arg=b, ok=ok, val=val, vt=vt, rest=e.consts[root], rty=u8s, g=st.g, err=err))
            tup = e.mkA(okt, [(0, 1, (val, e.G1(NT("R", root, ()))))])
            return e.mkA(cc.dty, [(names["Ok"], ok, (tup,)), (names["Err"], e.b.NOT(ok), (err,))]), models.fresh(st)
        return f
    for i in L.prog.find(UDEC):
        e.userm[i["def"]] = decoder("ver")
    r = [i for i in L.prog.find(RDEC) if "EncodedReplica" not in i["def"]]
    if not r:
        raise MissingAnchor("decoder of the replica")
    for i in r:
        e.userm[i["def"]] = decoder("dec")
    return L, log


def segments(L, v):
    """a byte vector as [(value, length)]"""
    e = L.e
    al = e.galts(v)
    if len(al) != 1:
        raise Imprecise("the encoded bytes differ between paths: " + trunc(v))
    t = al[0][0]
    if t.k == "X" and t.a[0] == "new":
        return []
    if t.k == "X" and t.a[0] == "extend":
        x = t.a[3]
        xt = e.galts(x)[0][0] if x.k == "G" and len(e.galts(x)) == 1 else None
        if xt is not None and xt.k == "X" and xt.a[0] in ("extend", "new", "splice"):
            return segments(L, t.a[2]) + segments(L, x)
        return segments(L, t.a[2]) + [(x, e.lenof(x, None))]
    if t.k == "X" and t.a[0] == "splice":
        base, lo, hi, new = t.a[2:]
        segs = segments(L, base)
        at = e.I(0)
        for i, (x, n) in enumerate(segs):
            end = e.add(at, n)
            if e.veq(at, lo) == 1 and e.veq(end, hi) == 1:
                return segs[:i] + [(new, n)] + segs[i + 1:]
            at = end
        raise Imprecise("a part of the encoded bytes is overwritten: " + trunc(v))
    if t.k == "X" and len(t.a) == 3 and ("From" in str(t.a[0]) or "from" in str(t.a[0]) or "into" in str(t.a[0])):
        return segments(L, t.a[2])
    if t.k == "X" and t.a[0] == "bytesof" or t.k == "X" and t.a[0] in ("payload", "version bytes"):
        return [(v, e.lenof(v, None))]
    raise Imprecise("the encoded bytes are built in a way that isn't understood: " + trunc(v))


def bytesof(L, v, ty, st):
    """the bytes an EncodedReplica holds"""
    fn = L.fn(ER + "as_bytes")
    r = ("arg", f"er{L.n}")
    L.n += 1
    L.e.root_ty[r] = ty
    s = St(1, dict(st.m))
    s.m[r] = v
    rv, out, rty = L.call(fn, L.ref(r), state=s)
    return L.e.content(rv, rty, out)


def integrity(c):
    R = "integrity"
    L, log = bench(c)
    e = L.e
    fn = L.fn(ER + "from_replica")
    w = fn["def"] + " @ " + str(fn["body"]["span"])
    me = L.place("replica", L.prog.types[fn["body"]["locals"][1]]["e"])
    sv = L.get(me)
    rv, out, rty = L.call(fn, L.ref(me))
    if not c.check(out is not None, R, "encoding returns", "encoding a replica never returns", w):
        return
    for p in e.panics:
        z = L.feasible(p.g)
        c.check(z == 0, R, "encoding does not panic", lambda: f"encoding a replica panics ({p.extra} at {p.span}) when {L.why(z)}", w)
    held = L.e.getf(rv, rty, 0, 0)
    hty = L.prog.field_ty(rty, 0, 0)
    owned = L.isv(held, hty, "Owned")
    c.check(L.feasible(L.NOT(owned)) == 0, R, "the encoding owns its bytes", "the encoded replica does not own its bytes", w)
    segs = segments(L, L.payload(held, hty, "Owned"))
    shape = len(segs) == 3
    if not c.check(shape, R, "version, checksum, payload", lambda: f"an encoded replica consists of {[trunc(x, 80) for x, n in segs]}", w):
        return
    ver, cs, pay = [x for x, n in segs]
    tv = e.galts(ver)[0][0]
    tp = e.galts(pay)[0][0]
    if not c.check(tv.k == "X" and tv.a[0] == "version bytes", R, "starts with the protocol version", lambda: f"an encoded replica starts with {trunc(ver)}", w):
        return
    version = tv.a[2]
    va = e.galts(version)
    c.check(len(va) == 1 and va[0][0].k == "I", R, "the version is a constant", lambda: f"the protocol version is {trunc(version)}", w)
    c.check(tp.k == "X" and tp.a[0] == "payload" and L.diff(tp.a[2], sv) == 0, R, "the payload is the replica", lambda: f"the payload is {trunc(pay)}", w)
    c.check(isdigest(L, cs, pay), R, "the checksum is the payload's", lambda: f"the checksum is {trunc(cs)}, not the SHA-256 of the payload", w)
    c.check(e.veq(segs[1][1], e.I(32)) == 1, R, "the checksum has 32 bytes", "the checksum does not have 32 bytes", w)
    c.analysed |= e.analysed
    taking(c, R, version)
    handing(c, R)


def isdigest(L, x, of):
    al = L.e.galts(x)
    if len(al) != 1:
        return False
    t = al[0][0]
    if not (t.k == "X" and t.a[0] == "bytesof"):
        return False
    d = L.e.galts(t.a[2])[0][0]
    return d.k == "X" and d.a[0] == "sha256" and "Sha256" in L.prog.types[d.a[1]]["n"] + "Sha256" and L.diff(plain(L, d.a[2]), plain(L, of)) == 0


def plain(L, v):
    """a vector that holds nothing but one piece is that piece"""
    al = L.e.galts(v)
    if len(al) == 1 and al[0][0].k == "X" and al[0][0].a[0] == "extend":
        b = L.e.galts(al[0][0].a[2])
        if len(b) == 1 and b[0][0].k == "X" and b[0][0].a[0] == "new":
            return plain(L, al[0][0].a[3])
    return v


def taking(c, R, version):
    L, log = bench(c)
    e = L.e
    fn = L.fn(ER + "to_replica")
    w = fn["def"] + " @ " + str(fn["body"]["span"])
    et = L.prog.types[fn["body"]["locals"][1]]["e"]
    me = L.place("encoded", et)
    given = bytesof(L, L.get(me), et, L.st)
    e.events, e.panics = [], []
    rv, out, rty = L.call(fn, L.ref(me))
    if not c.check(out is not None, R, "decoding returns", "decoding a replica never returns", w):
        return
    if not c.check(len(log["ver"]) == 1 and L.diff(log["ver"][0]["arg"], given) == 0 and log["ver"][0]["g"] == 1, R, "the version is read first", "the protocol version is not read from the start of the bytes", w):
        return
    v = log["ver"][0]
    same = e.eq(v["val"], version)
    ln = e.lenof(v["rest"], v["rty"])
    short = e.lt(ln, e.I(32))
    head = models.subslice(e, v["rest"], v["rty"], v["rty"], e.I(0), e.I(32))
    body = models.subslice(e, v["rest"], v["rty"], v["rty"], e.I(32), ln)
    if not c.check(len(log["dec"]) == 1, R, "the payload is decoded once", f"the payload is decoded at {len(log['dec'])} places", w):
        return
    d = log["dec"][0]
    c.check(L.diff(d["arg"], body, d["g"]) == 0, R, "the payload is what follows the checksum", lambda: f"{trunc(d['arg'])} is decoded as the payload", w)
    # the condition under which it's decoded: a comparison of head and digest
    must = L.AND(v["ok"], same, L.NOT(short))
    z = L.feasible(L.AND(d["g"], L.NOT(must)))
    c.check(z == 0, R, "nothing is decoded before the version was checked", lambda: f"the payload is decoded although {L.why(z)}", w)
    cmp = None
    for a, b, g in comparisons(L):
        for x, y in ((a, b), (b, a)):
            if L.diff(x, head, must) == 0 and isdigest(L, y, body):
                cmp = g
    if not c.check(cmp is not None, R, "the checksum is compared", "the stored checksum is not compared with the SHA-256 of the payload", w):
        return
    z = L.feasible(L.b.XOR(d["g"], L.AND(must, cmp)))
    c.check(z == 0, R, "the payload is decoded exactly if the checksum matches", lambda: f"the payload is decoded under another condition than a matching checksum: {L.why(z)}", w)
    for p in e.panics:
        z = L.feasible(p.g)
        c.check(z == 0, R, "decoding does not panic", lambda: f"decoding panics ({p.extra} at {p.span}) when {L.why(z)}", w)
    good = L.AND(must, cmp, d["ok"])
    z = L.feasible(L.b.XOR(L.isv(rv, rty, "Ok"), good))
    c.check(z == 0, R, "decoding succeeds exactly if everything is right", lambda: f"decoding succeeds under the wrong condition: {L.why(z)}", w)
    z = L.diff(L.payload(rv, rty, "Ok"), d["val"], good)
    c.check(z == 0, R, "the decoded parts are returned", "decoding returns something else than the decoded parts", w)
    ety = L.prog.field_ty(rty, L.variant(rty, "Err"), 0)
    er = L.payload(rv, rty, "Err")
    dif = L.AND(v["ok"], L.NOT(same))
    cs = L.AND(must, L.NOT(cmp))
    inv = L.AND(L.NOT(good), L.NOT(dif), L.NOT(cs))
    for name, cond in (("DifferentProtocol", dif), ("ChecksumFailed", cs), ("InvalidData", inv)):
        z = L.feasible(L.AND(L.NOT(good), L.b.XOR(L.isv(er, ety, name), cond)))
        c.check(z == 0, R, f"{name} is reported exactly when it is the case", lambda: f"{name} is reported wrongly: {L.why(z)}", w)
    names = L.prog.field_names(ety, L.variant(ety, "DifferentProtocol"))
    for f, want in (("encoded_on", v["val"]), ("decoding_on", version)):
        x = L.payload(er, ety, "DifferentProtocol", names.index(f))
        z = L.diff(x, want, dif)
        c.check(z == 0, R, f"DifferentProtocol.{f}", lambda: f"DifferentProtocol.{f} is {trunc(x)}", w)
    c.analysed |= e.analysed


def comparisons(L):
    """byte strings that were compared: (a, b, guard that they're equal)"""
    out = []
    for t, g in L.e.atomterms():
        if t.k == "X" and t.a[0] == "bytes_eq":
            out.append((t.a[2], t.a[3], g))
    return out


def handing(c, R):
    """bytes pass through an EncodedReplica unchanged"""
    L, log = bench(c)
    e = L.e
    fn = L.fn(ER + "from_bytes")
    w = fn["def"]
    u8s = L.prog.types[fn["body"]["locals"][1]]["e"]
    b = L.place("bytes", u8s)
    rv, out, rty = L.call(fn, L.ref(b))
    c.check(L.diff(bytesof(L, rv, rty, out), L.get(b)) == 0, R, "from_bytes: the same bytes", "an encoded replica made from bytes holds other bytes", w)
    fn = L.fn(ER + "to_static")
    et = L.prog.types[fn["body"]["locals"][1]]["e"]
    me = L.place("encoded", et)
    given = bytesof(L, L.get(me), et, L.st)
    rv, out, rty = L.call(fn, L.ref(me))
    c.check(L.diff(bytesof(L, rv, rty, out), given) == 0, R, "to_static: the same bytes", "to_static changes the bytes", fn["def"])
    for fn in L.prog.find(r"<cola::encoded_replica::EncodedReplica<'_> as std::(convert::AsRef<\[u8\]>>::as_ref|ops::Deref>::deref)"):
        rv, out, rty = L.call(fn, L.ref(me))
        c.check(L.diff(e.content(rv, rty, out), given) == 0, R, fn["def"].split("::")[-1] + ": the same bytes", fn["def"] + " gives other bytes", fn["def"])
    for p in e.panics:
        z = L.feasible(p.g)
        c.check(z == 0, R, "handing bytes around does not panic", lambda: f"panics ({p.extra} at {p.span}) when {L.why(z)}", "src/encoded_replica.rs")
    c.analysed |= e.analysed

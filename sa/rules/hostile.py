"""Decoding whatever bytes: no panic, no allocation the input does not pay for,
and only well-formed values are accepted.

The decoders are interpreted over an arbitrary slice of bytes; reading a number
yields an error, or any number at all and the bytes behind it."""
import re
import lab
import models
from rules.replica import where
from rules.runtree import chk0

DEC = re.compile(r"(as cola::encode::Decode(WithCtx)?|cola::encode::Decode(WithCtx)? for .*)>::decode$")
INT = re.compile(r"<(u16|u32|u64|usize) as")
GROW = re.compile(r"(with_capacity(_in)?|::reserve(_exact)?|::resize|::resize_with|from_elem(_in)?|set_len|repeat|extend_with|with_capacity_and_hasher)$")
TREE = r"cola::gtree::Gtree::<ARITY, L>::(?!assemble|encode|decode).*"
SMALL = 1 << 16


def decoders(prog):
    """every decoder of the crate, numbers apart (codec.ints)"""
    out = []
    for i in prog.insts:
        if i["local"] and "body" in i and not INT.match(i["def"]) and (DEC.search(i["def"]) or i["def"] == "cola::replica::Replica::decode"):
            out.append(i)
    return out


def read_number(L):
    """Reading a number: an error, or any number and a shorter rest."""
    e = L.e

    def m(e, c, st):
        buf, _, bty = models.deref(e, c, 0, st)
        rv, s2 = e.opaque_call(c.inst, c.inst["def"], c.args, c.atys, c.dty, st, c.span, c.fr)
        t = e.prog.types[c.dty]
        ok = L.isv(rv, c.dty, "Ok")
        pay, pty = L.payload(rv, c.dty, "Ok"), e.prog.field_ty(c.dty, L.variant(c.dty, "Ok"), 0)
        rest = e.getf(pay, pty, 0, 1)
        rty = e.prog.field_ty(pty, 0, 1)
        for g, root, path in e.targets(rest, e.prog.types[rty]["e"], s2):
            n = e.lenof(e.rd(s2, root, path), e.prog.types[rty]["e"])
            L.assume(L.OR(L.NOT(ok), e.lt(n, e.lenof(buf, bty))))
            e.rests.append(n)
        return rv, s2
    for p in ("u16", "u32", "u64", "usize"):
        for i in L.prog.find(rf"<{p} as cola::encode::Decode>::decode"):
            e.userm[i["def"]] = m


def growth(L):
    """the sizes memory is asked for up front"""
    e = L.e
    out = []

    def m(e, c, st):
        for a, ty in zip(c.args, c.atys):
            if e.prog.types[ty].get("n") == "usize":
                out.append((st.g, a, lab.short(c.inst["def"]) if hasattr(lab, "short") else c.inst["def"].split("::")[-1], c.span))
        return NotImplemented
    for i in L.prog.insts:
        if not i["local"] and GROW.search(i["def"]):
            e.userm[i["def"]] = m
    return out


def args_of(L, inst):
    P = L.prog
    b = inst["body"]
    out, bufs = [], []
    for k, ty in enumerate(b["locals"][1:1 + b["nargs"]]):
        pt = P.types[ty]
        if pt["k"] == "ref":
            root = L.place(f"input{k}", pt["e"])
            out.append(L.ref(root))
            if P.types[pt["e"]]["k"] == "slice":
                bufs.append((root, pt["e"]))
        else:
            out.append(L.sym(f"input{k}", ty))
    return out, bufs


def panics(c, cfg="ovf"):
    """No decoder panics, whatever the bytes."""
    R = f"decoding-never-panics ({cfg})"
    prog = c.prog(cfg)
    n = 0
    for inst in decoders(prog):
        L = lab.Lab(prog, opaque=[TREE, r"cola::run_indices::RunIndices::.*", r"cola::run_indices::fragments::Fragments::.*", r"cola::run_indices::ReplicaIndices::.*"])
        e = L.e
        e.rests = []
        w = where(L, inst)
        read_number(L)
        args, bufs = args_of(L, inst)
        name = inst["n"] if isinstance(inst.get("n"), str) else inst["def"]
        c.analysed.add(inst["def"])
        grown = growth(L)
        if inst["def"].endswith("Replica::decode"):
            # an id of zero is the caller's mistake (C07)
            L.assume(L.NOT(e.eqc(args[0], 0)))
        rv, out, rty = L.call(inst, *args)
        n += 1
        sizes = [e.lenof(L.get(r), ty) for r, ty in bufs] + e.rests
        for g, size, what, span in grown:
            ok = L.OR(e.lt(size, e.I(SMALL)), *[L.NOT(e.lt(x, size)) for x in sizes])
            chk0(c, R, L, L.AND(g, L.NOT(ok)), f"{name}: {what} at {span}", f"decoding allocates what the input asks for, however short it is ({what} at {span}, reached from {name})", w)
        c.check(out is not None and L.feasible(out.g) != 0, R, f"{name} returns", f"{name} never returns", w)
        for p in e.panics:
            chk0(c, R, L, p.g, f"{name}: {p.extra} at {p.span}", f"decoding panics on some input ({p.extra} at {p.span}, reached from {name})", w)
    c.floor(f"decoders interpreted ({cfg})", n, 20)


def wellformed(c, cfg="rel"):
    """What is accepted is well-formed: no text ends before it starts."""
    R = f"decoded-values-are-well-formed ({cfg})"
    prog = c.prog(cfg)
    n = 0
    for inst in decoders(prog):
        m = re.search(r"for cola::(text::Text|insertion::Insertion)>::decode$", inst["def"])
        if not m:
            continue
        L = lab.Lab(prog)
        e = L.e
        e.rests = []
        w = where(L, inst)
        read_number(L)
        args, bufs = args_of(L, inst)
        rv, out, rty = L.call(inst, *args)
        ok = L.isv(rv, rty, "Ok")
        pay, pty = L.payload(rv, rty, "Ok"), prog.field_ty(rty, L.variant(rty, "Ok"), 0)
        val, vty = e.getf(pay, pty, 0, 0), prog.field_ty(pty, 0, 0)
        path = "range" if m.group(1).startswith("text") else "text.range"
        rg = L.f(val, vty, path)
        gty = L.fty(vty, path)
        n += 1
        chk0(c, R, L, L.AND(out.g, ok, e.lt(L.f(rg, gty, "end"), L.f(rg, gty, "start"))), f"{m.group(1)}: not backwards", f"a {m.group(1).split('::')[1].lower()} whose text ends before it starts is accepted", w)
        c.analysed |= e.analysed
    c.floor(f"values decoded ({cfg})", n, 2)


def tags(c, cfg="rel"):
    """A one-byte tag is accepted only if it is the byte written for what it stands for."""
    R = f"only-tags-that-are-written ({cfg})"
    prog = c.prog(cfg)
    n = 0
    for inst in decoders(prog):
        m = re.search(r"<(.*) as cola::encode::Decode>::decode$|for (cola::\S*)>::decode$", inst["def"])
        ty = m and (m.group(1) or m.group(2))
        if not ty or not (ty == "bool" or re.search(r"(Flag|Bias)$", ty)):
            continue
        enc = [i for i in prog.insts if "body" in i and (i["def"] == f"<{ty} as cola::encode::Encode>::encode" or i["def"].endswith(f"<impl cola::encode::Encode for {ty}>::encode"))]
        L = lab.Lab(prog)
        e = L.e
        w = where(L, inst)
        args, bufs = args_of(L, inst)
        rv, out, rty = L.call(inst, *args)
        ok = L.AND(out.g, L.isv(rv, rty, "Ok"))
        pay, pty = L.payload(rv, rty, "Ok"), prog.field_ty(rty, L.variant(rty, "Ok"), 0)
        val, vty = e.getf(pay, pty, 0, 0), prog.field_ty(pty, 0, 0)
        byte = e.geti(L.get(bufs[0][0]), bufs[0][1], e.I(0))
        if not c.check(len(enc) == 1, R, f"{ty} is written", f"{ty} is read, and never written", w):
            continue
        L.st = out
        src = L.place("value", vty, val)
        dst = L.place("written", prog.types[enc[0]["body"]["locals"][2]]["e"])
        _, end, _ = L.call(enc[0], L.ref(src), L.ref(dst), g=ok)
        n += 1
        bad = 0
        for t, g in e.galts(L.get(dst, end)):
            if t.k == "X" and t.a[0] == "push":
                g = L.AND(g, L.NOT(e.eq(t.a[3], byte)))
            bad = L.OR(bad, g)
        chk0(c, R, L, L.AND(ok, bad), f"{ty}: the byte read is the byte written", f"{ty} is decoded from a byte that does not encode it", w)
        chk0(c, R, L, L.AND(ok, L.NOT(end.g)), f"{ty}: can be written", f"writing {ty} fails", w)
        chk0(c, R, L, L.AND(ok, e.eqc(e.lenof(L.get(bufs[0][0]), bufs[0][1]), 0)), f"{ty}: not from nothing", f"{ty} is decoded from no bytes at all", w)
        c.analysed |= e.analysed
    c.floor(f"tags ({cfg})", n, 3)


def visitors(c, cfg="ovf"):
    """The way in through serde: no panic, and no memory set aside because the input says so."""
    from rules import serial
    R = f"deserializing-never-panics ({cfg})"
    prog = c.prog(cfg)
    n = 0
    for inst, ty, fn in serial.insts(prog):
        if not fn.startswith("visit_"):
            continue
        L, args = serial.bench(c, prog, inst)
        w = where(L, inst)
        grown = growth(L)
        L.call(inst, *args)
        n += 1
        nm = f"{ty}::{fn}"
        for p in L.e.panics:
            chk0(c, R, L, p.g, f"{nm}: {p.extra} at {p.span}", f"deserializing panics on some input ({p.extra} at {p.span}, reached from {nm})", w)
        for g, size, what, span in grown:
            chk0(c, R, L, L.AND(g, L.NOT(L.e.lt(size, L.e.I(SMALL)))), f"{nm}: {what} at {span}", f"deserializing allocates what the input asks for, however short it is ({what} at {span}, reached from {nm})", w)
        c.check(True, R, f"{nm}: interpreted", "", w)
        c.analysed |= L.e.analysed
    c.floor(f"visitors ({cfg})", n, 6)

"""Whole-crate effect rules, decided on the type-checked program itself: every
function, call site, cast, place and type of the crate is inspected (generic
functions also in their unsubstituted form)."""
import json
import re
from gvf import MissingAnchor

CELLS = re.compile(r"\b(Unsafe|Sync|Once|Lazy|Ref)?Cell\b|\bOnceLock\b|\bLazyLock\b|\bAtomic\w*\b|\bMutex\b|\bRwLock\b|\bReentrantLock\b|\bCondvar\b|\bReceiver\b|\bSender\b|\bBarrier\b")
SHARED = re.compile(r"\b(Rc|Arc|Weak)<|\*mut |\*const |\bNonNull\b|\bBox<dyn ")


class Body:
    """a local function body and the type table it refers to"""

    def __init__(self, P, i):
        self.P, self.i, self.b = P, i, i["body"]
        self.name, self.def_ = i["n"], i["def"]

    def ty(self, t):
        return self.P.types[t] if t is not None else {"k": "?", "n": "?"}

    def stmts(self):
        for k, bb in enumerate(self.b["bbs"]):
            for s in bb["s"]:
                yield k, s

    def terms(self):
        for k, bb in enumerate(self.b["bbs"]):
            yield k, bb["t"]

    def walk(self, p):
        """(projection, type before it) along a place"""
        t = self.b["locals"][p[0]]
        for pr in p[1]:
            yield pr, t
            if pr[0] == "f":
                t = pr[2]
            elif pr[0] in ("*", "i", "c"):
                t = self.ty(t).get("e")
            elif pr[0] == "o":
                t = pr[1]

    def placety(self, p):
        t = self.b["locals"][p[0]]
        for pr in p[1]:
            if pr[0] == "f":
                t = pr[2]
            elif pr[0] in ("*", "i", "c"):
                t = self.ty(t).get("e")
            elif pr[0] == "o":
                t = pr[1]
        return t

    def places(self, x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and all(isinstance(y, list) and y and isinstance(y[0], str) for y in x[1]):
                yield x
                return
            for y in x:
                yield from self.places(y)
        elif isinstance(x, dict):
            for y in x.values():
                yield from self.places(y)

    def calls(self):
        for k, t in self.terms():
            if t["k"] != "call":
                continue
            ft = self.ty(t["fty"]) if t.get("fty") is not None else {"k": "?", "n": "?"}
            inst = self.P.insts[ft["inst"]] if ft.get("inst") is not None else None
            yield t, ft, inst


def bodies(P, poly=True):
    out = [Body(P, i) for i in P.insts if i["local"] and "body" in i]
    if poly:
        out += [Body(P, dict(p)) for p in P.poly if p.get("body")]
    return out


def names(b, ft, inst):
    return [x for x in (ft.get("n"), inst and inst["def"], inst and inst["n"]) if x]


def at(b, sp):
    return f"{b.def_} @ {sp or b.b.get('span')}"


def closure_of(b):
    return [b]


# ------------------------------------------------------------------ unsafe
def shape(P, t, seen=()):
    """the scalars a value of this type is made of, or None if unknown"""
    if t is None:
        return None
    T = P.types[t]
    k = T["k"]
    if k in ("uint", "int"):
        return [T["n"]]
    if k == "adt" and t not in seen:
        if T["ak"] == "union":
            l = [shape(P, f["t"] if isinstance(f, dict) else f, seen + (t,)) for f in T["vs"][0]["f"]]
            return l[0] if l and all(x == l[0] for x in l) else None
        if T["ak"] == "struct":
            out = []
            for f in T["vs"][0]["f"]:
                ft = f["t"] if isinstance(f, dict) else f
                if "PhantomData" in P.types[ft]["n"]:
                    continue
                s = shape(P, ft, seen + (t,))
                if s is None:
                    return None
                out += s
            return out
    if k == "tuple" and not T["es"]:
        return []
    return None


def unsafe_sites(c):
    R = "unsafe-sites"
    P = c.prog("rel")
    n = {"casts": 0, "places": 0, "calls": 0}
    tr = 0
    for b in bodies(P):
        c.analysed.add(b.def_)
        boxes = set()
        for k, s in b.stmts():
            if s["k"] == "=" and s["r"][0] == "cast" and s["r"][1] == "BoxDerefTransmute":
                boxes.add(s["p"][0])
        for k, s in b.stmts():
            if s["k"] == "cno":
                c.check(False, R, f"{b.def_}:copy_nonoverlapping", "memory is copied through raw pointers", at(b, s.get("sp")))
            if s["k"] == "=" and s["r"][0] == "tls":
                c.check(False, R, f"{b.def_}:thread-local", "a thread-local is read", at(b, s.get("sp")))
            if s["k"] == "=" and s["r"][0] == "cast":
                n["casts"] += 1
                kind, op, to = s["r"][1:4]
                if kind == "Transmute":
                    frm = b.placety(op[1]) if op[0] in ("cp", "mv") else op[1]
                    tr += 1
                    ok, why = transmute_ok(b, frm, to)
                    c.check(ok, R, f"{b.def_}:transmute {b.ty(frm)['n']} to {b.ty(to)['n']}", f"a value of type {b.ty(frm)['n']} is reinterpreted as {b.ty(to)['n']}: {why}", at(b, s.get("sp")))
        for x in b.b["bbs"]:
            for p in b.places([x["s"], x["t"]]):
                n["places"] += 1
                for pr, t in b.walk(p):
                    T = b.ty(t)
                    if pr[0] == "*" and T["k"] == "ptr" and p[0] not in boxes:
                        c.check(False, R, f"{b.def_}:raw deref", f"a raw pointer ({T['n']}) is dereferenced", at(b, x["t"].get("sp")))
                    if pr[0] == "f" and T["k"] == "adt" and T.get("ak") == "union" and not T["n"].startswith(("std::", "core::", "alloc::")):
                        ok = shape(P, t) is not None or "params" in T or T["k"] == "param" or generic(T)
                        c.check(ok, R, f"{b.def_}:union {T['n']}", f"a field of the union {T['n']} is used whose alternatives are not the same plain integers", at(b, x["t"].get("sp")))
        for t, ft, inst in b.calls():
            n["calls"] += 1
            if ft.get("unsafe_fn") and not re.search(r"\bfmt::(Arguments|rt)\b", ft["n"]):
                d = inst["def"] if inst else ft["n"]
                c.check(False, R, f"{b.def_}:unsafe call {d[:80]}", f"the unsafe function {d} is called", at(b, t.get("sp")))
    for s in P.statics:
        T = P.types[s["t"]]
        c.check(not s["mut"] and not CELLS.search(T["n"]), R, f"static {s['n']}", f"{s['n']} is a mutable static", s["n"])
    for im in P.impls:
        if im["unsafe"]:
            c.check(im["derived"], R, f"unsafe impl {im['t']}", f"{im['t']} is implemented by an unsafe impl", im["t"])
    c.counts.update({k + " inspected": v for k, v in n.items()})
    c.floor("local function bodies", len(bodies(P)), 300)
    c.ob(R, f"{n['places']} places, {n['casts']} casts, {n['calls']} calls in every local body")


def generic(T):
    return "<L>" in T["n"] or "<T>" in T["n"]


def transmute_ok(b, frm, to):
    F, T = b.ty(frm), b.ty(to)
    if frm == to or F["n"] == T["n"]:
        return True, ""   # only lifetimes differ: see the extension rule
    if F["k"] == "ref" and T["k"] == "ref":
        if T.get("mut") and not F.get("mut"):
            return False, "a shared reference becomes an exclusive one"
        fe, te = b.ty(F["e"]), b.ty(T["e"])
        if fe["k"] == "slice" and te["k"] == "slice":
            a, z = shape(b.P, fe["e"]), shape(b.P, te["e"])
        else:
            a, z = shape(b.P, F["e"]), shape(b.P, T["e"])
    else:
        a, z = shape(b.P, frm), shape(b.P, to)
        if generic(F) or F["k"] == "alias" or F["k"] == "param":
            return True, ""
    if a is None or z is None:
        if generic(F) and generic(T):
            return True, ""
        return False, "not plain integers on both sides"
    return a == z, f"made of {a} and {z}"


def lifetimes(c):
    """References whose lifetime is extended: nothing done while they live
    touches the storage they point into."""
    R = "extended-references"
    P = c.prog("rel")
    found = 0
    for b in bodies(P, poly=False):
        for k, s in b.stmts():
            if s["k"] == "=" and s["r"][0] == "cast" and s["r"][1] == "Transmute":
                op, to = s["r"][2:4]
                frm = b.placety(op[1])
                if b.ty(frm)["n"] != b.ty(to)["n"] or b.ty(to)["k"] != "ref":
                    continue
                found += 1
                e = b.ty(b.ty(to)["e"])
                if e["k"] == "slice":
                    # the children of an inode, walked while the tree is changed
                    for h in reach(P, handed(P, b, b.ty(to)["n"])):
                        for sp, what in slice_writes(h, b.ty(e["e"])["n"]):
                            c.check(False, R, f"{h.def_}:{what}", f"{what} while {b.def_} walks a slice of it whose borrow it has detached", at(h, sp))
                        c.ob(R, f"{h.def_} leaves the walked storage in place")
                else:
                    # the backlog, iterated while its replica is changed
                    own = b.ty(to)["e"]
                    selfty, nx = holders(P, b)
                    hs = [h for h in reach(P, nx) if h.def_ not in {x.def_ for x in nx}]
                    for h in hs:
                        for x in h.b["bbs"]:
                            for p in h.places([x["s"], x["t"]]):
                                for pr, t in h.walk(p):
                                    T = h.ty(t)
                                    if pr[0] == "f" and pr[2] == own and T["k"] == "adt" and T.get("local", True) and T["n"] != h.ty(own)["n"]:
                                        c.check(False, R, f"{h.def_}:{T['n']}", f"{h.def_}, called while {selfty} iterates, reaches {h.ty(own)['n']} through {T['n']}, a second time", at(h, x["t"].get("sp")))
                        c.ob(R, f"{h.def_} does not reach the {h.ty(own)['n']}")
    c.counts["references whose lifetime is extended"] = found


def callers(P, f):
    return [g for g in bodies(P, poly=False) if any(h.name == f.name for t, ft, inst in g.calls() for h in bodies_of(P, ft, inst))]


def handed(P, b, n):
    """b and the functions that it returns the reference to"""
    out, todo = {}, [b]
    while todo:
        f = todo.pop()
        if f.name not in out:
            out[f.name] = f
            if n in P.types[f.b["locals"][0]]["n"]:
                todo += callers(P, f)
    return list(out.values())


def holders(P, b):
    """the iterator that keeps the reference b returns, handed on by b's callers or not"""
    todo, seen = [b], set()
    while todo:
        f = todo.pop(0)
        if f.name in seen:
            continue
        seen.add(f.name)
        selfty = P.types[f.b["locals"][0]]["n"]
        base = re.sub(r"<.*", "", selfty)
        nx = [Body(P, i) for i in P.insts if i["local"] and "body" in i and i.get("trait") and "Iterator" in i["trait"] and base in i.get("self", "") and i.get("item") == "next"]
        if nx:
            return selfty, nx
        todo += callers(P, f)
    raise MissingAnchor("Iterator::next over the reference from " + b.def_)


def reach(P, start):
    """local bodies transitively called, closures included"""
    out, todo = {}, list(start)
    while todo:
        b = todo.pop()
        if b.name in out:
            continue
        out[b.name] = b
        for t, ft, inst in b.calls():
            todo += bodies_of(P, ft, inst)
            for a in t["a"]:
                ty = b.placety(a[1]) if a[0] in ("cp", "mv") else a[1]
                todo += bodies_of(P, b.ty(ty), None)
        for k, s in b.stmts():
            if s["k"] == "=" and s["r"][0] == "agg" and s["r"][1][0] == "closure":
                todo += bodies_of(P, b.ty(s["r"][1][1]), None)
    return [x for x in out.values() if x.i["local"]]


def bodies_of(P, ft, inst):
    out = []
    if inst is None and ft.get("inst") is not None:
        inst = P.insts[ft["inst"]]
    if inst is not None and "body" in inst:
        out.append(Body(P, inst))
    if ft["k"] == "ref":
        out += bodies_of(P, P.types[ft["e"]], None)
    return out


def slice_writes(h, ety):
    """statements that replace, grow or shrink a collection holding `ety`s or
    the nodes they sit in"""
    for x in h.b["bbs"]:
        for s in x["s"]:
            if s["k"] != "=":
                continue
            for pr, t in h.walk(s["p"]):
                T = h.ty(t)
                if pr[0] == "f" and T["k"] == "adt" and T["n"].startswith("gtree::Inode<") and holds(h, pr[2], ety):
                    yield s.get("sp"), f"the children of {T['n']} are written"
        t = x["t"]
        if t["k"] == "call":
            ft = h.ty(t["fty"]) if t.get("fty") is not None else {"n": ""}
            m = re.search(r"Vec::<(.*)>::(push|pop|insert|remove|truncate|clear|swap_remove|reserve|shrink_to_fit|extend\w*|resize\w*|drain|append|retain|split_off|dedup\w*)$", ft.get("n", "")) or re.search(r"Vec<(.*)>::(push|pop|insert|remove|truncate|clear|swap_remove|reserve|shrink_to_fit|extend\w*|resize\w*|drain|append|retain|split_off)\b", ft.get("n", ""))
            if m and "Inode" in m.group(1):
                yield t.get("sp"), f"a vector of {m.group(1)} is resized ({m.group(2)})"


def holds(h, t, ety):
    T = h.ty(t)
    if T["k"] == "array":
        return h.ty(T["e"])["n"].startswith("gtree::NodeIdx") or h.ty(T["e"])["n"] == ety
    return False


# ------------------------------------------------------- shared references
READS = {
    "cola::replica::Replica": ["len", "id", "create_anchor", "resolve_anchor", "encode", "fork", "assert_invariants"],
    "cola::deletion::Deletion": ["deleted_by", "is_no_op"],
    "cola::insertion::Insertion": ["inserted_by", "text", "is_no_op"],
    "cola::text::Text": ["inserted_by", "temporal_range"],
}


def shared_refs(c):
    """nothing can be changed through a shared reference: no type of the crate
    has interior mutability or shares state with another value"""
    R = "shared-references"
    P = c.prog("rel")
    n = 0
    for a in P.adts:
        for f in a["fields"]:
            n += 1
            ok = not CELLS.search(f["t"])
            c.check(ok, R, f"{a['n']}.{f['n']}: {f['t']}", f"field {f['n']} of {a['n']} has type {f['t']}, which can be changed through a shared reference", a["n"])
            if not a["n"].endswith("Error"):
                ok = not SHARED.search(f["t"])
                c.check(ok, R, f"{a['n']}.{f['n']} owns its value", f"field {f['n']} of {a['n']} has type {f['t']}: its value can be shared with, or changed from, somewhere else", a["n"])
    for i, T in enumerate(P.types):
        if T["k"] == "adt" and T.get("local") is False and re.match(r"std::(cell|sync|rc)::", T["n"]) and used_locally(P, i):
            c.check(False, R, f"type {T['n']}", f"the crate uses {T['n']}", T["n"])
    c.floor("fields of the crate's types", n, 60)
    for s in P.statics:
        T = P.types[s["t"]]
        c.check(not s["mut"] and not CELLS.search(T["n"]), R, f"static {s['n']}", f"the static {s['n']} can be changed", s["n"])
    for b in bodies(P):
        c.analysed.add(b.def_)
        for k, s in b.stmts():
            if s["k"] == "=" and s["r"][0] == "tls":
                c.check(False, R, f"{b.def_}:thread-local", "a thread-local is used", at(b, s.get("sp")))
            if s["k"] == "=" and s["r"][0] == "cast":
                kind, op, to = s["r"][1:4]
                frm = b.placety(op[1]) if op[0] in ("cp", "mv") else op[1]
                F, T = b.ty(frm), b.ty(to)
                # & to *const to *mut, or straight into &mut
                bad = (F["k"] == "ref" and not F.get("mut") or F["k"] == "ptr" and not F.get("mut")) and T["k"] in ("ref", "ptr") and T.get("mut")
                c.check(not bad, R, f"{b.def_}:cast {F['n']} to {T['n']}", f"{F['n']} is turned into {T['n']}", at(b, s.get("sp"))) if bad else None
    c.ob(R, "no cast of any body makes a shared reference exclusive")
    seen = 0
    for i in P.insts + P.poly:
        if not i.get("exported") or not i.get("body") or i.get("vis") == "closure":
            continue
        own = re.match(r"(cola::\w+::\w+)(::<.*>)?::(\w+)$", i["def"])
        if own and own.group(1) in READS and own.group(3) in READS[own.group(1)]:
            t = P.types[i["body"]["locals"][1]]
            seen += 1
            ok = t["k"] == "ref" and not t.get("mut") or t["k"] == "adt"
            c.check(ok, R, f"{i['def']} takes a shared reference", f"{i['def']} takes {t['n']}: it can change what it is called on", i["def"])
    c.floor("read-only operations of the interface", seen, 8)


def used_locally(P, ti):
    def mentions(x):
        return False
    for i in P.insts:
        if i["local"] and "body" in i and ti in i["body"]["locals"]:
            return True
    return False


# ------------------------------------------------------------ determinism
OUTSIDE = re.compile(
    r"(^|<|&|\b)(std::time::|std::env::|std::thread::|std::process::|std::fs::|std::net::|std::io::(?!Write|Read\b)|std::os::|std::sync::|std::hash::(random::)?RandomState|std::collections::hash_map::RandomState|std::hash::random|"
    r"std::alloc::|std::backtrace|std::panic::(catch_unwind|Location)|std::any::(TypeId|Any)|rand::|getrandom|std::arch::|core::arch::)")
ADDR = re.compile(r"std::ptr::(addr_eq|eq|fn_addr_eq|hash)|::(expose_provenance|addr|as_ptr|as_mut_ptr|as_ptr_range|from_ref)$|fmt::Pointer|std::mem::(align_of_val)")
ALIASES = re.compile(r"\bRandomState\b")


def inputs_only(c):
    R = "inputs-only"
    P = c.prog("rel")
    calls = 0
    roots = bodies(P)
    # library code the crate instantiates, too
    lib = [Body(P, i) for i in P.insts if not i["local"] and "body" in i]
    for b in roots:
        c.analysed.add(b.def_)
        for t, ft, inst in b.calls():
            calls += 1
            for nm in names(b, ft, inst):
                m = OUTSIDE.search(nm)
                if m:
                    c.check(False, R, f"{b.def_}:{nm[:80]}", f"{b.def_} calls {nm[:160]}, whose result is not determined by the arguments", at(b, t.get("sp")))
                m = ADDR.search(nm)
                if m:
                    c.check(False, R, f"{b.def_}:{nm[:80]}", f"{b.def_} calls {nm[:160]}, which depends on addresses", at(b, t.get("sp")))
        for k, s in b.stmts():
            if s["k"] != "=":
                continue
            r = s["r"]
            if r[0] == "tls":
                c.check(False, R, f"{b.def_}:thread-local", "a thread-local is used", at(b, s.get("sp")))
            if r[0] == "cast":
                frm = b.placety(r[2][1]) if r[2][0] in ("cp", "mv") else r[2][1]
                F, T = b.ty(frm), b.ty(r[3])
                if F["k"] in ("ptr", "ref", "fnptr", "fndef") and T["k"] in ("uint", "int") or r[1].startswith("PointerExpose") or r[1] == "Transmute" and F["k"] in ("ptr", "ref", "fnptr") and T["k"] not in ("ptr", "ref", "fnptr"):
                    c.check(False, R, f"{b.def_}:address as number", f"an address ({F['n']}) is turned into {T['n']}", at(b, s.get("sp")))
            if r[0] == "bin":
                ts = [b.placety(o[1]) if o[0] in ("cp", "mv") else o[1] for o in r[2:4] if o[0] in ("cp", "mv", "c")]
                if any(b.ty(t)["k"] in ("ptr", "fnptr") for t in ts):
                    c.check(False, R, f"{b.def_}:addresses compared", "addresses are compared", at(b, s.get("sp")))
    maps = 0
    for T in P.types:
        if T["k"] == "adt" and re.match(r"std::collections::(HashMap|HashSet|hash_map|hash_set)", T["n"]):
            maps += 1
            c.check(not ALIASES.search(T["n"]), R, f"hasher of {T['n'][:80]}", f"{T['n']} is seeded randomly: its order differs between runs", T["n"])
    for T in P.types:
        if T["k"] == "adt" and re.match(r"std::(time|hash::random|hash::RandomState)", T["n"]):
            c.check(False, R, f"type {T['n']}", f"the crate uses {T['n']}", T["n"])
    # default type parameters: HashMap<K, V> without a hasher is RandomState
    for a in P.adts:
        for f in a["fields"]:
            c.check(not ALIASES.search(f["t"]), R, f"hasher of {a['n']}.{f['n']}", f"{a['n']}.{f['n']} is seeded randomly", a["n"])
    for s in P.statics:
        T = P.types[s["t"]]
        c.check(not s["mut"] and not CELLS.search(T["n"]), R, f"static {s['n']}", f"results can depend on the changeable static {s['n']}", s["n"])
    for a in P.adts:
        for f in a["fields"]:
            if CELLS.search(f["t"]):
                c.check(False, R, f"{a['n']}.{f['n']}", f"results can depend on the hidden state in {a['n']}.{f['n']}: {f['t']}", a["n"])
    c.counts["call sites inspected"] = calls
    c.floor("call sites", calls, 1500)
    c.floor("hash map types", maps, 2)
    c.ob(R, "no call site reaches outside the arguments")


# --------------------------------------------------------- build profiles
def canon(P, x, drop=("sp",)):
    """a body with type and instance ids replaced by names"""
    memo = {}

    def tyn(t):
        return P.types[t]["n"] if t is not None else None

    def place(p):
        return [p[0], [[e[0], e[1], tyn(e[2])] if e[0] == "f" else ["o", tyn(e[1])] if e[0] == "o" else e for e in p[1]]]

    def op(o):
        if o[0] in ("cp", "mv"):
            return [o[0], place(o[1])]
        if o[0] == "c":
            return ["c", tyn(o[1]), const(o[2])]
        return o

    def const(v):
        return json.loads(json.dumps(v), object_hook=lambda d: d)

    def rv(r):
        k = r[0]
        if k == "agg":
            h = list(r[1])
            if h[0] in ("array", "adt", "closure", "rawptr"):
                h[1] = tyn(h[1])
            return ["agg", h, [op(o) for o in r[2]]]
        if k in ("bin", "cbin"):
            return [k, r[1], op(r[2]), op(r[3])]
        if k == "cast":
            return [k, r[1], op(r[2]), tyn(r[3])]
        if k in ("use", ):
            return [k, op(r[1])]
        if k == "un":
            return [k, r[1], op(r[2])]
        if k in ("disc", "len"):
            return [k, place(r[1])]
        if k in ("ref", "reb", "addr"):
            return [k, r[1], place(r[2])]
        if k == "repeat":
            return [k, op(r[1]), r[2]]
        return r

    def st(s):
        if s["k"] == "=":
            return ["=", place(s["p"]), rv(s["r"])]
        if s["k"] == "setd":
            return ["setd", place(s["p"]), s["v"]]
        if s["k"] == "dead":
            return None
        if s["k"] == "assume":
            return ["assume", op(s["o"])]
        return [s["k"]]

    def term(t):
        t = {k: v for k, v in t.items() if k not in drop}
        if t["k"] == "call":
            return ["call", op(t["f"]), tyn(t.get("fty")), [op(a) for a in t["a"]], place(t["d"]), t.get("to"), t.get("u")]
        out = [t["k"]]
        for k in sorted(t):
            if k == "k":
                continue
            v = t[k]
            if k in ("d", "o", "c") and isinstance(v, list) and v and v[0] in ("cp", "mv", "c"):
                v = op(v)
            elif k == "ty":
                v = tyn(v)
            elif k == "p":
                v = place(v)
            out.append([k, v])
        return out
    b = x["body"]
    return {"locals": [tyn(t) for t in b["locals"]], "bbs": [[[y for y in map(st, bb["s"]) if y is not None], term(bb["t"])] for bb in b["bbs"]]}


def strip(v):
    """typed constants refer to types by id: keep only their values"""
    return v


def by_name(P):
    out = {}
    for i in P.insts:
        if i["local"] and "body" in i:
            out.setdefault(i["n"], i)
    return out


def features(c):
    R = "features"
    base = c.prog("rel")
    full = by_name(base)
    fp = {p["n"]: p for p in base.poly if p.get("body")}
    total = 0
    for cfg in ("nofeat", "encode"):
        P = c.prog(cfg)
        n = 0
        pool = list(by_name(P).items()) + [(p["n"], p) for p in P.poly if p.get("body")]
        for name, i in pool:
            j = full.get(name) or fp.get(name)
            if j is None:
                # instantiated only without the feature: its generic original is compared elsewhere
                continue
            n += 1
            a, z = canon(P, i), canon(base, j)
            same = a == z
            c.check(same, R, f"{cfg}:{name[:100]}", lambda: f"{name} is compiled to different code with the crate's features off ({cfg}) and on: {first_diff(a, z)}", at(Body(P, i), None)) if not same else None
        c.ob(R, f"{n} functions are the same in configuration {cfg} and with all features")
        missing = [x for x in by_name(P) if x not in full and "closure" not in x]
        c.check(not missing, R, f"{cfg}: functions exist with all features too", lambda: f"{missing[0]} exists only with features off", missing[0] if missing else "")
        c.floor(f"functions compared ({cfg})", n, 150)
        # types have the same fields
        fa = {a["n"]: [(f["v"], f["n"], f["t"]) for f in a["fields"]] for a in base.adts}
        for a in P.adts:
            fs = [(f["v"], f["n"], f["t"]) for f in a["fields"]]
            ok = fa.get(a["n"]) == fs
            c.check(ok, R, f"{cfg}: fields of {a['n']}", f"{a['n']} has other fields with all features than in configuration {cfg}", a["n"])


def first_diff(a, z):
    if len(a["bbs"]) != len(z["bbs"]):
        return f"{len(a['bbs'])} and {len(z['bbs'])} blocks"
    for k, (x, y) in enumerate(zip(a["bbs"], z["bbs"])):
        if x != y:
            for s, t in zip(x[0], y[0]):
                if s != t:
                    return f"{json.dumps(s)[:160]} / {json.dumps(t)[:160]}"
            return f"{json.dumps(x[1])[:200]} / {json.dumps(y[1])[:200]}"
    return "different locals"


def profiles(c):
    R = "profiles"
    A, B = c.prog("ovf"), c.prog("dbg")
    fa, fb = by_name(A), by_name(B)
    fa.update({"poly:" + p["n"]: p for p in A.poly if p.get("body")})
    fb.update({"poly:" + p["n"]: p for p in B.poly if p.get("body")})
    only = [n for n in set(fa) ^ set(fb) if "closure" not in n]
    c.check(not only, R, "the same functions", lambda: f"{sorted(only)[0]} exists in only one build profile", sorted(only)[0] if only else "")
    regions = n = 0
    for name in sorted(set(fa) & set(fb)):
        a, z = canon(A, fa[name]), canon(B, fb[name])
        n += 1
        body = Body(B, fb[name])
        c.analysed.add(body.def_)
        if len(a["bbs"]) != len(z["bbs"]) or a["locals"] != z["locals"]:
            c.check(False, R, name[:120], f"{name} is compiled to different code with and without debug assertions: {first_diff(a, z)}", at(body, None))
            continue
        for k, (x, y) in enumerate(zip(a["bbs"], z["bbs"])):
            if x == y:
                continue
            r = debug_branch(x, y)
            if r is None:
                c.check(False, R, f"{name[:100]}:bb", f"{name} depends on the build profile other than to check an assertion: {first_diff({'bbs': [x], 'locals': 0}, {'bbs': [y], 'locals': 0})}", at(body, fb[name]["body"]["bbs"][k]["t"].get("sp")))
                continue
            on, off = r
            regions += 1
            why = impure(body, on, off)
            c.check(why is None, R, f"{name[:100]}: assertion {regions}", lambda: f"a debug assertion in {name} does more than look: {why[0]}", at(body, why[1] if why else None))
    c.floor("functions compared (profiles)", n, 300)
    c.floor("debug assertions", regions, 20)


def debug_branch(x, y):
    """the two blocks differ only in the constant their switch tests: (block
    when it is on, block when it is off)"""
    if len(x[0]) != len(y[0]):
        return None
    d = [(s, t) for s, t in zip(x[0], y[0]) if s != t]
    if len(d) != 1 or x[1] != y[1] or x[1][0] != "switch":
        return None
    s, t = d[0]
    if s[0] != "=" or s[1] != t[1] or s[1][1] or s[2][0] != "use" or s[2][1][:2] != ["c", "bool"] or t[2][0] != "use" or t[2][1][:2] != ["c", "bool"]:
        return None
    if s[2][1][2] != {"i": 0} or t[2][1][2] != {"i": 1}:
        return None
    sw = dict(x[1][1:])
    if sw["d"][0] not in ("cp", "mv") or sw["d"][1] != s[1]:
        return None
    br = dict((v, to) for v, to in sw["br"])
    if 0 not in br:
        return None
    return sw["else"], br[0]


def succ(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "switch":
        return [x for _, x in t["br"]] + [t["else"]]
    if k == "call":
        return [t["to"]] if t.get("to") is not None else []
    return []


def impure(b, on, off):
    bbs = b.b["bbs"]

    def closure(s, without=None):
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x in seen or x is None or x == without:
                continue
            seen.add(x)
            todo += succ(bbs[x]["t"])
        return seen
    # the blocks that only run when the switch is on
    region = closure(on) - closure(0, without=on)
    exits = {x for k in region for x in succ(bbs[k]["t"]) if x not in region}
    if on not in region:
        exits, region = {on}, set()
    # the other branch does nothing before they meet again
    x, trail = off, []
    while x not in exits and x not in trail:
        trail.append(x)
        for s in bbs[x]["s"]:
            if s["k"] != "dead" and not (s["k"] == "=" and s["r"][0] == "use" and s["r"][1][0] == "c" and b.ty(b.b["locals"][s["p"][0]])["n"] in ("()", "bool")):
                break
        else:
            if bbs[x]["t"]["k"] == "goto":
                x = bbs[x]["t"]["to"]
    if not exits <= {x}:
        return "with assertions on, the code goes another way", bbs[on]["t"].get("sp")
    outside = set(range(len(bbs))) - region
    written = set()
    for k in region:
        for s in bbs[k]["s"]:
            if s["k"] == "=":
                written.add(s["p"][0])
        if bbs[k]["t"]["k"] == "call":
            written.add(bbs[k]["t"]["d"][0])
    nargs = b.b["nargs"]
    ext = set()      # locals that hold something outside the assertion
    for k in outside:
        x = bbs[k]
        for s in x["s"]:
            if s["k"] == "dead":
                continue
            for p in b.places([{kk: v for kk, v in s.items() if kk != "sp"}]):
                ext.add(p[0])
                ext |= {e[1] for e in p[1] if e[0] == "i"}
        for p in b.places([{kk: v for kk, v in x["t"].items() if kk not in ("sp", "k")}]):
            ext.add(p[0])
    ext |= set(range(1, nargs + 1)) | {0}
    for k in sorted(region):
        x = bbs[k]
        for s in x["s"]:
            if s["k"] == "=":
                t = b.ty(b.b["locals"][s["p"][0]])
                if s["p"][0] in ext and t["n"] not in ("()", "bool"):
                    return f"it assigns to a variable used outside it (type {t['n']})", s.get("sp")
                if s["p"][0] in ext and t["n"] == "bool" and s["r"] and not (s["r"][0] == "use" and s["r"][1][0] == "c"):
                    return "it assigns to a flag used outside it", s.get("sp")
                if any(pr[0] == "*" for pr in s["p"][1]):
                    return "it writes through a reference", s.get("sp")
                if s["r"][0] in ("ref", "reb") and s["r"][1]:
                    p = s["r"][2]
                    if p[0] in ext or any(pr[0] == "*" for pr in p[1]):
                        return "it borrows something mutably", s.get("sp")
                if s["r"][0] == "addr" and s["r"][1]:
                    pass
                for o in ops(s["r"]):
                    if o[0] in ("mv", "cp") and o[1][0] in ext and b.ty(b.placety(o[1]))["k"] == "ref" and b.ty(b.placety(o[1])).get("mut"):
                        return "it uses an exclusive reference", s.get("sp")
            if s["k"] == "setd":
                return "it changes a value's variant", s.get("sp")
        t = x["t"]
        if t["k"] == "call":
            for a in t["a"]:
                if a[0] in ("cp", "mv"):
                    T = b.ty(b.placety(a[1]))
                    if a[0] == "mv" and a[1][0] in ext and T["k"] not in ("ref", "uint", "int", "bool"):
                        return f"it consumes a value of type {T['n']}", t.get("sp")
                    if T["k"] == "ref" and T.get("mut") and a[1][0] in ext:
                        return "it passes an exclusive reference on", t.get("sp")
    return None


def ops(r):
    k = r[0]
    if k == "agg":
        return r[2]
    if k in ("bin", "cbin"):
        return r[2:4]
    if k in ("cast", "un"):
        return [r[2]]
    if k in ("use", "repeat"):
        return [r[1]]
    return []

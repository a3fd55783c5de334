"""Guarded value-flow analysis over MIR.

A forward dataflow analysis in gated form.  One pass over each body in
topological order; states are merged at control-flow joins (no enumeration of
paths, no solver): a merged location holds the finite set of terms that reach
it, each under the guard (a BDD over branch conditions) under which it does.
Loops are cut at their header, where every location the body modifies becomes a
phi term.  Calls are looked through unless the callee is on the rule's frontier
(then it is an event, and its results are uninterpreted terms of its
arguments) or has no MIR (library code: modelled by name, or uninterpreted).
"""
import json
import re
from bdd import BDD


class Imprecise(Exception):
    pass


# ----------------------------------------------------------------- terms
class Node:
    __slots__ = ("k", "a", "id", "hk")

    def __repr__(self):
        return pp(self)


_tab = {}


def N(k, *a):
    key = (k,) + tuple(x if not isinstance(x, Node) else ("#", x.id) for x in a)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.k = k
        n.a = a
        n.id = len(_tab)
        _tab[key] = n
    return n


def _key_tuple(t):
    out = []
    for x in t:
        if isinstance(x, Node):
            out.append(("#", x.id))
        elif isinstance(x, tuple):
            out.append(_key_tuple(x))
        else:
            out.append(x)
    return tuple(out)


def NT(k, *a):
    """Like N but args may be nested tuples containing nodes."""
    key = (k, "T") + _key_tuple(a)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.k = k
        n.a = a
        n.id = len(_tab)
        _tab[key] = n
    return n


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.insts = d["insts"]
        self.poly = d["poly"]
        self.statics = d["statics"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.by_def = {}
        self.by_name = {}
        for i in self.insts:
            self.by_def.setdefault(i["def"], []).append(i)
            self.by_name.setdefault(i["n"], []).append(i)
        self.ty_by_name = {}
        for i, t in enumerate(self.types):
            self.ty_by_name.setdefault(t["n"], i)

    def find(self, pat, local=True):
        """Instances whose def path matches regex `pat` (fullmatch)."""
        r = re.compile(pat)
        return [i for i in self.insts if (not local or i["local"]) and r.fullmatch(i["def"])]

    def one(self, pat):
        l = self.find(pat)
        if not l:
            raise MissingAnchor(pat)
        return l[0]

    def tyname(self, t):
        return self.types[t]["n"]

    def is_uint(self, t):
        return t is not None and self.types[t]["k"] == "uint"

    def field_names(self, t, variant=0):
        ty = self.types[t]
        if ty["k"] == "adt":
            return [f["n"] for f in ty["vs"][variant]["f"]]
        if ty["k"] == "tuple":
            return [str(i) for i in range(len(ty["es"]))]
        return []

    def field_ty(self, t, variant, idx):
        ty = self.types[t]
        k = ty["k"]
        if k == "adt":
            return ty["vs"][variant]["f"][idx]["t"]
        if k == "tuple":
            return ty["es"][idx]
        if k == "closure":
            return ty["up"][idx]
        return None


class MissingAnchor(Exception):
    pass


def fname(inst_or_ty):
    return inst_or_ty["def"]


# ------------------------------------------------------------ pretty print
def pp(n, d=0):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ",".join(pp(x, d + 1) for x in n) + ")"
        return str(n)
    if d > 14:
        return "..."
    k, a = n.k, n.a
    if k == "I":
        return str(a[0])
    if k == "S":
        return a[0]
    if k == "P":
        return f"{pp(a[0], d+1)}.{fieldname(a[3], a[1], a[2])}"
    if k == "X":
        return f"{short(a[0])}({', '.join(pp(x, d+1) for x in a[2:])})"
    if k == "L":
        s = []
        for t, c in a[1]:
            s.append((f"{c}*" if c not in (1, -1) else ("-" if c == -1 else "")) + pp(t, d + 1))
        if a[0]:
            s.append(str(a[0]))
        return "(" + " + ".join(s).replace("+ -", "- ") + ")"
    if k == "R":
        return "&" + pproot(a[0]) + "".join(ppstep(s) for s in a[1])
    if k == "FN":
        return "fn:" + str(a[0])
    if k == "B":
        return "bool:" + CUR.ppg(a[0])
    if k == "G":
        if len(a[0]) == 1:
            return pp(a[0][0][0], d + 1)
        return "{" + "; ".join(f"{pp(t, d+1)} if {CUR.ppg(g)}" for t, g in a[0]) + "}"
    if k == "A":
        vs = a[1]
        out = []
        for v, g, fs in vs:
            nm = variantname(a[0], v)
            s = nm + "(" + ", ".join(pp(f, d + 1) for f in fs) + ")"
            if len(vs) > 1:
                s += " if " + CUR.ppg(g)
            out.append(s)
        return out[0] if len(out) == 1 else "{" + "; ".join(out) + "}"
    if k == "U":
        return "⊥"
    return f"{k}{a}"


CUR = None


def short(s):
    s = re.sub(r"<[^<>]*>", "", s)
    s = re.sub(r"<[^<>]*>", "", s)
    return "::".join(s.split("::")[-2:])


def fieldname(ty, v, i):
    try:
        f = CUR.prog.types[ty]
        if f["k"] == "adt":
            n = f["vs"][v]["f"][i]["n"]
            if f["ak"] == "enum":
                return f["vs"][v]["n"] + "." + n
            return n
    except Exception:
        pass
    return str(i)


def variantname(ty, v):
    try:
        t = CUR.prog.types[ty]
        if t["k"] == "adt":
            if t["ak"] == "enum":
                return t["vs"][v]["n"]
            return t["n"].split("::")[-1]
        if t["k"] == "tuple":
            return ""
        return t["k"]
    except Exception:
        return str(v)


def pproot(r):
    if isinstance(r, tuple):
        if r[0] == "arg":
            return f"arg{r[1]}"
        if r[0] == "deref":
            return "*" + pp(r[1])
        return "local" + ":".join(str(x) for x in r[1:])
    return str(r)


def ppstep(s):
    if s[0] == "f":
        return "." + str(s[2])
    return f"[{pp(s[1]) if len(s) > 1 else s}]"


UNDEF = N("U")


class St:
    __slots__ = ("g", "m")

    def __init__(self, g, m):
        self.g = g
        self.m = m


class Event:
    __slots__ = ("kind", "inst", "args", "raw", "g", "loop", "span", "ret", "fn", "seq", "extra", "post", "stack")

    def __init__(self, **kw):
        self.extra = None
        self.post = {}
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def callee(self):
        return self.inst["def"] if self.inst else self.kind


class Result:
    pass


class Engine:
    def __init__(self, prog, opaque=None, maxdepth=40, models=None, maxwork=400000, inline_pred=None):
        global CUR
        CUR = self
        self.prog = prog
        self.b = BDD()
        self.atoms = []
        self.atom_id = {}
        self.opaque = opaque or (lambda i: False)
        self.inline_pred = inline_pred
        self.maxdepth = maxdepth
        self.events = []
        self.panics = []
        self.assume = 1
        self.loops = []
        self._thc = {}
        self._satc = {}
        self.loopstack = []
        self.iterloops = {}
        self.backward = set()
        self.stack = []
        self.symty = {}
        self.work = 0
        self.maxwork = maxwork
        self.nframe = 0
        self.cfgcache = {}
        self.usedmodels = set()
        self.externs = {}
        self.analysed = set()
        self.userm = models or {}
        self.pure_seq = {}
        self.root_ty = {}
        self.quiet = 0
        self.consts = {}

    # ------------------------------------------------------------ atoms
    def atom(self, *key):
        k = _key_tuple(key)
        v = self.atom_id.get(k)
        if v is None:
            v = len(self.atoms)
            self.atoms.append(key)
            self.atom_id[k] = v
        return self.b.mkvar(v)

    def atomterms(self):
        """[(term, guard)] of the boolean atoms"""
        return [(a[1], self.b.mkvar(i)) for i, a in enumerate(self.atoms) if a[0] == "bool"]

    def ppatom(self, i, pos=True):
        a = self.atoms[i]
        if a[0] == "thr":
            e, c = a[1], a[2]
            s = f"{pp(e)} < {c}" if pos else f"{pp(e)} >= {c}"
        elif a[0] == "isv":
            s = f"{pp(a[1])} is {variantname(a[3], a[2])}"
            s = s if pos else f"!({s})"
        else:
            s = pp(a[1])
            s = s if pos else f"!{s}"
        return s

    def ppg(self, g, lim=3):
        """Guard as a short disjunction of cubes."""
        if g == 1:
            return "always"
        if g == 0:
            return "never"
        cubes = []
        st = [(g, [])]
        while st and len(cubes) <= lim:
            n, c = st.pop()
            if n == 0:
                continue
            if n == 1:
                cubes.append(" & ".join(c))
                continue
            v = self.b.var[n]
            st.append((self.b.lo[n], c + [self.ppatom(v, False)]))
            st.append((self.b.hi[n], c + [self.ppatom(v, True)]))
        s = " | ".join("(" + c + ")" for c in cubes[:lim])
        if len(cubes) > lim:
            s += " | ..."
        return s

    # ------------------------------------------------------- linear forms
    def lin(self, t):
        if t.k == "I":
            return t.a[0], {}
        if t.k == "L":
            return t.a[0], {x: c for x, c in t.a[1]}
        return 0, {t: 1}

    def mklin(self, c, d):
        it = sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id)
        if not it:
            return N("I", c)
        if c == 0 and len(it) == 1 and it[0][1] == 1:
            return it[0][0]
        return NT("L", c, tuple(it))

    def tadd(self, a, b, s=1):
        ca, da = self.lin(a)
        cb, db = self.lin(b)
        d = dict(da)
        for t, k in db.items():
            d[t] = d.get(t, 0) + s * k
        return self.mklin(ca + s * cb, d)

    def tscale(self, a, k):
        c, d = self.lin(a)
        return self.mklin(c * k, {t: x * k for t, x in d.items()})

    def nonneg(self, t):
        """Is the term of an unsigned type (hence >= 0)?"""
        if t.k == "S":
            return self.prog.is_uint(t.a[1])
        if t.k == "P":
            return self.prog.is_uint(self.prog.field_ty(t.a[3], t.a[1], t.a[2]))
        if t.k == "X":
            return self.prog.is_uint(t.a[1]) or t.a[0] in ("len",)
        return False

    def lt0(self, t):
        """Guard for t < 0."""
        c, d = self.lin(t)
        if not d:
            return 1 if c < 0 else 0
        it = sorted(d.items(), key=lambda x: x[0].id)
        from math import gcd
        g = 0
        for _, k in it:
            g = gcd(g, abs(k))
        neg = it[0][1] < 0
        # sum k*t + c < 0
        if not neg:
            # e*g + c < 0  <=> e < -c/g <=> e < ceil(-c/g)
            e = self.mklin(0, {x: k // g for x, k in it})
            thr = -((c) // g)  # ceil(-c/g)
            return self.thr(e, thr)
        # -E*g + c < 0 <=> E*g > c <=> E > c/g <=> E >= floor(c/g)+1 <=> !(E < floor(c/g)+1)
        e = self.mklin(0, {x: -k // g for x, k in it})
        return self.b.NOT(self.thr(e, c // g + 1))

    def below(self, v):
        """Guard: a number that was counted down wraps below zero."""
        r = 0
        for t, g in self.galts(v):
            c, d = self.lin(t)
            if c < 0 or any(k < 0 for k in d.values()):
                r = self.b.OR(r, self.b.AND(g, self.lt0(t)))
        return r

    def thr(self, e, c):
        cc, d = self.lin(e)
        assert cc == 0
        if all(self.nonneg(t) for t in d):
            if c <= sum(k * self.maxval(t) for t, k in d.items() if k < 0):
                return 0
            if c > sum(k * self.maxval(t) for t, k in d.items() if k > 0):
                return 1
        return self.atom("thr", e, c)

    def maxval(self, t):
        ty = None
        if t.k == "S" or t.k == "X":
            ty = t.a[1]
        elif t.k == "P":
            ty = self.prog.field_ty(t.a[3], t.a[1], t.a[2])
        if isinstance(ty, int):
            tt = self.prog.types[ty]
            if tt["k"] == "uint":
                return (1 << tt["bits"]) - 1
        return 1 << 200

    def teq(self, a, b):
        """Guard for equality of two terms."""
        if a is b:
            return 1
        if a.k == "R" or b.k == "R":
            if a.k == b.k == "R":
                if a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
                    r = 1
                    for s, t in zip(a.a[1], b.a[1]):
                        if s == t:
                            continue
                        if s[0] == t[0] and s[0] in ("i", "k"):
                            r = self.b.AND(r, self.veq(s[1], t[1]))
                        else:
                            return 0
                    return r
                return 0
        if self.isint(a) and self.isint(b):
            d = self.tadd(a, b, -1)
            return self.b.AND(self.b.NOT(self.lt0(d)), self.lt0(self.tadd(d, N("I", -1))))
        if a.k == "X" and b.k == "X" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            r = 1
            for x, y in zip(a.a[2:], b.a[2:]):
                r = self.b.AND(r, self.aeq(x, y))
                if r == 0:
                    break
            return r
        if a.k == "P" and b.k == "P" and a.a[1:] == b.a[1:]:
            return self.teq(a.a[0], b.a[0])
        return 0

    def aeq(self, x, y):
        if x is y or x == y:
            return 1
        if isinstance(x, Node) and isinstance(y, Node):
            if x.k in "BGAU" and y.k in "BGAU":
                return self.veq(x, y)
            if x.k in "BGAU" or y.k in "BGAU":
                return 0
            return self.teq(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            r = 1
            for p, q in zip(x, y):
                r = self.b.AND(r, self.aeq(p, q))
            return r
        return 0

    def isint(self, t):
        if t.k in ("I", "L"):
            return True
        ty = self.tty(t)
        return isinstance(ty, int) and self.prog.types[ty]["k"] in ("int", "uint", "char")

    def tty(self, t):
        if t.k in ("S", "X"):
            return t.a[1]
        if t.k == "P":
            return self.prog.field_ty(t.a[3], t.a[1], t.a[2])
        return None

    # ------------------------------------------------------------- values
    def B(self, g):
        return N("B", g)

    def G1(self, t):
        return NT("G", ((t, 1),))

    def I(self, n):
        return self.G1(N("I", n))

    def mkG(self, alts):
        d = {}
        for t, g in alts:
            if g:
                d[t] = self.b.OR(d.get(t, 0), g)
        if not d:
            return UNDEF
        if len(d) == 1:
            return self.G1(next(iter(d)))
        return NT("G", tuple(sorted(d.items(), key=lambda x: x[0].id)))

    def mkA(self, ty, variants):
        """variants: list of (idx, guard, fields)"""
        vs = [v for v in variants if v[1]]
        if not vs:
            return UNDEF
        if len(vs) == 1:
            v, g, fs = vs[0]
            vs = [(v, 1, tuple(fs))]
            # collapse a full set of projections of one term
            if fs and all(f.k in ("G", "B") for f in fs):
                base = None
                ok = True
                for i, f in enumerate(fs):
                    t = None
                    if f.k == "G" and len(f.a[0]) == 1:
                        t = f.a[0][0][0]
                    elif f.k == "B" and f.a[0] > 1 and self.b.lo[f.a[0]] == 0 and self.b.hi[f.a[0]] == 1:
                        at = self.atoms[self.b.var[f.a[0]]]
                        if at[0] == "bool":
                            t = at[1]
                    if t is None or t.k != "P" or t.a[1] != v or t.a[2] != i or t.a[3] != ty:
                        ok = False
                        break
                    if base is None:
                        base = t.a[0]
                    elif base is not t.a[0]:
                        ok = False
                        break
                tt = self.prog.types[ty] if isinstance(ty, int) else None
                if ok and tt and (tt["k"] == "tuple" or tt["k"] == "adt" and tt["ak"] == "struct"):
                    return self.G1(base)
        return NT("A", ty, tuple((v, g, tuple(fs)) for v, g, fs in vs))

    def tup(self, ty, fs):
        return self.mkA(ty, [(0, 1, fs)])

    def symval(self, term, ty):
        t = self.prog.types[ty] if ty is not None else None
        if t is not None:
            if t["k"] == "bool":
                if term.k == "X":
                    r = self.boolterm(term)
                    if r is not None:
                        return self.B(r)
                return self.B(self.atom("bool", term))
            if t["k"] == "tuple" and not t["es"]:
                return NT("A", ty, ((0, 1, ()),))
            if t["k"] == "adt" and t["ak"] == "struct" and not t["vs"][0]["f"]:
                return NT("A", ty, ((0, 1, ()),))
            if t["k"] == "fndef":
                return self.G1(N("FN", ty))
        return self.G1(term)

    def boolterm(self, term):
        return None

    def is_variant(self, t, k, ty):
        """Guard: term t of enum type ty is variant index k."""
        vs = self.prog.types[ty]["vs"]
        n = len(vs)
        if n == 1:
            return 1
        r = 1
        for j in range(k):
            r = self.b.AND(r, self.b.NOT(self.atom("isv", t, j, ty)))
        if k < n - 1:
            r = self.b.AND(r, self.atom("isv", t, k, ty))
        return r

    def expand(self, v, ty):
        """G of an ADT/tuple type -> A."""
        if v.k != "G":
            return v
        t = self.prog.types[ty]
        out = []
        for term, g in v.a[0]:
            if t["k"] == "adt":
                for k, vv in enumerate(t["vs"]):
                    gg = 1 if t["ak"] != "enum" else self.is_variant(term, k, ty)
                    fs = tuple(self.symval(NT("P", term, k, i, ty), f["t"]) for i, f in enumerate(vv["f"]))
                    out.append((k, self.b.AND(g, gg) if len(v.a[0]) > 1 else gg, fs))
            elif t["k"] == "tuple":
                fs = tuple(self.symval(NT("P", term, 0, i, ty), e) for i, e in enumerate(t["es"]))
                out.append((0, g, fs))
            elif t["k"] == "closure":
                fs = tuple(self.symval(NT("P", term, 0, i, ty), e) for i, e in enumerate(t["up"]))
                out.append((0, g, fs))
            else:
                return v
        return self.joinA(ty, out)

    def joinA(self, ty, parts):
        """Merge (variant, guard, fields) parts with disjoint guards into an A
        without collapsing."""
        d = {}
        for v, g, fs in parts:
            if not g:
                continue
            if v in d:
                og, ofs = d[v]
                n = tuple(self.mux(g, x, y) for x, y in zip(fs, ofs)) if fs != ofs else fs
                d[v] = (self.b.OR(og, g), n)
            else:
                d[v] = (g, tuple(fs))
        if not d:
            return UNDEF
        if len(d) == 1:
            (v, (g, fs)), = d.items()
            return NT("A", ty, ((v, 1, fs),))
        return NT("A", ty, tuple((v, g, fs) for v, (g, fs) in sorted(d.items())))

    def mux(self, g, a, b):
        """value a under guard g, else b"""
        if a is b or g == 1:
            return a
        if g == 0:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a.k == "B" and b.k == "B":
            return self.B(self.b.ite(g, a.a[0], b.a[0]))
        if a.k == "G" and b.k == "G":
            ng = self.b.NOT(g)
            return self.mkG([(t, self.b.AND(x, g)) for t, x in a.a[0]] + [(t, self.b.AND(x, ng)) for t, x in b.a[0]])
        if a.k == "A" or b.k == "A":
            ty = a.a[0] if a.k == "A" else b.a[0]
            if isinstance(ty, int):
                a = self.expand(a, ty)
                b = self.expand(b, ty)
            if a.k == "A" and b.k == "A":
                ng = self.b.NOT(g)
                ps = [(v, self.b.AND(x, g), fs) for v, x, fs in a.a[1]]
                # entries: for a single-variant A guard is 1
                d = {v: (x, fs) for v, x, fs in ps}
                for v, x, fs in b.a[1]:
                    x = self.b.AND(x, ng)
                    if v in d:
                        og, ofs = d[v]
                        if len(ofs) != len(fs):
                            raise Imprecise("mux shape")
                        d[v] = (self.b.OR(og, x), tuple(self.mux(g, p, q) for p, q in zip(ofs, fs)))
                    else:
                        d[v] = (x, fs)
                return self.mkA(ty, [(v, x, fs) for v, (x, fs) in sorted(d.items())])
            if isinstance(ty, int) and self.prog.types[ty]["k"] == "array":
                return self.mux(g, self.arrlit(a), self.arrlit(b))
        raise Imprecise(f"mux of {a.k} and {b.k}: {pp(a)[:200]} / {pp(b)[:200]}")

    def arrlit(self, v):
        """an array given by its elements, as a term"""
        if v.k != "A":
            return v
        return self.G1(NT("X", "elements", v.a[0], *v.a[1][0][2]))

    def vneq(self, a, b):
        """Guard under which two values differ (syntactically distinct
        uninterpreted terms count as different)."""
        return self.b.NOT(self.veq(a, b))

    def veq(self, a, b):
        if a is b:
            return 1
        if a is UNDEF or b is UNDEF:
            return 0
        if a.k == "B" and b.k == "B":
            return self.b.NOT(self.b.XOR(a.a[0], b.a[0]))
        if a.k == "A" or b.k == "A":
            ty = a.a[0] if a.k == "A" else b.a[0]
            if isinstance(ty, int):
                a = self.expand(a, ty)
                b = self.expand(b, ty)
            if a.k == "A" and b.k == "A":
                r = 0
                da = {v: (g, fs) for v, g, fs in a.a[1]}
                db = {v: (g, fs) for v, g, fs in b.a[1]}
                for v, (g, fs) in da.items():
                    if v in db:
                        h, gs = db[v]
                        e = self.b.AND(g, h)
                        if len(fs) != len(gs):
                            continue
                        for p, q in zip(fs, gs):
                            if e == 0:
                                break
                            e = self.b.AND(e, self.veq(p, q))
                        r = self.b.OR(r, e)
                return r
            return 0
        if a.k == "G" and b.k == "G":
            r = 0
            for t, g in a.a[0]:
                for u, h in b.a[0]:
                    gh = self.b.AND(g, h)
                    if gh:
                        r = self.b.OR(r, self.b.AND(gh, self.teq(t, u)))
            return r
        return 0

    # arithmetic on values ------------------------------------------------
    def map2(self, f, a, b):
        out = []
        for t, g in self.galts(a):
            for u, h in self.galts(b):
                gh = self.b.AND(g, h)
                if gh:
                    out.append((f(t, u), gh))
        return self.mkG(out)

    def galts(self, v):
        if v.k == "G":
            return v.a[0]
        if v.k == "B":
            return ((N("I", 1), v.a[0]), (N("I", 0), self.b.NOT(v.a[0])))
        if v is UNDEF:
            return ((N("S", "undef", None), 1),)
        raise Imprecise("scalar expected: " + pp(v)[:100])

    def add(self, a, b):
        return self.map2(lambda x, y: self.tadd(x, y), a, b)

    def sub(self, a, b):
        return self.map2(lambda x, y: self.tadd(x, y, -1), a, b)

    def lt(self, a, b):
        """Guard a < b for int values."""
        r = 0
        for t, g in self.galts(a):
            for u, h in self.galts(b):
                gh = self.b.AND(g, h)
                if gh:
                    r = self.b.OR(r, self.b.AND(gh, self.lt0(self.tadd(t, u, -1))))
        return r

    def eq(self, a, b):
        if a.k == "B" or b.k == "B":
            if a.k == "B" and b.k == "B":
                return self.b.NOT(self.b.XOR(a.a[0], b.a[0]))
        return self.veq(a, b) if not (a.k == "B" or b.k == "B") else self.veq(self.mkG(self.galts(a)), self.mkG(self.galts(b)))

    def app(self, name, ty, *args):
        return self.symval(NT("X", name, ty, *args), ty)

    # ----------------------------------------------------------- get / put
    def is_union(self, ty):
        t = self.prog.types[ty]
        return t["k"] == "adt" and t["ak"] == "union" and bool(t.get("local"))

    def getf(self, v, ty, variant, idx):
        """field (variant, idx) of value v : ty"""
        fty = self.prog.field_ty(ty, variant, idx)
        if v is UNDEF:
            return UNDEF
        if v.k == "A" and v.a[0] != ty and self.is_union(v.a[0]):
            # a union read as one of its fields' types
            u = [x for _, _, fs in v.a[1] for x in fs if x is not UNDEF]
            if len(u) == 1:
                return self.getf(u[0], ty, variant, idx)
        if v.k == "A":
            for vv, g, fs in v.a[1]:
                if vv == variant:
                    if idx < len(fs):
                        return fs[idx]
                    return UNDEF
            return UNDEF
        if v.k == "G":
            if self.is_union(ty):
                return v if len(v.a[0]) > 1 else self.symval(v.a[0][0][0], fty)
            out = None
            for t, g in v.a[0]:
                x = self.symval(NT("P", t, variant, idx, ty), fty)
                out = x if out is None else self.mux(g, x, out)
            return out
        raise Imprecise("field of " + v.k)

    def putf(self, v, ty, variant, idx, nv):
        if v.k == "G":
            v = self.expand(v, ty)
        if v is UNDEF or v.k != "A":
            t = self.prog.types[ty]
            if t["k"] == "adt":
                n = len(t["vs"][variant]["f"])
            elif t["k"] == "tuple":
                n = len(t["es"])
            elif t["k"] == "closure":
                n = len(t["up"])
            else:
                raise Imprecise("putf " + t["k"])
            fs = [UNDEF] * n
            fs[idx] = nv
            return self.mkA(ty, [(variant, 1, tuple(fs))])
        out = []
        hit = False
        for vv, g, fs in v.a[1]:
            if vv == variant:
                fs = list(fs)
                while len(fs) <= idx:
                    fs.append(UNDEF)
                fs[idx] = nv
                hit = True
            out.append((vv, g, tuple(fs)))
        if not hit:
            return v
        return self.mkA(ty, out)

    def elty(self, ty):
        t = self.prog.types[ty]
        if t["k"] in ("array", "slice"):
            return t["e"]
        if t["k"] == "adt" and t["args"] and isinstance(t["args"][0], int):
            if t["def"].endswith("HashMap"):
                return t["args"][1]
            return t["args"][0]
        return None

    def geti(self, v, ty, idx, key=False):
        ety = self.elty(ty)
        if v.k == "A" and self.prog.types[ty]["k"] == "array":
            al = self.galts(idx)
            if len(al) == 1 and al[0][0].k == "I":
                fs = v.a[1][0][2]
                i = al[0][0].a[0]
                return fs[i] if 0 <= i < len(fs) else UNDEF
            return self.app("at", ety, v, idx)
        if v.k == "G":
            out = None
            for t, g in v.a[0]:
                x = self.at(t, ety, idx, key)
                out = x if out is None else self.mux(g, x, out)
            return out
        return self.app("at", ety, v, idx)

    def at(self, t, ety, idx, key):
        if t.k == "X" and t.a[0] == "elements":
            fs = t.a[2:]
            al = self.galts(idx)
            if len(al) == 1 and al[0][0].k == "I":
                i = al[0][0].a[0]
                return fs[i] if 0 <= i < len(fs) else UNDEF
            out = UNDEF
            for i, x in enumerate(fs):
                if x is not UNDEF:
                    out = self.mux(self.veq(idx, self.I(i)), x, out) if out is not UNDEF else x
            return out
        if t.k == "X" and t.a[0] == "put":
            base, i2, val = t.a[2], t.a[3], t.a[4]
            e = self.veq(idx, i2)
            if e == 1:
                return val
            rest = self.geti(base, self.symty_of(t), idx, key) if e != 1 else UNDEF
            return self.mux(e, val, rest)
        if t.k == "X" and t.a[0] == "filled":
            return t.a[3]
        if t.k == "X" and t.a[0] == "splice":
            base, lo, hi, new = t.a[2:]
            inn = self.b.AND(self.b.NOT(self.lt(idx, lo)), self.lt(idx, hi))
            sty = self.symty_of(t)
            return self.mux(inn, self.geti(new, self.slicety(sty), self.sub(idx, lo)), self.geti(base, sty, idx))
        if t.k == "X" and t.a[0] == "rotr":
            # rotated right by n places
            base, n, ln = t.a[2:]
            sty = self.symty_of(t)
            return self.mux(self.lt(idx, n), self.geti(base, sty, self.add(self.sub(ln, n), idx)), self.geti(base, sty, self.sub(idx, n)))
        if t.k == "X" and t.a[0] == "push" and not key and len(t.a) == 4:
            base, sty = t.a[2], self.symty_of(t)
            return self.mux(self.veq(idx, self.lenof(base, None)), t.a[3], self.geti(base, sty, idx))
        if t.k == "X" and t.a[0] == "havocfield":
            # every element with one field changed to something unknown
            base, f, tag = t.a[2:]
            x = self.geti(base, self.symty_of(t), idx, key)
            return self.putf(x, ety, 0, f, self.app("changed", self.prog.field_ty(ety, 0, f), tag, idx))
        if t.k == "X" and t.a[0] == "insertat":
            base, i, x = t.a[2:]
            sty = self.symty_of(t)
            return self.mux(self.lt(idx, i), self.geti(base, sty, idx), self.mux(self.veq(idx, i), x, self.geti(base, sty, self.sub(idx, self.I(1)))))
        if t.k == "X" and t.a[0] == "popfront":
            return self.geti(t.a[2], self.symty_of(t), self.add(idx, self.I(1)))
        if t.k == "X" and t.a[0] == "popback":
            return self.geti(t.a[2], self.symty_of(t), idx)
        if t.k == "X" and t.a[0] == "subslice" and isinstance(t.a[3], int) and t.a[2].k == "G" and len(self.galts(t.a[2])) == 1:
            bty = self.symty_of(self.galts(t.a[2])[0][0])
            if bty is not None and self.elty(bty) is not None:
                return self.geti(t.a[2], bty, self.add(self.I(t.a[3]), idx))
        if t.k == "X" and t.a[0] == "slice":
            bt = t.a[2]
            bty = self.symty_of(self.galts(bt)[0][0]) if bt.k == "G" else bt.a[0]
            if bty is not None and self.elty(bty) is not None:
                return self.geti(bt, bty, self.add(t.a[3], idx))
        return self.app("at", ety, self.G1(t), idx)

    def symty_of(self, t):
        return t.a[1] if t.k in ("S", "X") else self.tty(t)

    def puti(self, v, ty, idx, nv):
        if v.k == "A" and self.prog.types[ty]["k"] == "array":
            al = self.galts(idx)
            if len(al) == 1 and al[0][0].k == "I":
                fs = list(v.a[1][0][2])
                i = al[0][0].a[0]
                if 0 <= i < len(fs):
                    fs[i] = nv
                return self.mkA(ty, [(0, 1, tuple(fs))])
        # put(put(b,i,x),i,y) -> put(b,i,y);  put(b,i,at(b,i)) -> b
        if self.geti(v, ty, idx) is nv:
            return v
        if v.k == "G" and len(v.a[0]) == 1:
            t = v.a[0][0][0]
            if t.k == "X" and t.a[0] == "put" and t.a[3] is idx:
                return self.puti(t.a[2], ty, idx, nv)
        return self.app("put", ty, v, idx, nv)

    def getpath(self, v, ty, path):
        for s in path:
            if s[0] == "f":
                v, ty = self.getf(v, ty, s[1], s[2]), self.prog.field_ty(ty, s[1], s[2])
            elif s[0] in ("i", "k"):
                v, ty = self.geti(v, ty, s[1], s[0] == "k"), self.elty(ty)
            elif s[0] == "sub":
                v, ty = self.app("subslice", ty, v, s[1], s[2]), ty
            elif s[0] == "s":
                from models import subslice
                sty = self.slicety(ty)
                v, ty = subslice(self, v, ty, sty, s[1], s[2]), sty
            elif s[0] == "disc":
                pass
            else:
                raise Imprecise("path " + str(s))
            if v is UNDEF:
                pass
        return v

    def pathty(self, ty, path):
        for s in path:
            if s[0] == "f":
                ty = self.prog.field_ty(ty, s[1], s[2])
            elif s[0] in ("i", "k"):
                ty = self.elty(ty)
            elif s[0] == "s":
                ty = self.slicety(ty)
        return ty

    def slicety(self, ty):
        """the slice type with the same elements"""
        e = self.elty(ty)
        d = self.__dict__.setdefault("_slty", {})
        if e not in d:
            d[e] = next((i for i, t in enumerate(self.prog.types) if t["k"] == "slice" and t["e"] == e), ty)
        return d[e]

    def pidx(self, path, idx):
        """path + an index, seen through a sub-slice"""
        path = tuple(path)
        while path and path[-1][0] == "s":
            idx = self.add(path[-1][1], idx)
            path = path[:-1]
        return path + (("i", idx),)

    def psub(self, path, lo, hi):
        path = tuple(path)
        while path and path[-1][0] == "s":
            lo, hi = self.add(path[-1][1], lo), self.add(path[-1][1], hi)
            path = path[:-1]
        return path + (("s", lo, hi),)

    def putpath(self, v, ty, path, nv):
        if not path:
            return nv
        s = path[0]
        if s[0] == "disc":
            # which variant it is becomes unknown; payloads stay
            t = self.galts(nv)[0][0]
            have = {vv: fs for vv, g, fs in self.expand(v, ty).a[1]} if v is not UNDEF else {}
            out = []
            for k, vv in enumerate(self.prog.types[ty]["vs"]):
                fs = have.get(k)
                if fs is None:
                    fs = tuple(self.symval(NT("P", t, k, i, ty), f["t"]) for i, f in enumerate(vv["f"]))
                out.append((k, self.is_variant(t, k, ty), fs))
            return self.mkA(ty, out)
        if s[0] == "f":
            sub = self.getf(v, ty, s[1], s[2]) if v is not UNDEF else UNDEF
            fty = self.prog.field_ty(ty, s[1], s[2])
            return self.putf(v, ty, s[1], s[2], self.putpath(sub, fty, path[1:], nv))
        if s[0] in ("i", "k"):
            sub = self.geti(v, ty, s[1], s[0] == "k")
            return self.puti(v, ty, s[1], self.putpath(sub, self.elty(ty), path[1:], nv))
        if s[0] == "s" and len(path) == 1:
            return self.app("splice", ty, v, s[1], s[2], nv)
        if s[0] == "sub":
            old = self.app("subslice", ty, v, s[1], s[2])
            new = self.putpath(old, ty, path[1:], nv)
            return self.app("putsub", ty, v, s[1], s[2], new)
        raise Imprecise("putpath " + str(s))

    # ------------------------------------------------------------- memory
    def root_value(self, st, root):
        v = st.m.get(root)
        if v is None:
            if root[0] == "deref":
                ty = self.root_ty.get(root)
                v = self.symval(NT("X", "*", ty, root[1]), ty)
                return v
            if root[0] == "const":
                return self.consts[root]
            return UNDEF
        return v

    def targets(self, ptrval, pty, st):
        """pointer value -> [(guard, root, path)] ; pty = pointee type"""
        out = []
        for t, g in self.galts(ptrval):
            if self.b.AND(g, st.g) == 0:
                continue
            if t.k == "R":
                out.append((g, t.a[0], t.a[1]))
            else:
                root = ("deref", t)
                self.root_ty.setdefault(root, pty)
                out.append((g, root, ()))
        return out

    def resolve(self, place, fr, st):
        """-> (list of (guard, root, path), type, variant-pending)"""
        local, projs = place
        tg = [(1, ("loc", fr.id, local), ())]
        ty = fr.body["locals"][local]
        variant = 0
        for p in projs:
            k = p[0]
            if k == "*":
                pt = self.prog.types[ty]
                pty = pt.get("e")
                if pt["k"] == "adt":  # Box
                    pty = pt["args"][0]
                new = []
                for g, root, path in tg:
                    v = self.rd(st, root, path)
                    if v is UNDEF:
                        continue
                    for g2, r2, p2 in self.targets(v, pty, st):
                        gg = self.b.AND(g, g2)
                        if self.b.AND(gg, st.g):
                            new.append((gg, r2, p2))
                if not new:
                    raise Imprecise("deref of undef")
                tg = new
                ty = pty
                variant = 0
            elif k == "f":
                tg = [(g, r, self.asfield(r, pa, ty) + (("f", variant, p[1]),)) for g, r, pa in tg]
                fty = self.prog.field_ty(ty, variant, p[1])
                ty = fty if fty is not None else p[2]
                variant = 0
            elif k == "d":
                variant = p[1]
            elif k == "i":
                idx = self.rd(st, ("loc", fr.id, p[1]), ())
                tg = [(g, r, self.pidx(pa, idx)) for g, r, pa in tg]
                ty = self.elty(ty)
            elif k == "c":
                if p[3]:
                    new = []
                    for g, r, pa in tg:
                        base = self.rd(st, r, pa)
                        ln = self.lenof(base, ty)
                        new.append((g, r, self.pidx(pa, self.sub(ln, self.I(p[1])))))
                    tg = new
                else:
                    tg = [(g, r, self.pidx(pa, self.I(p[1]))) for g, r, pa in tg]
                ty = self.elty(ty)
            elif k == "s":
                tg = [(g, r, pa + (("sub", p[1], (p[2], p[3])),)) for g, r, pa in tg]
            elif k == "o":
                ty = p[1]
            else:
                raise Imprecise("proj " + k)
        return tg, ty

    def asfield(self, root, path, ty):
        """path, through the union's field when the element there is a union seen as ty"""
        if not path or path[-1][0] not in ("i", "k"):
            return path
        try:
            pt = self.pathty(self.root_ty.get(root), path)
        except Exception:
            return path
        if pt is None or pt == ty or not self.is_union(pt):
            return path
        t = self.prog.types[pt]
        for i in range(len(t["vs"][0]["f"])):
            if self.prog.field_ty(pt, 0, i) == ty:
                return path + (("f", 0, i),)
        return path

    def rd(self, st, root, path):
        v = self.root_value(st, root)
        if not path:
            return v
        return self.getpath(v, self.rootty(root), path)

    def rootty(self, root):
        return self.root_ty[root]

    def wr(self, st, tg, nv):
        live = [(g, r, p) for g, r, p in tg if self.b.AND(g, st.g)]
        for g, root, path in live:
            old = self.root_value(st, root)
            if not path:
                new = nv
            else:
                new = self.putpath(old, self.rootty(root), path, nv)
            if len(live) > 1:
                new = self.mux(g, new, old)
            st.m[root] = new

    def read_place(self, place, fr, st):
        tg, ty = self.resolve(place, fr, st)
        out = None
        for g, r, p in tg:
            v = self.rd(st, r, p)
            out = v if out is None else self.mux(g, v, out)
        return out, ty

    def lenof(self, v, ty):
        if v.k == "A" and v.a[0] is not None:
            ty = v.a[0]
        t = self.prog.types[ty] if ty is not None else None
        us = self.prog.ty_by_name.get("usize")
        if t and t["k"] == "array" and t["len"] is not None:
            return self.I(t["len"])
        if v.k == "G":
            out = None
            for tm, g in v.a[0]:
                x = self.lent(tm, us)
                out = x if out is None else self.mux(g, x, out)
            return out
        if v.k == "A" and t and t["k"] in ("array", "slice"):
            return self.I(len(v.a[1][0][2]))
        return self.app("len", us, v)

    def lent(self, t, us):
        if t.k == "X":
            if t.a[0] == "put":
                return self.lenof(t.a[2], None)
            if t.a[0] in ("push", "insertat"):
                return self.add(self.lenof(t.a[2], None), self.I(1))
            if t.a[0] in ("popfront", "popback"):
                return self.sub(self.lenof(t.a[2], None), self.I(1))
            if t.a[0] == "new":
                return self.I(0)
            if t.a[0] == "filled":
                return t.a[2]
            if t.a[0] == "extend":
                x = t.a[3]
                xt = self.symty_of(self.galts(x)[0][0]) if x.k == "G" else x.a[0]
                return self.add(self.lenof(t.a[2], None), self.lenof(x, xt))
            if t.a[0] in ("splice", "rotr", "havocfield"):
                return self.lenof(t.a[2], None)
            if t.a[0] == "slice":
                return self.sub(t.a[4], t.a[3])
            if t.a[0] == "subslice" and isinstance(t.a[3], int) and isinstance(t.a[4], tuple):
                k, end = t.a[4]
                if end:
                    return self.sub(self.lenof(t.a[2], None), self.I(t.a[3] + k))
                return self.I(k - t.a[3])
        ty = self.symty_of(t)
        if ty is not None and self.prog.types[ty]["k"] == "array" and self.prog.types[ty]["len"] is not None:
            return self.I(self.prog.types[ty]["len"])
        if t.k == "STR":
            return self.I(len(t.a[0].encode()))
        return self.app("len", us, self.G1(t))

    # ------------------------------------------------------------ operands
    def const(self, ty, v):
        t = self.prog.types[ty]
        if "z" in v:
            if t["k"] == "fndef":
                return self.G1(N("FN", ty))
            if t["k"] == "closure":
                return NT("A", ty, ((0, 1, ()),))
            if t["k"] == "tuple" and not t["es"]:
                return NT("A", ty, ((0, 1, ()),))
            if t["k"] == "adt" and t["ak"] == "struct":
                return self.zst(ty)
            return self.G1(N("S", "zst:" + t["n"], ty))
        return self.constv(ty, v)

    def zst(self, ty):
        t = self.prog.types[ty]
        fs = []
        if t["k"] == "adt":
            for f in t["vs"][0]["f"]:
                fs.append(self.zst(f["t"]))
            return NT("A", ty, ((0, 1, tuple(fs)),))
        if t["k"] == "tuple":
            return NT("A", ty, ((0, 1, tuple(self.zst(e) for e in t["es"])),))
        return self.G1(N("S", "zst:" + t["n"], ty))

    def constv(self, ty, v):
        t = self.prog.types[ty] if ty is not None else {"k": "?", "n": "?"}
        if "i" in v:
            if t["k"] == "bool":
                return self.B(1 if v["i"] else 0)
            return self.I(v["i"])
        if "fs" in v:
            if t["k"] == "tuple":
                return self.mkA(ty, [(0, 1, tuple(self.constv(e, x) for e, x in zip(t["es"], v["fs"])))])
            k = v.get("v", 0)
            return self.mkA(ty, [(k, 1, tuple(self.constv(f["t"], x) for f, x in zip(t["vs"][k]["f"], v["fs"])))])
        if "seq" in v:
            e = t.get("e")
            if t["k"] == "array" or t["k"] == "slice":
                return NT("A", ty, ((0, 1, tuple(self.constv(e, x) for x in v["seq"])),))
        if "str" in v:
            return self.G1(N("STR", v["str"]))
        if "ref" in v:
            root = ("const", json.dumps(v["ref"], sort_keys=True))
            self.root_ty[root] = t.get("e")
            inner = self.constv(t.get("e"), v["ref"])
            self.consts[root] = inner
            return self.G1(NT("R", root, ()))
        return self.G1(N("S", "const:" + json.dumps(v, sort_keys=True), ty))

    def op(self, o, fr, st):
        if o[0] == "c":
            v = self.const(o[1], o[2])
            return v, o[1]
        if o[0] == "rc":
            return self.B(0), self.prog.ty_by_name.get("bool")
        v, ty = self.read_place(o[1], fr, st)
        return v, ty

    # ------------------------------------------------------------- rvalues
    def rvalue(self, r, fr, st, dty):
        k = r[0]
        P = self.prog
        if k == "use":
            return self.op(r[1], fr, st)[0]
        if k in ("ref", "addr", "reb"):
            tg, ty = self.resolve(r[2], fr, st)
            return self.mkG([(NT("R", root, path), g) for g, root, path in tg])
        if k == "agg":
            ak = r[1]
            vals = [self.op(o, fr, st)[0] for o in r[2]]
            if ak[0] == "tuple":
                return self.mkA(dty, [(0, 1, tuple(vals))])
            if ak[0] == "adt":
                ty, var, uf = ak[1], ak[2], ak[3]
                if uf is not None:
                    fs = [UNDEF] * len(P.types[ty]["vs"][0]["f"])
                    fs[uf] = vals[0]
                    return NT("A", ty, ((0, 1, tuple(fs)),))
                return self.mkA(ty, [(var, 1, tuple(vals))])
            if ak[0] == "closure":
                return NT("A", ak[1], ((0, 1, tuple(vals)),))
            if ak[0] == "array":
                return NT("A", dty, ((0, 1, tuple(vals)),))
            if ak[0] == "rawptr":
                return vals[0]
            raise Imprecise("agg " + str(ak))
        if k == "bin":
            a, ta = self.op(r[2], fr, st)
            b, tb = self.op(r[3], fr, st)
            return self.binop(r[1], a, b, ta, dty, st)
        if k == "cbin":
            a, ta = self.op(r[2], fr, st)
            b, tb = self.op(r[3], fr, st)
            v = self.binop(r[1], a, b, ta, ta, st)
            ov = self.overflow(r[1], v, ta)
            return self.mkA(dty, [(0, 1, (v, self.B(ov)))])
        if k == "un":
            a, ta = self.op(r[2], fr, st)
            if r[1] == "Not":
                if a.k == "B":
                    return self.B(self.b.NOT(a.a[0]))
                return self.app("not", dty, a)
            if r[1] == "Neg":
                return self.mkG([(self.tscale(t, -1), g) for t, g in self.galts(a)])
            if r[1] == "PtrMetadata":
                # length of the slice behind a wide pointer
                out = None
                pt = P.types[ta]
                for g, root, path in self.targets(a, pt.get("e"), st):
                    v = self.rd(st, root, path)
                    x = self.lenof(v, self.pathty(self.rootty(root), path)) if v is not UNDEF else self.app("len", dty, v)
                    out = x if out is None else self.mux(g, x, out)
                return out
        if k == "cast":
            a, ta = self.op(r[2], fr, st)
            return self.cast(r[1], a, ta, r[3], st)
        if k == "disc":
            tg, ty = self.resolve(r[1], fr, st)
            out = None
            for g, root, path in tg:
                v = self.disc(self.rd(st, root, path), ty)
                out = v if out is None else self.mux(g, v, out)
            return out
        if k == "len":
            v, ty = self.read_place(r[1], fr, st)
            return self.lenof(v, ty)
        if k == "repeat":
            v, ty = self.op(r[1], fr, st)
            n = r[2]
            if n is not None and n <= 64:
                return NT("A", dty, ((0, 1, tuple([v] * n)),))
            return self.app("repeat", dty, v, str(n))
        raise Imprecise("rvalue " + k)

    def disc(self, v, ty):
        t = self.prog.types[ty]
        if t["k"] != "adt" or t["ak"] != "enum":
            return self.I(0)
        v = self.expand(v, ty)
        if v is UNDEF:
            return UNDEF
        out = []
        for vv, g, fs in v.a[1]:
            out.append((N("I", signed(t["vs"][vv]["d"], t)), g))
        return self.mkG(out)

    def overflow(self, op, v, ty):
        t = self.prog.types[ty]
        bits = t.get("bits", 64)
        if t["k"] == "uint":
            lo, hi = 0, (1 << bits) - 1
        else:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        r = 0
        for x, g in self.galts(v):
            under = self.lt0(self.tadd(x, N("I", -lo)))
            over = self.lt0(self.tadd(N("I", hi), x, -1))
            r = self.b.OR(r, self.b.AND(g, self.b.OR(under, over)))
        return r

    def binop(self, op, a, b, ta, dty, st):
        t = self.prog.types[ta]
        B = self.b
        op = op.replace("Unchecked", "")
        if op == "Offset":
            return self.app("ptr_offset", dty, a, b)
        if op in ("Eq", "Ne"):
            if a.k == "A" and b.k == "A":
                e = self.veq(a, b)
            else:
                e = self.eq(a, b)
            return self.B(e if op == "Eq" else B.NOT(e))
        if a.k == "B" and b.k == "B":
            x, y = a.a[0], b.a[0]
            if op == "BitAnd":
                return self.B(B.AND(x, y))
            if op == "BitOr":
                return self.B(B.OR(x, y))
            if op == "BitXor":
                return self.B(B.XOR(x, y))
            if op == "Lt":
                return self.B(B.AND(B.NOT(x), y))
            if op == "Gt":
                return self.B(B.AND(x, B.NOT(y)))
            if op == "Le":
                return self.B(B.IMP(x, y))
            if op == "Ge":
                return self.B(B.IMP(y, x))
        if op == "Lt":
            return self.B(self.lt(a, b))
        if op == "Gt":
            return self.B(self.lt(b, a))
        if op == "Le":
            return self.B(B.NOT(self.lt(b, a)))
        if op == "Ge":
            return self.B(B.NOT(self.lt(a, b)))
        if op == "Cmp":
            l = self.lt(a, b)
            e = B.AND(B.NOT(l), B.NOT(self.lt(b, a)))
            gt = B.NOT(B.OR(l, e))
            vs = self.prog.types[dty]["vs"]
            idx = {v["n"]: i for i, v in enumerate(vs)}
            return self.mkA(dty, [(idx["Less"], l, ()), (idx["Equal"], e, ()), (idx["Greater"], gt, ())])
        if op == "Add":
            return self.add(a, b)
        if op == "Sub":
            return self.sub(a, b)
        if op == "Mul":
            return self.map2(lambda x, y: self.tmul(x, y, dty), a, b)
        if op in ("Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            return self.map2(lambda x, y: self.tbit(op, x, y, dty), a, b)
        raise Imprecise("binop " + op)

    def tmul(self, x, y, ty):
        if x.k == "I":
            return self.tscale(y, x.a[0])
        if y.k == "I":
            return self.tscale(x, y.a[0])
        l = sorted([x, y], key=lambda t: t.id)
        return NT("X", "mul", ty, *l)

    def tbit(self, op, x, y, ty):
        if x.k == "I" and y.k == "I":
            a, b = x.a[0], y.a[0]
            try:
                r = {"Div": lambda: a // b, "Rem": lambda: a % b, "Shl": lambda: a << b, "Shr": lambda: a >> b,
                     "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b}[op]()
                bits = self.prog.types[ty].get("bits", 64)
                if self.prog.types[ty]["k"] == "uint":
                    r &= (1 << bits) - 1
                return N("I", r)
            except Exception:
                pass
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = sorted([x, y], key=lambda t: t.id)
        if op == "Shl" and y.k == "I" and y.a[0] < 63:
            return self.tscale(x, 1 << y.a[0])
        return NT("X", op, ty, x, y)

    def fits(self, t, bits):
        """is the value known to fit (set by rules that rely on a library's bounds)"""
        return False

    def cast(self, kind, a, ta, tb, st):
        A, Bt = self.prog.types[ta], self.prog.types[tb]
        if kind == "IntToInt":
            if A["k"] == "bool":
                return self.mkG([(N("I", 1), a.a[0]), (N("I", 0), self.b.NOT(a.a[0]))]) if a.k == "B" else a
            ba, bb = A.get("bits", 64), Bt.get("bits", 64)
            if A["k"] == "adt":
                return self.disc(a, ta)
            if bb >= ba:
                return a
            out = []
            for t, g in self.galts(a):
                if t.k == "I":
                    x = t.a[0] & ((1 << bb) - 1)
                    if Bt["k"] == "int" and x >> (bb - 1):
                        x -= 1 << bb
                    out.append((N("I", x), g))
                elif self.fits(t, bb):
                    out.append((t, g))
                else:
                    out.append((NT("X", "trunc", tb, t), g))
            return self.mkG(out)
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion") or kind == "Subtype":
            if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind:
                return a
            return a
        if kind.startswith("Transmute") or kind == "BoxDerefTransmute":
            pk = ("ref", "ptr")
            if A["k"] in pk and Bt["k"] in pk:
                return a
            if ta == tb:
                return a
            if A["k"] in ("uint", "int") and Bt["k"] in ("uint", "int"):
                return a
            # single-field wrappers (NonNull, Unique, ...)
            v, t = a, ta
            for _ in range(4):
                tt = self.prog.types[t]
                if tt["k"] == "adt" and tt["ak"] == "struct" and len(tt["vs"]) == 1:
                    nz = [i for i, f in enumerate(tt["vs"][0]["f"]) if not self.prog.types[f["t"]]["n"].startswith("std::marker::PhantomData")]
                    if len(nz) == 1:
                        v = self.getf(v, t, 0, nz[0])
                        t = tt["vs"][0]["f"][nz[0]]["t"]
                        if Bt["k"] in pk and (self.prog.types[t]["k"] in pk or self.prog.types[t]["n"].startswith("pattern_type!(*")):
                            return v
                        continue
                break
            if a.k == "G" and len(a.a[0]) > 1:
                out = None
                for t, g in a.a[0]:
                    x = self.app("transmute", tb, self.G1(t))
                    out = x if out is None else self.mux(g, x, out)
                return out
            return self.app("transmute", tb, a)
        return self.app("cast:" + kind.split("(")[0], tb, a)

    # ----------------------------------------------------------------- CFG
    def cfg(self, inst):
        c = self.cfgcache.get(inst["id"])
        if c is None:
            c = CFG(inst["body"])
            self.cfgcache[inst["id"]] = c
        return c

    def call_inst(self, inst, args, st, span, spread=None):
        """Inline inst. args: list of values. Returns (ret value, state)."""
        body = inst["body"]
        self.nframe += 1
        fr = Frame()
        fr.id = (tuple(s[1] for s in self.stack), inst["id"]) if len(self.stack) < 60 else self.nframe
        fr.id = self.frameid(inst)
        fr.body = body
        fr.inst = inst
        n = body["nargs"]
        if "spread" in body and spread is None and len(args) != n:
            pass
        m = dict(st.m)
        for i, t in enumerate(body["locals"]):
            self.root_ty[("loc", fr.id, i)] = t
        for i in range(n):
            m[("loc", fr.id, i + 1)] = args[i] if i < len(args) else UNDEF
        s0 = St(st.g, m)
        self.stack.append((inst, fr.id, span))
        if inst["local"]:
            self.analysed.add(inst["def"])
        try:
            cfg = self.cfg(inst)
            rets = []
            exits = self.region(cfg, frozenset(range(len(body["bbs"]))) & cfg.reach, 0, [s0], fr, None, rets)
        finally:
            self.stack.pop()
        if not rets:
            return None, None
        out = self.merge(rets)
        rv = out.m.get(("loc", fr.id, 0), UNDEF)
        if rv is UNDEF:
            t = self.prog.types[body["locals"][0]]
            if t["k"] == "tuple" and not t["es"]:
                rv = NT("A", body["locals"][0], ((0, 1, ()),))
        # drop this frame's locals unless something still points into them
        keep = {}
        for r, v in out.m.items():
            if r[0] == "loc" and r[1] == fr.id:
                continue
            keep[r] = v
        out.m = keep
        return rv, out

    def frameid(self, inst):
        # deterministic: chain of (inst, call index in caller)
        self.callctr = getattr(self, "callctr", 0) + 1
        return self.callctr

    def merge(self, states):
        states = [s for s in states if s.g]
        if not states:
            return St(0, {})
        if len(states) == 1:
            return states[0]
        g = states[0].g
        m = dict(states[0].m)
        for s in states[1:]:
            ng = self.b.OR(g, s.g)
            for r in set(m) | set(s.m):
                a = m.get(r, None)
                b = s.m.get(r, None)
                if a is b:
                    continue
                if a is None:
                    if r[0] in ("deref",):
                        a = self.root_value(St(1, {}), r)
                    else:
                        m[r] = b
                        continue
                if b is None:
                    if r[0] in ("deref",):
                        b = self.root_value(St(1, {}), r)
                    else:
                        continue
                try:
                    m[r] = self.mux(s.g, b, a)
                except Imprecise:
                    m[r] = self.G1(NT("S", "imprecise", self.root_ty.get(r)))
            g = ng
        return St(g, m)

    def region(self, cfg, blocks, entry, instates, fr, header, rets):
        """Run the blocks reachable from `entry` inside `blocks`.  Edges to
        `header` are collected as back edges.  Returns {target: [states]} for
        edges that leave the region (incl. header under key 'back')."""
        order, sccs = cfg.order(blocks, entry, header)
        pend = {entry: list(instates)}
        leave = {}
        comp_of = {}
        for c in sccs:
            for bblk in c:
                comp_of[bblk] = c
        for c in sccs:
            if len(c) == 1 and not cfg.selfloop(next(iter(c)), header):
                bl = next(iter(c))
                ss = pend.pop(bl, None)
                if not ss:
                    continue
                st = self.merge(ss)
                if st.g == 0:
                    continue
                outs = self.block(bl, St(st.g, dict(st.m)), fr, rets)
                for tgt, s in outs:
                    if s.g == 0:
                        continue
                    if tgt == header:
                        leave.setdefault("back", []).append(s)
                    elif tgt in blocks:
                        pend.setdefault(tgt, []).append(s)
                    else:
                        leave.setdefault(tgt, []).append(s)
            else:
                heads = [x for x in c if x in pend]
                if not heads:
                    continue
                if len(heads) > 1:
                    raise Imprecise("irreducible loop")
                h = heads[0]
                st = self.merge(pend.pop(h))
                if st.g == 0:
                    continue
                outs = self.loop(cfg, frozenset(c), h, st, fr, rets)
                for tgt, sl in outs.items():
                    for s in sl:
                        if s.g == 0:
                            continue
                        if tgt == header:
                            leave.setdefault("back", []).append(s)
                        elif tgt in blocks:
                            pend.setdefault(tgt, []).append(s)
                        else:
                            leave.setdefault(tgt, []).append(s)
        return leave

    def loop(self, cfg, blocks, h, st, fr, rets, runner=None, key=None):
        """Analyse one arbitrary iteration of the loop at header `h` (or of the
        abstract loop `runner`, a function from the state at the header to the
        states that leave it and the states that go round again)."""
        if runner is None and self.overarray(fr, blocks):
            return self.unroll(cfg, blocks, h, st, fr, rets)
        lid = len(self.loops)
        key = self.loopname(key or f"{fr.inst['def']}#bb{h}")
        phis = {}
        base = dict(st.m)
        for it in range(14):
            mark = (len(self.events), len(self.panics), self.assume, len(self.loops))
            m = dict(base)
            for (root, path), ph in sorted(phis.items(), key=lambda x: (len(x[0][1]) - (x[0][1][-1:] == (("disc",),)), x[0][1][-1:] != (("disc",),))):
                pv = self.symval(ph, self.pathty(self.root_ty[root], path))
                m[root] = self.putpath(m.get(root, UNDEF), self.root_ty[root], path, pv) if path else pv
            start = St(st.g, dict(m))
            r2 = []
            rec = LoopRec()
            rec.key = key
            rec.span = fr.body["bbs"][h]["t"].get("sp") if runner is None else None
            rec.parent = self.loops[self.loopstack[-1]] if self.loopstack else None
            self.loops.append(rec)
            self.loopstack.append(len(self.loops) - 1)
            try:
                leave = self.region(cfg, blocks, h, [start], fr, h, r2) if runner is None else runner(start)
            finally:
                self.loopstack.pop()
            back = self.merge(leave.pop("back", []))
            if back.g == 0:
                rets.extend(r2)
                rec.phis = {}
                self.leaving(key, leave)
                return leave
            if self.on_back is not None:
                self.on_back(key, m, back)
            changed = []
            for root in list(base):
                if root[0] == "const":
                    continue
                a = m[root]
                b2 = back.m.get(root, UNDEF)
                if a is b2 or b2 is UNDEF:
                    continue
                self.diffpaths(a, b2, self.root_ty[root], (), root, changed, back.g)
            for root in back.m:
                if root not in base and root[0] == "deref":
                    if not self.mentions(root[1], phis):
                        a = self.root_value(St(1, {}), root)
                        if back.m[root] is not a:
                            base[root] = a
                            changed.append((root, ()))
            new = [c for c in changed if not any(c[0] == r and c[1][:len(p)] == p for (r, p) in phis)]
            if not new:
                rec.phis = {ph: (self.rdm(base, root, path), self.rdm(back.m, root, path), (root, path)) for (root, path), ph in phis.items()}
                rec.cont = back.g
                rec.inst = fr.inst
                rec.g = st.g
                rets.extend(r2)
                self.leaving(key, leave)
                return leave
            # undo and retry with more phis
            del self.events[mark[0]:]
            del self.panics[mark[1]:]
            self.assume = mark[2]
            del self.loops[mark[3]:]
            for root, path in new:
                # drop phis below this path
                for (r, p) in [x for x in phis if x[0] == root and (x[1][:len(path)] == path) and path[-1:] != (("disc",),)]:
                    del phis[(r, p)]
                nm = f"phi:{key}:{self.rootname(root, fr)}{self.pathname(path)}"
                ty = self.pathty(self.root_ty[root], path)
                phis[(root, path)] = NT("S", nm, ty)
        raise Imprecise("loop does not stabilise: " + key)

    top = 0

    def overarray(self, fr, blocks):
        """the loop goes over an array by value: it has a fixed number of rounds"""
        for b in blocks:
            t = fr.body["bbs"][b]["t"]
            if t["k"] == "call" and t.get("fty") is not None:
                i = self.prog.types[t["fty"]].get("inst")
                if i is not None and self.prog.insts[i]["def"] == "<std::array::IntoIter<T, N> as std::iter::Iterator>::next":
                    return True
        return False

    def unroll(self, cfg, blocks, h, st, fr, rets):
        cur, exits = [st], {}
        for k in range(17):
            r2 = []
            leave = self.region(cfg, blocks, h, cur, fr, h, r2)
            back = self.merge(leave.pop("back", []))
            rets.extend(r2)
            for b, ss in leave.items():
                exits.setdefault(b, []).extend(ss)
            if back.g == 0:
                return exits
            cur = [back]
        raise Imprecise("a loop over an array does not end")

    arrayiters = {}

    def loopname(self, key):
        """A name for this loop in this calling context."""
        chain = (self.top, key) + tuple((s[0]["id"], str(s[2])) for s in self.stack)
        d = self.__dict__.setdefault("_ln", {})
        if chain not in d:
            n = self.__dict__.setdefault("_lc", {})
            n[key] = n.get(key, 0) + 1
            d[chain] = key if n[key] == 1 else f"{key}~{n[key]}"
        return d[chain]

    def leaving(self, key, leave):
        if self.on_leave is not None:
            for ss in leave.values():
                for s in ss:
                    self.on_leave(key, s)

    on_leave = None
    on_back = None
    atomic = frozenset()

    def rootname(self, root, fr):
        if root[0] == "loc":
            return f"_{root[2]}" if root[1] == fr.id else f"outer_{root[2]}"
        return pproot(root)

    def pathname(self, path):
        return "".join("." + str(s[2]) + (f"#{s[1]}" if s[1] else "") if s[0] == "f" else ".disc" if s[0] == "disc" else "[..]" for s in path)

    def mentions(self, t, phis):
        ph = set(phis.values())
        seen = set()

        def go(x):
            if isinstance(x, tuple):
                return any(go(y) for y in x)
            if not isinstance(x, Node) or x.id in seen:
                return False
            seen.add(x.id)
            if x in ph or (x.k == "S" and isinstance(x.a[0], str) and x.a[0].startswith("phi:")):
                return True
            return any(go(y) for y in x.a)
        return go(t)

    def rdm(self, m, root, path):
        v = m.get(root, UNDEF)
        return self.getpath(v, self.root_ty[root], path) if path and v is not UNDEF else v

    def diffpaths(self, a, b, ty, path, root, out, g):
        if a is b:
            return
        t = self.prog.types[ty] if ty is not None and ty not in self.atomic else None
        if t and (t["k"] == "tuple" or t["k"] == "closure" or t["k"] == "adt" and t["ak"] == "struct" and (t.get("local") or a.k == "A" or b.k == "A")) and a is not UNDEF:
            n = len(t["vs"][0]["f"]) if t["k"] == "adt" else len(t.get("es", t.get("up", [])))
            if n:
                for i in range(n):
                    fa = self.getf(a, ty, 0, i)
                    fb = self.getf(b, ty, 0, i)
                    self.diffpaths(fa, fb, self.prog.field_ty(ty, 0, i), path + (("f", 0, i),), root, out, g)
                return
        if t and t["k"] == "adt" and t["ak"] == "enum" and a is not UNDEF and b is not UNDEF and a.k == "A" and b.k == "A":
            av = {vv: (gg, fs) for vv, gg, fs in a.a[1]}
            bv = {vv: (gg, fs) for vv, gg, fs in b.a[1]}
            if any(self.b.AND(g, self.b.XOR(av.get(k, (0,))[0], bv.get(k, (0,))[0])) for k in set(av) | set(bv)):
                out.append((root, path + (("disc",),)))
            for k in bv:
                for i, fb in enumerate(bv[k][1]):
                    p = path + (("f", k, i),)
                    gk = self.b.AND(g, bv[k][0])
                    if gk == 0:
                        continue
                    if k not in av:
                        # created by the loop body: unknown on entry
                        if fb is not UNDEF:
                            out.append((root, p))
                    elif av[k][1][i] is UNDEF or fb is UNDEF:
                        if av[k][1][i] is not fb:
                            out.append((root, p))
                    else:
                        self.diffpaths(av[k][1][i], fb, self.prog.field_ty(ty, k, i), p, root, out, gk)
            return
        if a is not UNDEF and b is not UNDEF:
            d = self.b.AND(g, self.vneq(a, b))
            if d == 0:
                return
        out.append((root, path))

    # --------------------------------------------------------------- blocks
    def block(self, bl, st, fr, rets):
        self.work += 1
        if self.work > self.maxwork:
            raise Imprecise("work limit")
        bb = fr.body["bbs"][bl]
        for s in bb["s"]:
            k = s["k"]
            if k == "=":
                tg, ty = self.resolve(s["p"], fr, st)
                v = self.rvalue(s["r"], fr, st, ty)
                v = self.prune(v, st.g)
                self.wr(st, tg, v)
            elif k == "dead":
                st.m.pop(("loc", fr.id, s["l"]), None)
            elif k == "setd":
                tg, ty = self.resolve(s["p"], fr, st)
                old, _ = self.read_place(s["p"], fr, st)
                self.wr(st, tg, self.mkA(ty, [(s["v"], 1, tuple([UNDEF] * len(self.prog.types[ty]["vs"][s["v"]]["f"])))]))
            elif k == "assume":
                v = self.op(s["o"], fr, st)[0]
                if v.k == "B":
                    self.assume = self.b.AND(self.assume, self.b.IMP(st.g, v.a[0]))
                    st.g = self.b.AND(st.g, v.a[0])
        t = bb["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "unreach":
            self.assume = self.b.AND(self.assume, self.b.NOT(st.g))
            return []
        if k in ("resume", "abort"):
            return []
        if k == "drop":
            self.on_drop(t, fr, st)
            return [(t["to"], st)]
        if k == "switch":
            v = self.op(t["d"], fr, st)[0]
            ty = self.prog.types[t["ty"]]
            rem = st.g
            outs = []
            for val, tgt in t["br"]:
                if ty["k"] == "int":
                    bits = ty["bits"]
                    if val >> (bits - 1):
                        val -= 1 << bits
                if v.k == "B":
                    c = v.a[0] if val else self.b.NOT(v.a[0])
                else:
                    c = self.eqc(v, val)
                g = self.b.AND(st.g, c)
                rem = self.b.AND(rem, self.b.NOT(c))
                if g:
                    outs.append((tgt, St(g, dict(st.m))))
            if rem:
                outs.append((t["else"], St(rem, dict(st.m))))
            return outs
        if k == "assert":
            if t["m"].startswith("overflow:") and getattr(self.prog, "wraps", False):
                # std's own checks follow the crate's setting, and wrap with it
                return [(t["to"], st)]
            v = self.op(t["c"], fr, st)[0]
            c = v.a[0] if v.k == "B" else self.eqc(v, 1)
            if not t["exp"]:
                c = self.b.NOT(c)
            if t["m"] == "bounds" and len(t["ops"]) > 1:
                c = self.b.AND(c, self.b.NOT(self.below(self.op(t["ops"][1], fr, st)[0])))
            bad = self.b.AND(st.g, self.b.NOT(c))
            if bad:
                self.panic(bad, "assert:" + t["m"], t["sp"], fr, [self.op(o, fr, st)[0] for o in t["ops"]], st)
            g = self.b.AND(st.g, c)
            return [(t["to"], St(g, st.m))]
        if k == "call":
            return self.call(t, fr, st)
        raise Imprecise("terminator " + k)

    def eqc(self, v, n):
        r = 0
        I = N("I", n)
        for t, g in self.galts(v):
            if g:
                if t.k == "I":
                    if t.a[0] == n:
                        r = self.b.OR(r, g)
                else:
                    r = self.b.OR(r, self.b.AND(g, self.teq(t, I)))
        return r

    def prune(self, v, g):
        """Drop alternatives that are impossible under path guard g."""
        if v.k == "G" and len(v.a[0]) > 1:
            al = [(t, x) for t, x in v.a[0] if self.b.AND(x, g)]
            if len(al) == len(v.a[0]):
                return v
            if len(al) == 1:
                return self.G1(al[0][0])
            if not al:
                return v
            return self.mkG(al)
        if v.k == "A" and len(v.a[1]) > 1:
            al = [x for x in v.a[1] if self.b.AND(x[1], g)]
            if len(al) < len(v.a[1]) and al:
                return self.mkA(v.a[0], al)
        return v

    def on_drop(self, t, fr, st):
        pass

    def panic(self, g, kind, span, fr, ops=(), st=None):
        e = Event(kind="panic", inst=None, args=list(ops), raw=[], g=g, loop=tuple(self.loopstack), span=span, ret=None,
                  fn=fr.inst["def"] if fr else None, seq=len(self.events), extra=kind, stack=tuple((s[0]["def"], s[2]) for s in self.stack))
        e.post = {"m": st.m if st is not None else None}
        self.panics.append(e)

    # ---------------------------------------------------------------- calls
    PANICS = re.compile(r"(core::panicking::|std::rt::begin_panic|core::option::(expect|unwrap)_failed|std::option::(expect|unwrap)_failed|core::result::unwrap_failed|std::result::unwrap_failed|core::slice::index::slice_\w*fail|.*len_mismatch_fail|core::str::slice_error_fail|std::process::abort|core::cell::panic_)")

    def call(self, t, fr, st):
        fty = self.prog.types[t["fty"]]
        args = []
        atys = []
        for o in t["a"]:
            v, ty = self.op(o, fr, st)
            args.append(self.prune(v, st.g))
            atys.append(ty)
        span = t["sp"]
        inst = None
        if fty["k"] == "fndef":
            if fty.get("inst") is not None:
                inst = self.prog.insts[fty["inst"]]
        elif fty["k"] == "fnptr":
            v, _ = self.op(t["f"], fr, st)
            al = self.galts(v)
            if len(al) == 1 and al[0][0].k == "FN":
                fd = self.prog.types[al[0][0].a[0]]
                if fd.get("inst") is not None:
                    inst = self.prog.insts[fd["inst"]]
        dname = inst["def"] if inst else fty["n"]
        tg, dty = self.resolve(t["d"], fr, st)
        if inst is not None and self.PANICS.match(dname):
            msg = self.msg(args, st)
            self.panic(st.g, "panic:" + short(dname) + (":" + msg if msg else ""), span, fr, args, st)
            return []
        r = self.dispatch(inst, fty, args, atys, dty, st, span, fr)
        if r is None:
            return []
        rv, st2 = r
        if st2 is None or st2.g == 0:
            return []
        if t["to"] is None:
            return []
        rv = self.prune(rv, st2.g)
        tg, dty = self.resolve(t["d"], fr, st2)
        self.wr(st2, tg, rv)
        return [(t["to"], st2)]

    def msg(self, args, st):
        for a in args:
            if a.k == "G":
                for tm, g in a.a[0]:
                    if tm.k == "STR":
                        return tm.a[0]
                    if tm.k == "R":
                        v = self.rd(st, tm.a[0], tm.a[1])
                        if v.k == "G" and len(v.a[0]) == 1 and v.a[0][0][0].k == "STR":
                            return v.a[0][0][0].a[0]
        return ""

    def dispatch(self, inst, fty, args, atys, dty, st, span, fr):
        import models
        name = inst["def"] if inst else fty["n"]
        f = self.userm.get(name)
        if f is not None:
            r = f(self, Call(inst, fty, args, atys, dty, span, fr), st)
            if r is not NotImplemented:
                return r
        if inst is None or not inst["local"]:
            f = models.lookup(name, inst)
            if f is not None:
                self.usedmodels.add(name)
                r = f(self, Call(inst, fty, args, atys, dty, span, fr), st)
                if r is not NotImplemented:
                    return r
        if inst is not None and "body" in inst:
            rec = any(s[0]["id"] == inst["id"] for s in self.stack)
            if not rec and len(self.stack) < self.maxdepth and not self.opaque(inst):
                args = self.spreadargs(inst, args, atys, st)
                return self.call_inst(inst, args, st, span)
        return self.opaque_call(inst, name, args, atys, dty, st, span, fr)

    def spreadargs(self, inst, args, atys, st):
        body = inst["body"]
        n = body["nargs"]
        if "spread" in body:
            return args
        if len(args) == 2 and "{closure" in inst["def"] and inst["kind"] == "Item":
            # rust-call: (self, (a, b, ..)) -> self, a, b
            tt = self.prog.types[atys[1]]
            if tt["k"] == "tuple":
                out = [args[0]]
                # by-value self where the closure body takes a reference
                bt = self.prog.types[body["locals"][1]]
                at = self.prog.types[atys[0]]
                for i in range(len(tt["es"])):
                    out.append(self.getf(args[1], atys[1], 0, i))
                return out
        return args

    def content(self, v, ty, st, depth=0):
        """Argument as content: references replaced by what they point to."""
        t = self.prog.types[ty] if ty is not None else None
        if t is None or depth > 6 or v is UNDEF:
            return v
        if t["k"] in ("ref", "ptr"):
            out = None
            for g, root, path in self.targets(v, t["e"], st):
                x = self.rd(st, root, path)
                if root[0] == "deref" and not path:
                    x2 = x
                x = self.content(x, t["e"], st, depth + 1)
                out = x if out is None else self.mux(g, x, out)
            return out if out is not None else v
        if v.k == "A" and t["k"] in ("adt", "tuple", "closure"):
            vs = []
            for vv, g, fs in v.a[1]:
                nf = []
                for i, f in enumerate(fs):
                    try:
                        fty = self.prog.field_ty(ty, vv, i)
                    except Exception:
                        fty = None
                    nf.append(self.content(f, fty, st, depth + 1))
                vs.append((vv, g, tuple(nf)))
            return NT("A", ("&",) + (ty,) if False else ty, tuple(vs))
        return v

    def opaque_call(self, inst, name, args, atys, dty, st, span, fr, kind=None):
        """Frontier / external call: event + uninterpreted results."""
        cont = [self.prune(self.content(a, ty, st), st.g) for a, ty in zip(args, atys)]
        local = bool(inst and inst["local"])
        ev = Event(kind="call" if local else "ext", inst=inst, args=cont, raw=list(args), g=st.g,
                   loop=tuple(self.loopstack), span=span, ret=None, fn=fr.inst["def"] if fr else None, seq=len(self.events),
                   stack=tuple((s[0]["def"], s[2]) for s in self.stack))
        ev.extra = name
        if not local:
            self.externs[name] = self.externs.get(name, 0) + 1
        st2 = St(st.g, dict(st.m))
        # havoc what is passed by &mut
        uname = name + ("" if inst is None else "@" + ",".join(str(x) for x in inst["args"]) if not local else "")
        for i, (a, ty) in enumerate(zip(args, atys)):
            t = self.prog.types[ty] if ty is not None else None
            if t is not None and t["k"] in ("ref", "ptr") and t.get("mut"):
                tgts = self.targets(a, t["e"], st)
                new = self.app(f"post{i}:" + uname, t["e"], *cont)
                self.wr(st2, tgts, new)
                ev.post[i] = new
                self.havoc_inner(self.content(a, ty, st), t["e"], st2, f"post{i}:" + uname, cont, 0)
            elif t is not None and t["k"] in ("adt", "tuple", "closure"):
                self.havoc_inner(a, ty, st2, f"post{i}:" + uname, cont, 0)
        rt = self.prog.types[dty]
        if rt["k"] == "never":
            self.events.append(ev)
            return None
        rv = self.app(uname, dty, *cont)
        ev.ret = rv
        self.events.append(ev)
        return rv, st2

    def havoc_inner(self, v, ty, st, nm, cont, d):
        t = self.prog.types[ty]
        if v.k == "G":
            # an iterator over exclusive references can write what it is over
            for x, g in self.galts(v):
                if x.k == "X" and str(x.a[0]).startswith("iterover:") and "Mut<" in self.prog.types[x.a[1]]["n"]:
                    for r, _ in self.galts(x.a[2]):
                        if r.k == "R":
                            ety = self.pathty(self.rootty(r.a[0]), r.a[1])
                            self.wr(st, self.targets(x.a[2], ety, st), self.app(nm + ".over", ety, *cont))
        if d > 3 or v.k != "A":
            return
        for vv, g, fs in v.a[1]:
            for i, f in enumerate(fs):
                fty = self.prog.field_ty(ty, vv, i)
                if fty is None or f is UNDEF:
                    continue
                ft = self.prog.types[fty]
                if ft["k"] == "ref" and ft.get("mut") and f.k == "G":
                    new = self.app(f"{nm}.{i}", ft["e"], *cont)
                    self.wr(st, self.targets(f, ft["e"], st), new)
                elif ft["k"] in ("adt", "tuple", "closure"):
                    self.havoc_inner(f, fty, st, nm + f".{i}", cont, d + 1)

    # ------------------------------------------------------------- entry
    def run(self, inst, args=None, names=None):
        """Analyse `inst` from a symbolic state. Returns Result."""
        body = inst["body"]
        st = St(1, {})
        av = []
        pn = {}
        for nm, pl in body["vars"]:
            if not pl[1] and 1 <= pl[0] <= body["nargs"]:
                pn[pl[0]] = nm
        self.argroots = {}
        for i in range(body["nargs"]):
            ty = body["locals"][i + 1]
            nm = (names or {}).get(i) or ("self" if pn.get(i + 1) == "self" else f"arg{i}")
            if args is not None and i < len(args) and args[i] is not None:
                av.append(args[i])
                continue
            t = self.prog.types[ty]
            if t["k"] in ("ref", "ptr") and self.prog.types[t["e"]]["k"] not in ("slice", "str", "dyn"):
                root = ("arg", i)
                self.root_ty[root] = t["e"]
                st.m[root] = self.symval(N("S", nm, t["e"]), t["e"])
                av.append(self.G1(NT("R", root, ())))
            elif t["k"] in ("ref", "ptr"):
                root = ("arg", i)
                self.root_ty[root] = t["e"]
                st.m[root] = self.symval(N("S", nm, t["e"]), t["e"])
                av.append(self.G1(NT("R", root, ())))
            else:
                av.append(self.symval(N("S", nm, ty), ty))
        self.init = dict(st.m)
        self.argvals = av
        rv, out = self.call_inst(inst, av, st, inst["body"]["span"])
        r = Result()
        r.ret = rv
        r.st = out
        r.g = out.g if out else 0
        r.retty = body["locals"][0]
        r.events = self.events
        r.panics = self.panics
        return r

    # ------------------------------------------------------------ queries
    def theory(self, M):
        """Is the assignment M (atom -> bool) consistent with integer order
        and with equal arguments giving equal results?  Returns None if so,
        else an inconsistent subset of M's literals."""
        lits = tuple(sorted(M.items()))
        c = self._thc.get(lits, 0)
        if c != 0:
            return c
        r = self.theory0(dict(M), 0)
        if r is not None:
            r = self.shrink(r)
        self._thc[lits] = r
        return r

    def shrink(self, core):
        core = set(core)
        for l in sorted(core):
            c2 = dict(core - {l})
            if len(c2) < len(core) and self.theory0(c2, 0) is not None:
                core.discard(l)
        return frozenset(core)

    def theory0(self, M, depth):
        facts, terms, where = [], {}, {}
        for i, pol in M.items():
            a = self.atoms[i]
            if a[0] == "thr":
                _, d = self.lin(a[1])
                if pol:
                    facts.append((d, a[2] - 1, frozenset([(i, True)])))
                else:
                    facts.append(({t: -k for t, k in d.items()}, -a[2], frozenset([(i, False)])))
                for t in d:
                    terms.setdefault(t, 1)
            else:
                terms.setdefault(a[1], 1)
                where.setdefault(a[1], []).append((a, i, pol))
        for t in terms:
            if t.k in "SPX" and self.nonneg(t):
                facts.append(({t: -1}, 0, frozenset()))
        core = self.fm(facts)
        if core is None and any(abs(k) > 1 << 60 for _, k, _ in facts):
            # where overflow matters, so does how large a value can be
            for t in terms:
                if t.k in "SPX" and self.nonneg(t):
                    ty = self.symty_of(t)
                    if ty is not None and self.prog.types[ty]["n"] in ("u64", "usize"):
                        facts.append(({t: 1}, (1 << 64) - 1, frozenset()))
            core = self.fm(facts)
        if core is not None:
            return core
        # congruence
        heads = {}
        for t in terms:
            u = t
            k = ()
            while isinstance(u, Node) and u.k == "P":
                k += u.a[1:]
                u = u.a[0]
            if isinstance(u, Node) and u.k == "X" and len(u.a) > 2 and not str(u.a[0]).startswith("iter"):
                heads.setdefault((u.a[0], len(u.a), k), []).append((t, u))
        eqs = []
        for l in heads.values():
            if len(l) < 2 or len(l) > 12:
                continue
            for x in range(len(l)):
                for y in range(x + 1, len(l)):
                    if l[x][1] is l[y][1]:
                        continue
                    E = self.teqargs(l[x][1], l[y][1])
                    if E == 0:
                        continue
                    eqs.append((l[x][0], l[y][0], E))
        for t, u, E in eqs:
            r = E
            why = set()
            while r > 1:
                v = self.b.var[r]
                if v not in M:
                    break
                why.add((v, M[v]))
                r = self.b.hi[r] if M[v] else self.b.lo[r]
            if r == 0:
                continue
            if r > 1:
                if depth > 14:
                    continue
                v = self.b.var[r]
                core = set()
                for pol in (False, True):
                    c1 = self.theory0({**M, v: pol}, depth + 1)
                    if c1 is None:
                        return None
                    if (v, pol) not in c1:
                        return c1
                    core |= c1 - {(v, pol)}
                return frozenset(core)
            # t = u because of `why`
            for a, i, pol in where.get(t, ()):
                for a2, j, pol2 in where.get(u, ()):
                    if a[0] == a2[0] and a[2:] == a2[2:] and pol != pol2:
                        return frozenset(why | {(i, pol), (j, pol2)})
            w = frozenset(why)
            facts.append(({t: 1, u: -1}, 0, w))
            facts.append(({t: -1, u: 1}, 0, w))
        return self.fm(facts) if eqs else None

    def fm(self, facts):
        """Fourier-Motzkin over facts (linear form, bound, reasons): form <= bound.
        Returns the reasons of a contradiction, or None."""
        from math import gcd
        cur = {}

        def put(dst, d, k, why):
            if not d:
                return why if k < 0 else None
            g = 0
            for x in d.values():
                g = gcd(g, abs(x))
            if g > 1:
                d = {t: x // g for t, x in d.items()}
                k = k // g
            key = tuple(sorted((t.id, x) for t, x in d.items()))
            o = dst.get(key)
            if o is None or k < o[1] or (k == o[1] and len(why) < len(o[2])):
                dst[key] = (d, k, why)
            return None
        for d, k, why in facts:
            r = put(cur, d, k, why)
            if r is not None:
                return r
        for _ in range(60):
            count = {}
            for d, k, why in cur.values():
                for t, x in d.items():
                    p, n = count.get(t, (0, 0))
                    count[t] = (p + (x > 0), n + (x < 0))
            if not count:
                return None
            t = min(count, key=lambda t: (count[t][0] * count[t][1] - sum(count[t]), t.id))
            nxt = {}
            pos, neg = [], []
            for key, f in cur.items():
                x = f[0].get(t, 0)
                if x == 0:
                    nxt[key] = f
                elif x > 0:
                    pos.append(f)
                else:
                    neg.append(f)
            for d1, k1, w1 in pos:
                for d2, k2, w2 in neg:
                    x, y = d1[t], -d2[t]
                    d = {}
                    for q, z in d1.items():
                        d[q] = z * y
                    for q, z in d2.items():
                        d[q] = d.get(q, 0) + z * x
                    d = {q: z for q, z in d.items() if z}
                    r = put(nxt, d, k1 * y + k2 * x, w1 | w2)
                    if r is not None:
                        return r
            if len(nxt) > 600:
                return None
            cur = nxt
        return None

    def teqargs(self, a, b):
        r = 1
        for x, y in zip(a.a[2:], b.a[2:]):
            r = self.b.AND(r, self.aeq(x, y))
            if r == 0:
                break
        return r

    def sat(self, g, care=1):
        """g & care, without some impossible cases; 0 if infeasible.  Its
        shortest satisfying assignment is possible."""
        B = self.b
        g = B.AND(B.AND(g, care), self.assume)
        key = g
        if key in self._satc:
            return self._satc[key]
        n = 0
        while g:
            M = B.one(g)
            core = self.theory(M)
            if core is None:
                break
            c = 0
            for v, pol in core:
                c = B.OR(c, B.NOT(B.mkvar(v)) if pol else B.mkvar(v))
            g = B.AND(g, c)
            n += 1
            if n > 4000:
                raise Imprecise("too many cases")
        self._satc[key] = g
        return g

    def implies(self, g, h, care=1):
        return self.sat(self.b.AND(g, self.b.NOT(h)), care) == 0

    def equiv(self, g, h, care=1):
        return self.sat(self.b.XOR(g, h), care) == 0

    def same(self, a, b, pc=1, care=1):
        """0 if values a and b agree whenever pc & care; otherwise a guard
        witnessing a difference."""
        return self.sat(self.b.AND(pc, self.vneq(a, b)), care)

    def explain(self, g):
        d = self.b.one(g)
        if d is None:
            return "never"
        return " & ".join(self.ppatom(v, pol) for v, pol in sorted(d.items()))


def signed(d, t):
    # discriminants are dumped as u128
    if d >> 127:
        return d - (1 << 128)
    for bits in (8, 16, 32, 64):
        pass
    if t["n"].endswith("cmp::Ordering") and d == 255:
        return -1
    return d


class Frame:
    pass


class LoopRec:
    phis = {}
    cont = 0


class Call:
    def __init__(self, inst, fty, args, atys, dty, span, fr):
        self.inst, self.fty, self.args, self.atys, self.dty, self.span, self.fr = inst, fty, args, atys, dty, span, fr


class CFG:
    def __init__(self, body):
        self.succ = []
        for bb in body["bbs"]:
            t = bb["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["to"]]
            elif k == "switch":
                s = []
                for _, x in t["br"]:
                    if x not in s:
                        s.append(x)
                if t["else"] not in s:
                    s.append(t["else"])
            elif k == "call":
                s = [t["to"]] if t["to"] is not None else []
            else:
                s = []
            self.succ.append(s)
        self.reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in self.reach:
                continue
            self.reach.add(x)
            st.extend(self.succ[x])
        self._c = {}

    def selfloop(self, b, header):
        return b in self.succ[b] and b != header

    def order(self, blocks, entry, header):
        key = (blocks, entry, header)
        if key in self._c:
            return self._c[key]
        # Tarjan SCC restricted to blocks, ignoring edges to header
        index = {}
        low = {}
        onst = set()
        stack = []
        sccs = []
        ctr = [0]

        def succ(x):
            return [y for y in self.succ[x] if y in blocks and y != header]

        def strong(v):
            work = [(v, iter(succ(v)))]
            index[v] = low[v] = ctr[0]
            ctr[0] += 1
            stack.append(v)
            onst.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = ctr[0]
                        ctr[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter(succ(w))))
                        adv = True
                        break
                    elif w in onst:
                        low[u] = min(low[u], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    c = set()
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        c.add(w)
                        if w == u:
                            break
                    sccs.append(frozenset(c))
        strong(entry)
        sccs.reverse()
        r = (None, sccs)
        self._c[key] = r
        return r

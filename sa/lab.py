"""Law bench: state algebraic laws over the analysed functions and decide them
by value-flow comparison.

A `Lab` owns an engine and an abstract state.  `sym` makes an unconstrained
value, `call` looks a function of the crate up and pushes the state through it,
and the `eq`/`implies` queries compare the guarded values that come out.  A law
never mentions a body: it relates the results of calls, so it is insensitive to
how the body is written."""
import re
from gvf import Engine, St, N, NT, UNDEF, Imprecise, MissingAnchor, pp, Event


class Lab:
    born = None     # called before each new one is made, with it

    def __init__(self, prog, opaque=(), models=None, maxwork=400000):
        if Lab.born:
            Lab.born(self)
        self.prog = prog
        self.opq = [re.compile(p) for p in opaque]
        self.e = Engine(prog, opaque=self._opaque, models=models, maxwork=maxwork)
        self.b = self.e.b
        self.st = St(1, {})
        self.n = 0
        self.care = 1
        self._oc = {}

    def _opaque(self, inst):
        r = self._oc.get(inst["id"])
        if r is None:
            r = any(p.fullmatch(inst["def"]) for p in self.opq)
            self._oc[inst["id"]] = r
        return r

    # ---- types, functions
    def ty(self, name):
        """type index by (suffix of) its printed name"""
        t = self.prog.ty_by_name.get(name)
        if t is not None:
            return t
        l = [i for n, i in self.prog.ty_by_name.items() if n == name or n.endswith("::" + name)]
        if not l:
            raise MissingAnchor("type " + name)
        return l[0]

    def fn(self, pat):
        if isinstance(pat, dict):
            return pat
        l = self.prog.find(pat)
        if not l:
            raise MissingAnchor("function " + pat)
        if len(l) > 1:
            d = {i["id"] for i in l}
            if len(d) > 1:
                raise MissingAnchor(f"function {pat} is ambiguous: " + ", ".join(i["n"] for i in l[:4]))
        return l[0]

    # ---- values
    def sym(self, name, ty):
        if isinstance(ty, str):
            ty = self.ty(ty)
        return self.e.symval(N("S", name, ty), ty)

    def place(self, name, ty, val=None):
        """a memory root holding `val` (or a fresh symbol); returns the root"""
        if isinstance(ty, str):
            ty = self.ty(ty)
        root = ("arg", name)
        self.e.root_ty[root] = ty
        self.st.m[root] = val if val is not None else self.e.symval(N("S", name, ty), ty)
        return root

    def ref(self, root):
        return self.e.G1(NT("R", root, ()))

    def get(self, root, st=None):
        return self.e.root_value(st or self.st, root)

    def rootty(self, root):
        return self.e.root_ty[root]

    def f(self, v, ty, path):
        """v.<path> by field names"""
        for p in path.split("."):
            if isinstance(ty, str):
                ty = self.ty(ty)
            t = self.prog.types[ty]
            names = self.prog.field_names(ty)
            if p not in names:
                raise MissingAnchor(f"field {p} of {t['n']}")
            i = names.index(p)
            v = self.e.getf(v, ty, 0, i)
            ty = self.prog.field_ty(ty, 0, i)
        return v

    def fty(self, ty, path):
        for p in path.split("."):
            if isinstance(ty, str):
                ty = self.ty(ty)
            names = self.prog.field_names(ty)
            if p not in names:
                raise MissingAnchor(f"field {p} of {self.prog.types[ty]['n']}")
            ty = self.prog.field_ty(ty, 0, names.index(p))
        return ty

    def variant(self, ty, name):
        for i, v in enumerate(self.prog.types[ty]["vs"]):
            if v["n"] == name:
                return i
        raise MissingAnchor(f"variant {name} of {self.prog.types[ty]['n']}")

    def isv(self, v, ty, name):
        """guard: v is variant `name`"""
        k = self.variant(ty, name)
        v = self.e.expand(v, ty)
        if v is UNDEF:
            return 0
        for vv, g, fs in v.a[1]:
            if vv == k:
                return g
        return 0

    def payload(self, v, ty, name, i=0):
        k = self.variant(ty, name)
        v = self.e.expand(v, ty)
        return self.e.getf(v, ty, k, i)

    def G(self, v):
        """guard of a bool value"""
        if v.k == "B":
            return v.a[0]
        return self.e.eqc(v, 1)

    # ---- calls
    def call(self, pat, *args, state=None, g=None):
        """Push the (given) state through a call; returns (value, state)."""
        inst = self.fn(pat)
        st = state or self.st
        s = St(st.g if g is None else self.b.AND(st.g, g), dict(st.m))
        self.e.top += 1
        rv, out = self.e.call_inst(inst, list(args), s, inst["body"]["span"])
        return rv, out, inst["body"]["locals"][0]

    def do(self, pat, *args):
        rv, out, ty = self.call(pat, *args)
        if out is None:
            out = St(0, {})
            rv = UNDEF
        self.st = out
        return rv

    def pure(self, pat, *args, state=None):
        """value of a call evaluated on a copy of the state (nothing recorded)"""
        ev, pa = self.e.events, self.e.panics
        self.e.events, self.e.panics = [], []
        try:
            rv, out, ty = self.call(pat, *args, state=St(1, dict((state or self.st).m)))
        finally:
            self.e.events, self.e.panics = ev, pa
        return rv if rv is not None else UNDEF

    # ---- queries
    def AND(self, *gs):
        r = 1
        for g in gs:
            r = self.b.AND(r, g)
        return r

    def OR(self, *gs):
        r = 0
        for g in gs:
            r = self.b.OR(r, g)
        return r

    def NOT(self, g):
        return self.b.NOT(g)

    def assume(self, g):
        self.care = self.b.AND(self.care, g)

    def equiv(self, g, h, care=1):
        return self.e.equiv(g, h, self.AND(care, self.care))

    def implies(self, g, h, care=1):
        return self.e.implies(g, h, self.AND(care, self.care))

    def diff(self, a, b, pc=1):
        """0 if the values agree under pc, else a witness guard"""
        return self.e.same(a, b, pc, self.care)

    def nowhere(self, anchor, ty):
        """when an (inner) anchor is the one of the document's bounds, which belongs to nobody's text"""
        z = self.e.eqc(self.f(anchor, ty, "replica_id"), 0)
        self.assume(self.OR(self.NOT(z), self.AND(self.e.eqc(self.f(anchor, ty, "offset"), 0), self.e.eqc(self.f(anchor, ty, "contained_in"), 0))))
        return z

    def feasible(self, g):
        return self.e.sat(g, self.care)

    def why(self, g):
        w = self.e.sat(g, self.care) or g
        s = self.e.explain(w)
        return s if len(s) < 1500 else s[:1500] + " ..."


def trunc(v, n=300):
    s = pp(v)
    return s if len(s) <= n else s[:n] + "…"

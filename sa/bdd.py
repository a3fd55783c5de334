"""Reduced ordered binary decision diagrams: the guard algebra of the
value-flow analysis.  Nodes are ints; 0 is false, 1 is true."""
import sys
sys.setrecursionlimit(20000)


class BDD:
    def __init__(self):
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.memo = {}
        self.sup = {0: frozenset(), 1: frozenset()}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def mkvar(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if f == g:
            g = 1
        elif f == h:
            h = 0
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        V = self.var
        v = min(V[f], V[g], V[h])
        f0, f1 = (self.lo[f], self.hi[f]) if V[f] == v else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if V[g] == v else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if V[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def AND(self, f, g):
        return self.ite(f, g, 0)

    def OR(self, f, g):
        return self.ite(f, 1, g)

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def XOR(self, f, g):
        return self.ite(f, self.NOT(g), g)

    def IMP(self, f, g):
        return self.ite(f, g, 1)

    def constrain(self, f, c, _m=None):
        """Coudert/Madre restrict: simplify f under care-set c."""
        if c == 0:
            return 0
        if _m is None:
            _m = {}
        return self._restrict(f, c, _m)

    def _restrict(self, f, c, m):
        if c == 1 or f <= 1:
            return f
        k = (f, c)
        r = m.get(k)
        if r is not None:
            return r
        V = self.var
        if V[c] < V[f]:
            r = self._restrict(f, self.OR(self.lo[c], self.hi[c]), m)
        else:
            v = V[f]
            f0, f1 = self.lo[f], self.hi[f]
            c0, c1 = (self.lo[c], self.hi[c]) if V[c] == v else (c, c)
            if c0 == 0:
                r = self._restrict(f1, c1, m)
            elif c1 == 0:
                r = self._restrict(f0, c0, m)
            else:
                r = self.mk(v, self._restrict(f0, c0, m), self._restrict(f1, c1, m))
        m[k] = r
        return r

    def support(self, f):
        s = self.sup.get(f)
        if s is not None:
            return s
        seen = set()
        out = set()
        st = [f]
        while st:
            n = st.pop()
            if n <= 1 or n in seen:
                continue
            seen.add(n)
            out.add(self.var[n])
            st.append(self.lo[n])
            st.append(self.hi[n])
        s = frozenset(out)
        self.sup[f] = s
        return s

    def one(self, f):
        """A shortest satisfying partial assignment, or None."""
        if f == 0:
            return None
        m = {1: 0, 0: 1 << 30}
        st = [f]
        while st:
            n = st[-1]
            if n in m:
                st.pop()
                continue
            a, b = self.lo[n], self.hi[n]
            if a in m and b in m:
                m[n] = 1 + min(m[a], m[b])
                st.pop()
            else:
                st.extend(x for x in (a, b) if x not in m)
        d = {}
        while f != 1:
            if m[self.hi[f]] <= m[self.lo[f]]:
                d[self.var[f]] = True
                f = self.hi[f]
            else:
                d[self.var[f]] = False
                f = self.lo[f]
        return d

    def cofactor(self, f, v, b):
        k = ('cf', f, v, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        if f <= 1 or self.var[f] > v:
            r = f
        elif self.var[f] == v:
            r = self.hi[f] if b else self.lo[f]
        else:
            r = self.mk(self.var[f], self.cofactor(self.lo[f], v, b), self.cofactor(self.hi[f], v, b))
        self.memo[k] = r
        return r

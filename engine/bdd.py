"""Reduced ordered binary decision diagrams.

The abstract domain of the value-flow analysis: every guard and every bit of an integer is a
canonical boolean function of the symbolic inputs.  A variable's integer key is its place in the
order, so variables can be created at any time (bits of the same weight sit next to each other).
"""
import sys

sys.setrecursionlimit(200000)


class TooBig(Exception):
    pass


class BDD:
    F, T = 0, 1

    def __init__(self, limit=6_000_000):
        inf = 1 << 62
        self.var = [inf, inf]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.cand = {}
        self.cxor = {}
        self.cnot = {0: 1, 1: 0}
        self.cite = {}
        self.names = {}
        self.count = 0
        self.limit = limit

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            if n > self.limit:
                raise TooBig("guard functions grew beyond the analysis limit")
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def new(self, name, weight=None):
        """A fresh variable; `weight` is its bit position (MSB first in the order), None = flag."""
        self.count += 1
        w = 0 if weight is None else 100 - weight
        if "#" in name or "(" in name:      # results of uninterpreted functions: below the inputs
            w += 101
        key = w * 10_000_000 + self.count
        self.names[key] = name
        return self.mk(key, 0, 1)

    def not_(self, f):
        r = self.cnot.get(f)
        if r is None:
            r = self.mk(self.var[f], self.not_(self.lo[f]), self.not_(self.hi[f]))
            self.cnot[f] = r
            self.cnot[r] = f
        return r

    def and_(self, f, g):
        if f == 0 or g == 0:
            return 0
        if f == 1:
            return g
        if g == 1 or f == g:
            return f
        if f > g:
            f, g = g, f
        k = (f, g)
        r = self.cand.get(k)
        if r is None:
            vf, vg = self.var[f], self.var[g]
            if vf == vg:
                r = self.mk(vf, self.and_(self.lo[f], self.lo[g]), self.and_(self.hi[f], self.hi[g]))
            elif vf < vg:
                r = self.mk(vf, self.and_(self.lo[f], g), self.and_(self.hi[f], g))
            else:
                r = self.mk(vg, self.and_(f, self.lo[g]), self.and_(f, self.hi[g]))
            self.cand[k] = r
        return r

    def or_(self, f, g):
        if f == 1 or g == 1:
            return 1
        if f == 0:
            return g
        if g == 0 or f == g:
            return f
        return self.not_(self.and_(self.not_(f), self.not_(g)))

    def xor(self, f, g):
        if f == g:
            return 0
        if f == 0:
            return g
        if g == 0:
            return f
        if f == 1:
            return self.not_(g)
        if g == 1:
            return self.not_(f)
        if f > g:
            f, g = g, f
        k = (f, g)
        r = self.cxor.get(k)
        if r is None:
            vf, vg = self.var[f], self.var[g]
            if vf == vg:
                r = self.mk(vf, self.xor(self.lo[f], self.lo[g]), self.xor(self.hi[f], self.hi[g]))
            elif vf < vg:
                r = self.mk(vf, self.xor(self.lo[f], g), self.xor(self.hi[f], g))
            else:
                r = self.mk(vg, self.xor(f, self.lo[g]), self.xor(f, self.hi[g]))
            self.cxor[k] = r
        return r

    def xnor(self, f, g):
        return self.not_(self.xor(f, g))

    def imp(self, f, g):
        return self.or_(self.not_(f), g)

    def ite(self, c, a, b):
        if c == 1 or a == b:
            return a
        if c == 0:
            return b
        if a == 1 and b == 0:
            return c
        if a == 0 and b == 1:
            return self.not_(c)
        if a == 1 or a == c:
            return self.or_(c, b)
        if a == 0:
            return self.and_(self.not_(c), b)
        if b == 0 or b == c:
            return self.and_(c, a)
        if b == 1:
            return self.or_(self.not_(c), a)
        k = (c, a, b)
        r = self.cite.get(k)
        if r is None:
            var, lo, hi = self.var, self.lo, self.hi
            v = min(var[c], var[a], var[b])
            c0, c1 = (lo[c], hi[c]) if var[c] == v else (c, c)
            a0, a1 = (lo[a], hi[a]) if var[a] == v else (a, a)
            b0, b1 = (lo[b], hi[b]) if var[b] == v else (b, b)
            r = self.mk(v, self.ite(c0, a0, b0), self.ite(c1, a1, b1))
            self.cite[k] = r
        return r

    def conj(self, fs):
        r = 1
        for f in fs:
            r = self.and_(r, f)
            if r == 0:
                break
        return r

    def disj(self, fs):
        r = 0
        for f in fs:
            r = self.or_(r, f)
            if r == 1:
                break
        return r

    def simplify(self, f, c, memo=None):
        """Coudert-Madre restrict: some g with g&c == f&c, usually smaller (c != 0)."""
        if c == 1 or f < 2:
            return f
        if memo is None:
            memo = {}
        k = (f, c)
        r = memo.get(k)
        if r is not None:
            return r
        vf, vc = self.var[f], self.var[c]
        if vc < vf:
            r = self.simplify(f, self.or_(self.lo[c], self.hi[c]), memo)
        elif vf < vc:
            r = self.mk(vf, self.simplify(self.lo[f], c, memo), self.simplify(self.hi[f], c, memo))
        elif self.lo[c] == 0:
            r = self.simplify(self.hi[f], self.hi[c], memo)
        elif self.hi[c] == 0:
            r = self.simplify(self.lo[f], self.lo[c], memo)
        else:
            r = self.mk(vf, self.simplify(self.lo[f], self.lo[c], memo),
                        self.simplify(self.hi[f], self.hi[c], memo))
        memo[k] = r
        return r

    def cofactor(self, f, v, val):
        memo = {}

        def go(n):
            if self.var[n] > v:
                return n
            if n in memo:
                return memo[n]
            if self.var[n] == v:
                r = self.hi[n] if val else self.lo[n]
            else:
                r = self.mk(self.var[n], go(self.lo[n]), go(self.hi[n]))
            memo[n] = r
            return r
        return go(f)

    def exists(self, f, vs):
        vs = frozenset(vs)
        memo = {}

        def go(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            a, b = go(self.lo[n]), go(self.hi[n])
            r = self.or_(a, b) if self.var[n] in vs else self.mk_any(self.var[n], a, b)
            memo[n] = r
            return r
        return go(f)

    def mk_any(self, v, lo, hi):
        return self.mk(v, lo, hi)

    def substitute(self, f, m):
        """Simultaneous substitution of variables (key -> function)."""
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                a, b = go(self.lo[n]), go(self.hi[n])
                c = m.get(self.var[n])
                if c is None:
                    c = self.mk(self.var[n], 0, 1)
                r = self.ite(c, b, a)
                memo[n] = r
            return r
        return go(f)

    def support(self, *fs):
        seen, out, st = set(), set(), list(fs)
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            out.add(self.var[n])
            st.append(self.lo[n])
            st.append(self.hi[n])
        return out

    def sat_one(self, f):
        """One satisfying assignment {name: 0/1} preferring zeros."""
        out = {}
        while f > 1:
            if self.lo[f] != 0:
                out[self.names[self.var[f]]] = 0
                f = self.lo[f]
            else:
                out[self.names[self.var[f]]] = 1
                f = self.hi[f]
        return out

    def size(self, f):
        seen, st = set(), [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            st += [self.lo[n], self.hi[n]]
        return len(seen)

    def eval(self, f, asg):
        """Value under {name: 0/1}; unnamed variables are 0."""
        while f > 1:
            f = self.hi[f] if asg.get(self.names[self.var[f]]) else self.lo[f]
        return f

"""Polynomials with rational coefficients over named variables: the independent oracle for derivatives."""
from fractions import Fraction
import z3


class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def var(n): return Poly({(n,): Fraction(1)})

    @staticmethod
    def const(c): return Poly({(): Fraction(c)}) if c else Poly()

    @staticmethod
    def of(v): return v if isinstance(v, Poly) else Poly.const(v)

    def __add__(self, o):
        o = Poly.of(o)
        t = dict(self.t)
        for k, c in o.t.items():
            s = t.get(k, 0) + c
            if s:
                t[k] = s
            else:
                t.pop(k, None)
        return Poly(t)
    __radd__ = __add__

    def __neg__(self): return Poly({k: -c for k, c in self.t.items()})
    def __sub__(self, o): return self + (-Poly.of(o))
    def __rsub__(self, o): return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        t = {}
        for a, c in self.t.items():
            for b, d in o.t.items():
                k = tuple(sorted(a + b))
                s = t.get(k, 0) + c * d
                if s:
                    t[k] = s
                else:
                    t.pop(k, None)
        return Poly(t)
    __rmul__ = __mul__

    def diff(self, n):
        t = {}
        for k, c in self.t.items():
            m = k.count(n)
            if m:
                i = k.index(n)
                kk = k[:i] + k[i + 1:]
                t[kk] = t.get(kk, 0) + c * m
        return Poly(t)

    def subs(self, d):
        """replace variables by polynomials"""
        r = Poly()
        for k, c in self.t.items():
            f = Poly.const(c)
            keep = []
            for v in k:
                if v in d:
                    f = f * d[v]
                else:
                    keep.append(v)
            r = r + f * Poly({tuple(keep): Fraction(1)})
        return r

    def z3(self):
        s = []
        for k, c in self.t.items():
            f = [z3.RealVal(str(c))] + [z3.Real(v) for v in k]
            s.append(z3.Product(f) if len(f) > 1 else f[0])
        return z3.Sum(s) if s else z3.RealVal(0)

    def sx(self, env, zero):
        s = zero
        for k, c in self.t.items():
            f = float(c)
            for v in k:
                f = f * env[v]
            s = s + f
        return s

    def value(self, env):
        s = 0.0
        for k, c in self.t.items():
            f = float(c)
            for v in k:
                f *= env[v]
            s += f
        return s


def jac(F, names): return [[f.diff(n) for n in names] for f in F]
def tr(M, rows=0): return [list(r) for r in zip(*M)] if M else [[] for _ in range(rows)]
def grad(f, names): return [[f.diff(n)] for n in names]
def hess(f, names): return [[f.diff(a).diff(b) for b in names] for a in names]
def dot(a, b):
    s = Poly()
    for x, y in zip(a, b):
        s = s + x * y
    return s
def mul(A, B):
    Bt = tr(B)
    return [[dot(r, c) for c in Bt] for r in A]

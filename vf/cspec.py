"""Vocabulary shared by the C checks: dimensions, ranges, norms."""
import z3
from .ccheck import nonneg_ints
from .csym import R, I

NLP_FIELDS = ("nx", "nu", "ns", "ni", "nz")
QP_FIELDS = ("nx", "nu", "nb", "nbx", "nbu", "ng", "ns", "nbxe", "nbue", "nge")


def absv(x):
    return z3.If(x >= 0, x, -x)


def maxv(a, b):
    return z3.If(a >= b, a, b)


def nlp_axioms(key, idx, t):
    """dimensions are nonnegative; nv = nx + nu + 2 ns; in a QP dimension nb = nbx + nbu"""
    out = list(nonneg_ints(key, idx, t))
    if t.sort() != z3.IntSort() or len(key) < 4:
        return out
    g = lambda f: z3.Function(".".join(key[:-3] + (f,) + key[-2:]), *[z3.IntSort()] * len(idx), z3.IntSort())(*idx)
    if key[-3] == "nv":
        out += [t == g("nx") + g("nu") + 2 * g("ns"), g("nx") >= 0, g("nu") >= 0, g("ns") >= 0]
    if key[-3] == "nb":
        out += [t == g("nbx") + g("nbu"), g("nbx") >= 0, g("nbu") >= 0]
    return out


def ndims(*roots, N=True):
    """normaliser of concrete dimensions (0..3, nv consistent) for the ocp_nlp_dims at the given parameters"""
    def f(mem, sc):
        for name in roots:
            g = lambda q, *i: mem.current((name, "[]") + ((q, "*", "[]") if i else (q,)), (0,) + i)
            mem.set((name, "[]", "N"), (0,), min(3, max(1, g("N"))))
            for i in range(5):
                for q in NLP_FIELDS:
                    mem.set((name, "[]", q, "*", "[]"), (0, i), min(3, max(0, g(q, i))))
                mem.set((name, "[]", "nv", "*", "[]"), (0, i), g("nx", i) + g("nu", i) + 2 * g("ns", i))
    return f


def qdims(*paths):
    """normaliser for HPIPM dimensions at access paths such as ("qp_in", "[]", "dim", "*", "[]")"""
    def f(mem, sc):
        for path in paths:
            path = tuple(path)
            z = (0,) * sum(1 for e in path if e.startswith("["))
            g = lambda q, *i: mem.current(path + ((q, "*", "[]") if i else (q,)), z + i)
            mem.set(path + ("N",), z, min(3, max(1, g("N"))))
            for i in range(5):
                for q in ("nx", "nu", "nbx", "nbu", "ng", "ns"):
                    mem.set(path + (q, "*", "[]"), z + (i,), min(2, max(0, g(q, i))))
                mem.set(path + ("nb", "*", "[]"), z + (i,), g("nbx", i) + g("nbu", i))
    return f


def both(*fs):
    def f(*a):
        for g in fs:
            g(*a)
    return f


def setN(name="dims", path=None):
    def f(mem, sc, rng):
        if path:
            mem.set(tuple(path) + ("N",), (0,) * sum(1 for e in path if e.startswith("[")), rng.randint(1, 3))
        else:
            mem.set((name, "[]", "N"), (0,), rng.randint(1, 3))
    return f


def rng(lo, x, hi):
    return [x >= lo, x < hi]


class D:
    """dimension accessors of a spec"""

    def __init__(self, sp, path="dims"):
        self.sp, self.path = sp, path

    @property
    def N(self):
        return self.sp.num(f"{self.path}->N")

    def __getattr__(self, f):
        return lambda i: self.sp.num(f"{self.path}->{f}[i]", i=i)

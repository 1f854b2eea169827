"""CasADi SX expression graphs -> z3 real terms (exact; transcendental functions uninterpreted)."""
import z3
import casadi as ca
from .core import Unsupported
from .pysym import SymBool, SymNum, Engine, lift, isinstance_real, _unify

_UF = {}


def uf(name, n):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UF[k]


def _b2r(c):
    return z3.If(c, z3.RealVal(1), z3.RealVal(0))


def _const(v):
    import math
    from fractions import Fraction
    if math.isinf(v):
        return z3.Real("INF") if v > 0 else -z3.Real("INF")
    if math.isnan(v):
        return z3.Real("NAN")
    f = Fraction(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def convert(exprs, env, const=None):
    """exprs: list of SX (any shapes); env: list of (SX symbol vector, [z3 terms]).
    Returns for each expr the column-major list of z3 terms of its dense entries."""
    exprs = [ca.densify(ca.SX(e)) for e in exprs]
    ins = [ca.SX(s) for s, _ in env]
    F = ca.Function("F", ins, exprs, {"allow_free": False})
    constf = const or _const
    work = {}
    out = [[None] * e.numel() for e in exprs]
    for k in range(F.n_instructions()):
        op = F.instruction_id(k)
        o, i = F.instruction_output(k), F.instruction_input(k)
        if op == ca.OP_CONST:
            work[o[0]] = constf(F.instruction_constant(k))
            continue
        if op == ca.OP_INPUT:
            work[o[0]] = env[i[0]][1][i[1]]
            continue
        if op == ca.OP_OUTPUT:
            out[o[0]][o[1]] = work[i[0]]
            continue
        a = work[i[0]]
        b = work[i[1]] if len(i) > 1 else None
        if op == ca.OP_ASSIGN: r = a
        elif op == ca.OP_ADD: r = a + b
        elif op == ca.OP_SUB: r = a - b
        elif op == ca.OP_MUL: r = a * b
        elif op == ca.OP_DIV: r = a / b
        elif op == ca.OP_NEG: r = -a
        elif op == ca.OP_SQ: r = a * a
        elif op == ca.OP_TWICE: r = 2 * a
        elif op == ca.OP_INV: r = 1 / a
        elif op == ca.OP_LT: r = _b2r(a < b)
        elif op == ca.OP_LE: r = _b2r(a <= b)
        elif op == ca.OP_EQ: r = _b2r(a == b)
        elif op == ca.OP_NE: r = _b2r(a != b)
        elif op == ca.OP_NOT: r = _b2r(a == 0)
        elif op == ca.OP_AND: r = _b2r(z3.And(a != 0, b != 0))
        elif op == ca.OP_OR: r = _b2r(z3.Or(a != 0, b != 0))
        elif op == ca.OP_FABS: r = z3.If(a >= 0, a, -a)
        elif op == ca.OP_SIGN: r = z3.If(a > 0, z3.RealVal(1), z3.If(a < 0, z3.RealVal(-1), z3.RealVal(0)))
        elif op == ca.OP_FMIN: r = z3.If(a <= b, a, b)
        elif op == ca.OP_FMAX: r = z3.If(a >= b, a, b)
        elif op == ca.OP_IF_ELSE_ZERO: r = z3.If(a != 0, b, z3.RealVal(0))
        elif op in _NAMED: r = uf(_NAMED[op], 2 if b is not None else 1)(*([a, b] if b is not None else [a]))
        elif op in (ca.OP_POW, ca.OP_CONSTPOW):
            bs = z3.simplify(b if z3.is_expr(b) else b.z3())
            if z3.is_rational_value(bs) and bs.as_fraction().denominator == 1 and 0 <= bs.as_fraction().numerator <= 8:
                r = z3.RealVal(1) if z3.is_expr(a) else 1
                for _ in range(bs.as_fraction().numerator):
                    r = r * a
            else:
                r = uf("pow", 2)(a, b)
        else:
            raise Unsupported(f"SX operation {op}")
        work[o[0]] = r
    return out


_NAMED = {ca.OP_SIN: "sin", ca.OP_COS: "cos", ca.OP_TAN: "tan", ca.OP_EXP: "exp", ca.OP_LOG: "log",
          ca.OP_SQRT: "sqrt", ca.OP_TANH: "tanh", ca.OP_SINH: "sinh", ca.OP_COSH: "cosh",
          ca.OP_ATAN: "atan", ca.OP_ATAN2: "atan2", ca.OP_ASIN: "asin", ca.OP_ACOS: "acos",
          ca.OP_FLOOR: "floor", ca.OP_CEIL: "ceil", ca.OP_ERF: "erf"}


class SXParam:
    """A symbolic scalar float argument: branches on it are explored by the engine, arithmetic
    with it goes to the real CasADi as an SX symbol."""
    _vf_proxy = True

    def __init__(self, name=None, sx=None, t=None, kind=float):
        self.sx = ca.SX.sym(name) if sx is None else sx
        self.t = z3.Real(name) if t is None else t
        self.kind = kind

    @property
    def __class__(self):
        return self.kind

    def __SX__(self):
        return self.sx

    def _other(self, o):
        if isinstance_real(o, SXParam):
            return o.sx, o.t
        if isinstance_real(o, (int, float)):
            return ca.SX(o), lift(float(o))
        if isinstance_real(o, ca.SX):
            return o, None
        import numpy as np
        if isinstance_real(o, (np.generic,)):
            return ca.SX(float(o)), lift(float(o))
        raise Unsupported(f"SXParam with {type(o)}")

    def _ar(self, o, f, swap=False):
        s, t = self._other(o)
        a, b = (s, self.sx) if swap else (self.sx, s)
        r = f(a, b)
        if t is None:
            return r
        x, y = (t, self.t) if swap else (self.t, t)
        return SXParam(sx=r, t=f(x, y))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._ar(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._ar(o, lambda a, b: a / b, True)
    def __neg__(self): return SXParam(sx=-self.sx, t=-self.t)
    def __pos__(self): return self

    def __pow__(self, n):
        if isinstance_real(n, (int, float)) and n == 2:
            return self * self
        raise Unsupported("pow")

    def _cmp(self, o, f):
        s, t = self._other(o)
        if t is None:
            return f(self.sx, s)
        return SymBool(f(self.t, t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance_real(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance_real(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = object.__hash__

    def __bool__(self):
        from .pysym import eng
        return eng().decide(self.t != 0)

    def __abs__(self):
        return SXParam(sx=ca.fabs(self.sx), t=z3.If(self.t >= 0, self.t, -self.t))

    def __format__(self, s): return "<sym>"
    def __repr__(self): return "<sym>"
    def __float__(self): raise Unsupported("float() of a symbolic parameter")


def model_value(m, t):
    from .pysym import to_py
    return to_py(m.eval(t, model_completion=True))

"""Symbolic numpy arrays and CasADi expressions of symbolic size, and the module shims that
let the project's real Python functions run on them.

An array is a shape (ints or symbolic ints) and a content function index -> z3 term.
Reductions become quantifiers over the index range; cumulative sums become a prefix function
with its recursive axiom.  Whatever is not modelled raises Unsupported.
"""
import builtins
import numpy as np
import casadi as ca
import z3
from .core import Unsupported
from .pysym import SymNum, SymBool, eng, lift, isinstance_real, _unify, prove, boolterm


def it(x):
    """int-like -> z3 int term"""
    if isinstance_real(x, SymNum):
        return x.t
    return z3.IntVal(int(x))


def mk(t):
    """z3 int term -> int or SymNum"""
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SymNum(t, int)


def wrap(t):
    if t.sort() == z3.BoolSort():
        return SymBool(t)
    return SymNum(t)


_ctr = [0]


def fresh(stem, sort=None):
    _ctr[0] += 1
    return z3.Const(f"{stem}!v{_ctr[0]}", z3.IntSort() if sort is None else sort)


def in_range(i, n):
    return z3.And(i >= 0, i < it(n))


class SymArr:
    _vf_proxy = True

    def __init__(self, shape, f, tag=None):
        self.shape = tuple(shape)
        self.f = f
        self.tag = tag

    @property
    def __class__(self):
        return np.ndarray

    @staticmethod
    def var(name, rank=1, sort=None):
        sort = z3.RealSort() if sort is None else sort
        fn = z3.Function(name, *([z3.IntSort()] * rank), sort)
        shape = [SymNum.int(f"{name}.n{k}") for k in range(rank)]
        a = SymArr(shape, lambda *i: fn(*i), name)
        a.fn = fn
        return a

    # structure
    @property
    def ndim(self): return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    @property
    def T(self):
        if self.ndim == 1:
            return self
        return SymArr(self.shape[::-1], lambda *i: self.f(*i[::-1]))

    def copy(self): return SymArr(self.shape, self.f)

    def flatten(self, *a):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported("flatten")

    ravel = flatten

    def astype(self, t, *a, **k):
        s = self.f(*[z3.IntVal(0)] * self.ndim).sort()
        if s == z3.IntSort() and t in (int, np.int64, int_shim):
            return self.copy()
        if s == z3.RealSort() and t in (float, np.float64, float_shim):
            return self.copy()
        if t in (int, np.int64, int_shim) and s == z3.RealSort():
            return SymArr(self.shape, lambda *i: trunc(self.f(*i)))
        raise Unsupported("astype")

    def item(self):
        n = self.size
        if isinstance_real(n, SymNum):
            if not eng().decide(n.t == 1):
                raise ValueError("can only convert an array of size 1 to a Python scalar")
        elif n != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return wrap(self.f(*[z3.IntVal(0)] * self.ndim))

    def reshape(self, *shp):
        if len(shp) == 1 and isinstance_real(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        if self.ndim == 1 and len(shp) == 1:
            n = it(self.shape[0])
            if isinstance_real(shp[0], int) and shp[0] == -1:
                return self.copy()
            if not eng().decide(n == it(shp[0])):
                raise ValueError("cannot reshape")
            return SymArr((shp[0],), self.f)
        raise Unsupported("reshape")

    def __len__(self):
        n = self.shape[0]
        return n.concrete() if isinstance_real(n, SymNum) else n

    def __bool__(self):
        n = self.size
        if isinstance_real(n, SymNum):
            n = n.concrete()
        if n == 1:
            return bool(wrap(self.f(*[z3.IntVal(0)] * self.ndim)))
        if n == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    # elements
    def __getitem__(self, k):
        if isinstance_real(k, slice) and self.ndim == 1:
            n = self.shape[0]
            if k.step not in (None, 1):
                raise Unsupported("slice step")
            lo = _bound(k.start, n, 0)
            hi = _bound(k.stop, n, n)
            ln = mk(z3.If(it(hi) > it(lo), it(hi) - it(lo), z3.IntVal(0)))
            return SymArr((ln,), lambda i: self.f(i + it(lo)))
        if isinstance_real(k, (int, SymNum, np.integer)) and self.ndim == 1:
            n, kk = it(self.shape[0]), it(k)
            if eng().decide(z3.And(kk >= 0, kk < n)):
                return wrap(self.f(kk))
            if eng().decide(z3.And(kk < 0, kk >= -n)):
                return wrap(self.f(kk + n))
            raise IndexError("index out of bounds")
        raise Unsupported("indexing")

    def __setitem__(self, k, v):
        if isinstance_real(k, slice) and k == slice(None) and isinstance_real(v, (SymNum, int, float, np.generic)):
            t = lift(v)
            self.f = lambda *i: t
            return
        raise Unsupported("item assignment")

    def __iter__(self):
        n = self.shape[0]
        if isinstance_real(n, SymNum):
            n = n.concrete()          # Unsupported unless pinned on this path
        if self.ndim != 1:
            raise Unsupported("iteration over rows")
        return iter([wrap(self.f(z3.IntVal(i))) for i in range(n)])

    def __contains__(self, v):
        i = fresh("i")
        if self.ndim != 1:
            raise Unsupported("in")
        a, b = _unify(self.f(i), lift(v))
        return bool(SymBool(z3.Exists([i], z3.And(in_range(i, self.shape[0]), a == b))))

    # elementwise
    def _bin(self, o, op, swap=False):
        if isinstance_real(o, (list, np.ndarray)):
            o = to_arr(o)
        if isinstance_real(o, SymArr):
            if o.ndim != self.ndim:
                raise Unsupported("broadcast over rank")
            if self.ndim != 1:
                raise Unsupported("matrix arithmetic")
            n, m = it(self.shape[0]), it(o.shape[0])
            e = eng()
            if not (n.eq(m) or e.decide(n == m)):
                if e.decide(n == 1):
                    g = SymArr(o.shape, lambda *i: self.f(z3.IntVal(0)))
                    return g._bin(o, op, swap)
                if e.decide(m == 1):
                    return self._bin(SymArr(self.shape, lambda *i: o.f(z3.IntVal(0))), op, swap)
                raise ValueError("operands could not be broadcast together")
            g = o.f
        else:
            try:
                t = lift(o)
            except Unsupported:
                return NotImplemented
            g = lambda *i: t

        def h(*i):
            a, b = _unify(self.f(*i), g(*i))
            return op(b, a) if swap else op(a, b)
        return SymArr(self.shape, h)

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: a - b, True)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(s, o):
        if isinstance_real(o, (SymNum, int, float)):
            if eng().decide(z3.simplify(lift(o) == 0)):
                raise Unsupported("array division by zero")
            return s._bin(o, lambda a, b: (z3.ToReal(a) if a.sort() == z3.IntSort() else a) / (z3.ToReal(b) if b.sort() == z3.IntSort() else b))
        raise Unsupported("array division")

    def __mod__(s, o):
        if isinstance_real(o, int) and o == 1:
            def h(*i):
                a = s.f(*i)
                return z3.IntVal(0) if a.sort() == z3.IntSort() else a - z3.ToReal(z3.ToInt(a))
            return SymArr(s.shape, h)
        raise Unsupported("array mod")

    def __neg__(s): return SymArr(s.shape, lambda *i: -s.f(*i))
    def __abs__(s): return SymArr(s.shape, lambda *i: z3.If(s.f(*i) >= 0, s.f(*i), -s.f(*i)))
    def __lt__(s, o): return s._bin(o, lambda a, b: a < b)
    def __le__(s, o): return s._bin(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._bin(o, lambda a, b: a > b)
    def __ge__(s, o): return s._bin(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._bin(o, lambda a, b: a == b)
    def __ne__(s, o): return s._bin(o, lambda a, b: a != b)
    def __or__(s, o): return s._bin(o, lambda a, b: z3.Or(a, b))
    def __and__(s, o): return s._bin(o, lambda a, b: z3.And(a, b))
    def __invert__(s): return SymArr(s.shape, lambda *i: z3.Not(s.f(*i)))
    __hash__ = object.__hash__

    # reductions
    def any(self, *a, **k):
        return SymBool(quant(self, False))

    def all(self, *a, **k):
        return SymBool(quant(self, True))

    def max(self, *a, **k): return extremum(self, 1)
    def min(self, *a, **k): return extremum(self, -1)
    def sum(self, *a, **k): return asum(self)
    def mean(self, *a, **k): return asum(self) / self.shape[0]
    def cumsum(self, *a, **k): return acumsum(self)

    def __repr__(self): return "<sym array>"
    def __format__(self, spec): return "<sym array>"


def _bound(k, n, default):
    if k is None:
        return default
    if isinstance_real(k, SymNum):
        raise Unsupported("symbolic slice bound")
    if k >= 0:
        return mk(z3.If(it(n) < k, it(n), z3.IntVal(k)))
    return mk(z3.If(it(n) + k < 0, z3.IntVal(0), it(n) + k))


def trunc(a):
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def bterm(t):
    return t if t.sort() == z3.BoolSort() else t != 0


def quant(a, universal):
    idx = [z3.Int(f"q!{k}") for k in range(a.ndim)]
    rng = z3.And([in_range(i, n) for i, n in zip(idx, a.shape)])
    body = bterm(a.f(*idx))
    if universal:
        return z3.ForAll(idx, z3.Implies(rng, body))
    return z3.Exists(idx, z3.And(rng, body))


# memo tables so that the same array content gives the same sum / extremum symbol
class Memo:
    tables = {}

    @classmethod
    def reset(cls):
        cls.tables = {}

    @classmethod
    def lookup(cls, kind, a):
        i0 = z3.Int("memo!i")
        t = z3.simplify(a.f(i0))
        n = z3.simplify(it(a.shape[0]))
        for (t2, n2, sym, axioms) in cls.tables.get(kind, []):
            if t2.sort() == t.sort() and t2.eq(t) and (kind == "sum" or n2.eq(n)):
                return sym, axioms
        for (t2, n2, sym, axioms) in cls.tables.get(kind, []):
            if t2.sort() == t.sort():
                s = z3.Solver(); s.set("timeout", 2000)
                s.add(z3.Or(z3.And(i0 >= 0, i0 < n, t2 != t), n2 != n))
                if Engine_cur() is not None:
                    for c in Engine_cur().pc:
                        s.add(c)
                if s.check() == z3.unsat:
                    return sym, axioms
        return None

    @classmethod
    def store(cls, kind, a, sym, axioms):
        i0 = z3.Int("memo!i")
        cls.tables.setdefault(kind, []).append((z3.simplify(a.f(i0)), z3.simplify(it(a.shape[0])), sym, axioms))


def Engine_cur():
    from .pysym import Engine
    return Engine.cur


def _const_in_index(a):
    i1, i2 = z3.Int("ci!1"), z3.Int("ci!2")
    return z3.simplify(a.f(i1)).eq(z3.simplify(a.f(i2)))


def _assume(axioms):
    e = Engine_cur()
    if e is not None:
        for c in axioms:
            if not any(c.eq(d) for d in e.pc):
                e.pc.append(c)
                e.solver.add(c)
    else:
        Memo.pending = getattr(Memo, "pending", []) + list(axioms)


def extremum(a, sign, guard=True):
    if a.ndim != 1:
        raise Unsupported("extremum of a matrix")
    n = it(a.shape[0])
    if guard and not eng().decide(n >= 1):
        raise ValueError("zero-size array to reduction operation")
    if _const_in_index(a):
        return wrap(a.f(z3.IntVal(0)))
    kind = "max" if sign > 0 else "min"
    r = Memo.lookup(kind, a)
    if r is None:
        m = fresh(kind, a.f(z3.IntVal(0)).sort())
        w = fresh(kind + "arg")
        i = z3.Int("q!0")
        v = a.f(i)
        ax = [z3.Implies(n >= 1, z3.And(w >= 0, w < n, a.f(w) == m)),
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), v <= m if sign > 0 else v >= m))]
        Memo.store(kind, a, m, ax)
        r = (m, ax)
    _assume(r[1])
    return wrap(r[0])


def prefix(a):
    """P with P(0)=0, P(i+1)=P(i)+a(i)"""
    r = Memo.lookup("sum", a)
    if r is None:
        s = a.f(z3.IntVal(0)).sort()
        P = z3.Function(f"psum!{len(Memo.tables.get('sum', []))}", z3.IntSort(), s)
        i = z3.Int("q!0")
        ax = [P(z3.IntVal(0)) == (z3.RealVal(0) if s == z3.RealSort() else z3.IntVal(0)),
              z3.ForAll([i], z3.Implies(i >= 0, P(i + 1) == P(i) + a.f(i)), patterns=[P(i + 1)])]
        Memo.store("sum", a, P, ax)
        r = (P, ax)
    return r[0]


def asum(a):
    if a.ndim != 1:
        raise Unsupported("sum of a matrix")
    n = it(a.shape[0])
    if _const_in_index(a):
        c = a.f(z3.IntVal(0))
        return wrap((z3.ToReal(n) if c.sort() == z3.RealSort() else n) * c)
    return wrap(prefix(a)(n))


def acumsum(a):
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    if _const_in_index(a):
        c = a.f(z3.IntVal(0))
        return SymArr(a.shape, lambda i: (z3.ToReal(i + 1) if c.sort() == z3.RealSort() else i + 1) * c)
    P = prefix(a)
    return SymArr(a.shape, lambda i: P(i + 1))


def to_arr(x):
    if isinstance_real(x, SymArr):
        return x
    a = list(x) if not isinstance_real(x, np.ndarray) else x
    if isinstance_real(a, np.ndarray):
        if a.ndim != 1:
            raise Unsupported("matrix constant mixed with symbolic array")
        isint = a.dtype.kind in "iub" 
        vals = [lift(v.item()) for v in a]
        real = a.dtype.kind == "f"
    else:
        if any(isinstance_real(v, (SymArr, list, np.ndarray)) for v in a):
            raise Unsupported("nested list")
        vals = [lift(v) for v in a]
        real = builtins.any(v.sort() == z3.RealSort() for v in vals)
    if real:
        vals = [z3.ToReal(v) if v.sort() == z3.IntSort() else v for v in vals]

    def f(i):
        r = vals[-1] if vals else (z3.RealVal(0))
        for k in range(len(vals) - 2, -1, -1):
            r = z3.If(i == k, vals[k], r)
        return r
    return SymArr((len(vals),), f)


class SymCasadi:
    """A CasADi SX expression of symbolic shape; only its shape is observable."""
    _vf_proxy = True

    def __init__(self, name, rank=1):
        self.tag = name
        self.shape = (SymNum.int(f"{name}.n0"), SymNum.int(f"{name}.n1") if rank == 2 else 1)

    @property
    def __class__(self): return ca.SX

    def is_empty(self, *a):
        return SymBool(z3.Or(it(self.shape[0]) == 0, it(self.shape[1]) == 0))

    def is_scalar(self, *a):
        return SymBool(z3.And(it(self.shape[0]) == 1, it(self.shape[1]) == 1))

    def size1(self): return self.shape[0]
    def size2(self): return self.shape[1]
    def numel(self): return self.shape[0] * self.shape[1]
    def size(self, k=None): return self.shape if k is None else self.shape[k - 1]
    __len__ = None
    def __repr__(self): return "<sym SX>"
    def __format__(self, s): return "<sym SX>"


# ------------------------------------------------------------------ shims
def is_proxy(x):
    return hasattr(builtins.type(x), "_vf_proxy") or isinstance_real(x, (SymNum, SymBool))


def any_proxy(args):
    for a in args:
        if is_proxy(a):
            return True
        if isinstance_real(a, (tuple, list)) and any_proxy(a):
            return True
    return False


def s_any(x):
    if isinstance_real(x, SymArr):
        return x.any()
    if isinstance_real(x, (list, tuple)) and any_proxy(x):
        r = False
        ts = []
        for v in x:
            if isinstance_real(v, SymBool):
                ts.append(v.t)
            elif isinstance_real(v, SymNum):
                ts.append(v.t != 0)
            else:
                if v:
                    return True
        return SymBool(z3.Or(ts)) if ts else r
    return builtins.any(x)


def s_all(x):
    if isinstance_real(x, SymArr):
        return x.all()
    if isinstance_real(x, (list, tuple)) and any_proxy(x):
        ts = []
        for v in x:
            if isinstance_real(v, SymBool):
                ts.append(v.t)
            elif isinstance_real(v, SymNum):
                ts.append(v.t != 0)
            elif not v:
                return False
        return SymBool(z3.And(ts)) if ts else True
    return builtins.all(x)


def s_len(x):
    if isinstance_real(x, SymArr):
        return x.shape[0]
    return builtins.len(x)


def s_max(*a, **k):
    if builtins.len(a) == 1 and isinstance_real(a[0], SymArr):
        return a[0].max()
    if any_proxy(a):
        xs = a[0] if builtins.len(a) == 1 else a
        r = None
        for v in xs:
            r = v if r is None else SymNum(z3.If(*_cmpite(lift(r), lift(v))))
        return r
    return builtins.max(*a, **k)


def _cmpite(a, b):
    a, b = _unify(a, b)
    return (a >= b, a, b)


def s_min(*a, **k):
    if builtins.len(a) == 1 and isinstance_real(a[0], SymArr):
        return a[0].min()
    if any_proxy(a):
        xs = a[0] if builtins.len(a) == 1 else a
        r = None
        for v in xs:
            if r is None:
                r = v
            else:
                x, y = _unify(lift(r), lift(v))
                r = SymNum(z3.If(x <= y, x, y))
        return r
    return builtins.min(*a, **k)


def s_sum(x, *a):
    if isinstance_real(x, SymArr):
        return x.sum()
    return builtins.sum(x, *a)


def s_range(*a):
    if not any_proxy(a):
        return builtins.range(*a)
    if builtins.len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = (a + (1,))[:3]
    if isinstance_real(st, SymNum) or st <= 0:
        raise Unsupported("symbolic range")
    return _srange(lo, hi, st)


def _srange(lo, hi, st, cap=40):
    """a loop with a symbolic bound: one path per iteration count (terminates only if the bound is bounded)"""
    i = lo
    for _ in builtins.range(cap):
        if not (i < hi):
            return
        yield i
        i = i + st
    raise Unsupported("loop with an unbounded symbolic trip count")


class _IntMeta(builtins.type):
    def __instancecheck__(cls, x): return builtins.isinstance(x, int)
    def __subclasscheck__(cls, x): return builtins.issubclass(x, int)
    def __call__(cls, x=0, *a):
        if isinstance_real(x, SymNum):
            return x if x.t.sort() == z3.IntSort() else SymNum(trunc(x.t), int)
        if isinstance_real(x, SymBool):
            return SymNum(lift(x), int)
        if isinstance_real(x, SymArr):
            return _IntMeta.__call__(cls, x.item())
        return int(x, *a)
    def __eq__(cls, o): return o is int or o is cls
    def __hash__(cls): return hash(int)


class int_shim(metaclass=_IntMeta):
    pass


class _FloatMeta(builtins.type):
    def __instancecheck__(cls, x): return builtins.isinstance(x, float)
    def __subclasscheck__(cls, x): return builtins.issubclass(x, float)
    def __call__(cls, x=0.0):
        if isinstance_real(x, SymNum):
            return x if x.t.sort() == z3.RealSort() else SymNum(z3.ToReal(x.t), float)
        if isinstance_real(x, SymArr):
            return _FloatMeta.__call__(cls, x.item())
        return float(x)
    def __eq__(cls, o): return o is float or o is cls
    def __hash__(cls): return hash(float)


class float_shim(metaclass=_FloatMeta):
    pass


class NP:
    """Stand-in for the numpy module: modelled functions on proxies, the real numpy otherwise."""

    def __getattr__(self, name):
        v = getattr(np, name)
        if callable(v) and not isinstance_real(v, builtins.type):
            def g(*a, **k):
                if any_proxy(a) or any_proxy(k.values()):
                    raise Unsupported(f"np.{name} on a symbolic value")
                return v(*a, **k)
            return g
        return v

    def all(self, x, *a, **k):
        return s_all(x) if any_proxy([x]) else np.all(x, *a, **k)

    def any(self, x, *a, **k):
        return s_any(x) if any_proxy([x]) else np.any(x, *a, **k)

    def max(self, x, *a, **k):
        return extremum(to_arr(x), 1) if any_proxy([x]) else np.max(x, *a, **k)
    amax = max

    def min(self, x, *a, **k):
        return extremum(to_arr(x), -1) if any_proxy([x]) else np.min(x, *a, **k)
    amin = min

    def sum(self, x, *a, **k):
        if isinstance_real(x, SymArr):
            return asum(x)
        if any_proxy([x]):
            return builtins.sum(x)
        return np.sum(x, *a, **k)

    def average(self, x, *a, **k):
        if isinstance_real(x, SymArr):
            return asum(x) / x.shape[0]
        return np.average(x, *a, **k)
    mean = average

    def prod(self, x, *a, **k):
        if any_proxy([x]):
            if isinstance_real(x, SymArr):
                raise Unsupported("prod")
            r = 1
            for v in x:
                r = v * r
            return r
        return np.prod(x, *a, **k)

    def cumsum(self, x, *a, **k):
        return acumsum(x) if isinstance_real(x, SymArr) else np.cumsum(x, *a, **k)

    def shape(self, x):
        return x.shape if is_proxy(x) else np.shape(x)

    def size(self, x):
        return x.size if is_proxy(x) else np.size(x)

    def ndim(self, x):
        return x.ndim if is_proxy(x) else np.ndim(x)

    def _full(self, shape, val, dtype, real):
        shp = shape if isinstance_real(shape, (tuple, list)) else (shape,)
        t = z3.RealVal(val) if dtype in (None, float, np.float64, float_shim) else z3.IntVal(val)
        return SymArr(tuple(shp), lambda *i: t)

    def zeros(self, shape, dtype=None, **k):
        if any_proxy([shape]):
            return self._full(shape, 0, dtype, True)
        return np.zeros(shape, dtype or float, **k)

    def ones(self, shape, dtype=None, **k):
        if any_proxy([shape]):
            return self._full(shape, 1, dtype, True)
        return np.ones(shape, dtype or float, **k)

    def full(self, shape, v, dtype=None):
        if any_proxy([shape, v]):
            shp = shape if isinstance_real(shape, (tuple, list)) else (shape,)
            t = lift(v)
            return SymArr(tuple(shp), lambda *i: t)
        return np.full(shape, v, dtype)

    def arange(self, *a, **k):
        if not any_proxy(a):
            return np.arange(*a, **k)
        if len(a) == 1:
            lo, hi = 0, a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            raise Unsupported("arange")
        n = mk(z3.If(it(hi) > it(lo), it(hi) - it(lo), z3.IntVal(0)))
        return SymArr((n,), lambda i: i + it(lo))

    def concatenate(self, xs, *a, **k):
        xs = list(xs)
        if not any_proxy(xs):
            return np.concatenate(xs, *a, **k)
        arrs = [to_arr(x) for x in xs]
        return cat(arrs)

    def append(self, a, b, *r, **k):
        if not any_proxy([a, b]):
            return np.append(a, b, *r, **k)
        if not isinstance_real(b, (SymArr, np.ndarray, list)):
            b = [b]
        return cat([to_arr(a), to_arr(b)])

    def array(self, x, *a, **k):
        if isinstance_real(x, SymArr):
            return x.copy()
        if any_proxy([x]):
            return to_arr(x)
        return np.array(x, *a, **k)

    def asarray(self, x, *a, **k):
        if isinstance_real(x, SymArr):
            return x
        return self.array(x, *a, **k)

    def isscalar(self, x):
        return True if isinstance_real(x, (SymNum, SymBool)) else (False if is_proxy(x) else np.isscalar(x))

    def abs(self, x):
        return builtins.abs(x) if is_proxy(x) else np.abs(x)

    def diff(self, x, *a):
        if isinstance_real(x, SymArr):
            return x[1:] - x[0:-1]
        return np.diff(x, *a)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8):
        if any_proxy([a, b]):
            raise Unsupported("isclose")
        return np.isclose(a, b, rtol, atol)

    def equal(self, a, b):
        return (a == b) if any_proxy([a, b]) else np.equal(a, b)

    def mod(self, a, b):
        return (a % b) if any_proxy([a, b]) else np.mod(a, b)

    def reshape(self, a, shp):
        return a.reshape(shp) if any_proxy([a]) else np.reshape(a, shp)

    def array_equal(self, a, b):
        if any_proxy([a, b]):
            a, b = to_arr(a), to_arr(b)
            if a.ndim != b.ndim:
                return False
            same = z3.And([it(x) == it(y) for x, y in zip(a.shape, b.shape)])
            g = SymArr(a.shape, lambda *i: _eqt(a.f(*i), b.f(*i)))
            return SymBool(z3.And(same, quant(g, True)))
        return np.array_equal(a, b)


def _eqt(a, b):
    a, b = _unify(a, b)
    return a == b


def cat(arrs):
    out = arrs[0]
    for b in arrs[1:]:
        out = _cat2(out, b)
    return out


def _cat2(a, b):
    n = it(a.shape[0])
    tot = mk(n + it(b.shape[0]))

    if a.ndim != b.ndim:
        raise Unsupported("concatenation of arrays of different rank")

    def f(i, *r):
        # avoid mixing sorts
        if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
            return b.f(i, *r)
        x, y = _unify(a.f(i, *r), b.f(i - n, *r))
        return z3.If(i < n, x, y)
    return SymArr((tot,) + tuple(a.shape[1:]), f)


SHIMS = dict(np=NP(), len=s_len, any=s_any, all=s_all, int=int_shim, float=float_shim, max=s_max, min=s_min, sum=s_sum, range=s_range)


class SymStr:
    """A string known to be one of finitely many values."""
    _vf_proxy = True

    def __init__(self, name, values):
        self.values = list(values)
        self.t = z3.Int(name)
        self.name = name

    @property
    def __class__(self): return str

    def dom(self): return z3.And(self.t >= 0, self.t < builtins.len(self.values))

    def _pred(self, f):
        ts = [self.t == i for i, v in enumerate(self.values) if f(v)]
        if builtins.len(ts) == builtins.len(self.values):
            return True
        return SymBool(z3.Or(ts)) if ts else False

    def __eq__(self, o):
        if isinstance_real(o, SymStr):
            return SymBool(z3.Or([z3.And(self.t == i, o.t == j) for i, v in enumerate(self.values) for j, w in enumerate(o.values) if v == w]))
        return self._pred(lambda v: v == o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.t)) if isinstance_real(r, SymBool) else not r

    def fork(self):
        for i, v in enumerate(self.values[:-1]):
            if eng().decide(self.t == i):
                return v
        return self.values[-1]

    def __hash__(self): return hash(self.fork())
    def __contains__(self, s): return bool(self._pred(lambda v: s in v))
    def endswith(self, s): return self._pred(lambda v: v.endswith(s))
    def startswith(self, s): return self._pred(lambda v: v.startswith(s))
    def __len__(self): return builtins.len(self.fork())
    def __repr__(self): return "<sym str>"
    def __format__(self, s): return "<sym str>"
    def __str__(self): return "<sym str>"
    def lower(self): return self.fork().lower()
    def upper(self): return self.fork().upper()
    def __bool__(self):
        r = self._pred(lambda v: v != "")
        return r if r is True or r is False else bool(r)

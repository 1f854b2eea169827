"""Path-exhaustive symbolic execution of the project's real Python functions.

The real, unmodified function objects are executed on proxy values; every branch on a
proxy asks the solver which outcomes are possible under the current path condition, and
all of them are explored.  Loops over concrete sequences run as they are; anything a
proxy cannot express raises Unsupported, and the caller falls back on a bounded stand-in.
"""
import builtins, time, math
from fractions import Fraction
import z3
from .core import Unsupported

MAXPATHS = 20000


class _Abort(BaseException):
    pass


class Engine:
    cur = None

    def __init__(self, base=()):
        self.base = list(base)
        self.solver_s = 0.0
        self.npaths = 0

    # one path ----------------------------------------------------------------
    def _start(self, schedule):
        self.pc = list(self.base)
        self.schedule = schedule
        self.pos = 0
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        for c in self.base:
            self.solver.add(c)
        self.fresh_n = 0

    def check(self, *cs):
        t = time.time()
        r = self.solver.check(*cs)
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported("solver returned unknown on a branch condition")
        return r == z3.sat

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.schedule):
            v = self.schedule[self.pos]
            self.pos += 1
        else:
            can_t, can_f = self.check(cond), self.check(z3.Not(cond))
            if not can_t and not can_f:
                raise _Abort()
            v = can_t
            if can_t and can_f:
                self.pending.append(self.schedule[:self.pos] + [False])
            self.schedule = self.schedule[:self.pos] + [v]
            self.pos += 1
        c = cond if v else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        return v

    def assume(self, cond):
        cond = z3.simplify(cond)
        self.pc.append(cond)
        self.solver.add(cond)

    def fresh_name(self, stem):
        self.fresh_n += 1
        return f"{stem}!{self.fresh_n}"

    # all paths ------------------------------------------------------------------
    def run(self, thunk):
        """yields (pc, outcome, value): outcome is 'return' or 'raise'."""
        todo = [[]]
        old = Engine.cur
        try:
            while todo:
                self.npaths += 1
                if self.npaths > MAXPATHS:
                    raise Unsupported("too many paths")
                self._start(todo.pop())
                Engine.cur = self
                try:
                    v = ("return", thunk())
                except _Abort:
                    v = None
                except Unsupported:
                    raise
                except Exception as e:
                    v = ("raise", e)
                todo.extend(self.pending)
                if v is not None:
                    yield list(self.pc), v[0], v[1]
        finally:
            Engine.cur = old


def eng():
    if Engine.cur is None:
        raise Unsupported("symbolic value used outside an execution")
    return Engine.cur


def prove(hyps, goal, timeout=20000):
    """-> (True, None, secs) | (False, model, secs) | (None, reason, secs)"""
    t = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    dt = time.time() - t
    if r == z3.unsat:
        return True, None, dt
    if r == z3.sat:
        return False, s.model(), dt
    return None, s.reason_unknown(), dt


# ------------------------------------------------------------------ proxies
def lift(x):
    """Python number -> z3 term, exact."""
    if isinstance_real(x, SymNum):
        return x.t
    if isinstance_real(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance_real(x, bool):
        return z3.IntVal(int(x))
    if isinstance_real(x, int):
        return z3.IntVal(x)
    if isinstance_real(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite constant mixed with a symbolic number")
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    import numpy as np
    if isinstance_real(x, np.generic):
        return lift(x.item())
    if isinstance_real(x, np.ndarray) and x.shape == ():
        return lift(x.item())
    raise Unsupported(f"cannot lift {type(x)}")


def isinstance_real(x, t):
    """isinstance that is not fooled by the proxies' __class__."""
    return issubclass(type(x), t)


def _unify(a, b):
    if a.sort() != b.sort():
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        if b.sort() == z3.IntSort():
            b = z3.ToReal(b)
    return a, b


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().decide(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, boolterm(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.t, boolterm(o)))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance_real(o, (SymBool, bool)):
            return SymBool(self.t == boolterm(o))
        if isinstance_real(o, (int, float, SymNum)):
            return as_num(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (~r) if isinstance_real(r, SymBool) else not r

    def __hash__(self):
        return hash(eng().decide(self.t))

    def __repr__(self):
        return "<sym bool>"

    def __format__(self, spec):
        return "<sym bool>"

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def _num(self):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), int)

    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __mod__(self, o): return self._num() % o


def boolterm(o):
    if isinstance_real(o, SymBool):
        return o.t
    if isinstance_real(o, SymNum):
        return o.t != 0
    return z3.BoolVal(bool(o))


def as_num(x):
    return SymNum(lift(x), int)


class SymNum:
    """A symbolic Python int or float.  float: either a real, or (nan/inf) via `special`."""
    __slots__ = ("t", "kind")

    def __init__(self, t, kind=None):
        self.t = t
        self.kind = kind or (int if t.sort() == z3.IntSort() else float)

    @property
    def __class__(self):
        return self.kind

    @staticmethod
    def int(name):
        return SymNum(z3.Int(name), int)

    @staticmethod
    def real(name):
        return SymNum(z3.Real(name), float)

    def _bin(self, o, f, swap=False):
        try:
            b = lift(o)
        except Unsupported:
            return NotImplemented
        a, b = _unify(self.t, b)
        if swap:
            a, b = b, a
        return SymNum(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o): return _div(self, o)
    def __rtruediv__(self, o): return _div(o, self)

    def __floordiv__(self, o):
        b = lift(o)
        if self.t.sort() == z3.IntSort() and b.sort() == z3.IntSort() and z3.is_int_value(b) and b.as_long() > 0:
            return SymNum(self.t / b, int)
        if z3.is_int_value(b) and b.as_long() == 1 or (z3.is_rational_value(b) and b.as_fraction() == 1):
            return SymNum(z3.ToReal(z3.ToInt(self.t)), float)
        raise Unsupported("floordiv")

    def __mod__(self, o):
        b = lift(o)
        if self.t.sort() == z3.IntSort() and z3.is_int_value(b) and b.as_long() > 0:
            return SymNum(self.t % b, int)
        if self.t.sort() == z3.RealSort() and z3.is_int_value(b) and b.as_long() == 1:
            return SymNum(self.t - z3.ToReal(z3.ToInt(self.t)), float)
        raise Unsupported("mod")

    def __pow__(self, o):
        if isinstance_real(o, (int, float)) and o == int(o) and 0 <= o <= 8:
            r = SymNum(z3.RealVal(1) if self.t.sort() == z3.RealSort() else z3.IntVal(1), self.kind)
            for _ in range(int(o)):
                r = r * self
            return r
        if isinstance_real(o, (int, float)) and o == 0.5:
            return sqrt(self)
        raise Unsupported("pow")

    def __neg__(self): return SymNum(-self.t, self.kind)
    def __pos__(self): return self
    def __abs__(self): return SymNum(z3.If(self.t >= 0, self.t, -self.t), self.kind)

    def _cmp(self, o, f):
        if isinstance_real(o, float) and (math.isinf(o) or math.isnan(o)):
            if math.isnan(o):
                return False
            return bool(f(0.0, o))
        if isinstance_real(o, (str, bytes, type(None), list, tuple, dict)):
            return NotImplemented
        try:
            b = lift(o)
        except Unsupported:
            return NotImplemented
        a, b = _unify(self.t, b)
        return SymBool(f(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return eng().decide(self.t != 0)

    def __hash__(self):
        # usable in sets/dicts only when pinned to one value on this path
        return hash(self.concrete())

    def concrete(self):
        e = eng()
        if not e.check():
            raise _Abort()
        v = e.solver.model().eval(self.t, model_completion=True)
        if e.check(self.t != v):
            raise Unsupported("a concrete value is needed for a symbolic number")
        return to_py(v)

    def __index__(self):
        v = self.concrete()
        return int(v)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.concrete())

    def is_integer(self):
        if self.t.sort() == z3.IntSort():
            return True
        return SymBool(z3.IsInt(self.t))

    def item(self):
        return self

    def __repr__(self):
        return "<sym num>"

    def __format__(self, spec):
        return "<sym num>"


def to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported(f"cannot convert {v}")


def _div(a, b):
    a, b = lift(a), lift(b)
    if a.sort() == z3.IntSort():
        a = z3.ToReal(a)
    if b.sort() == z3.IntSort():
        b = z3.ToReal(b)
    if eng().decide(b == 0):
        raise ZeroDivisionError("division by zero")
    return SymNum(a / b, float)


def sqrt(x):
    """exact real square root as a fresh constant with its defining axiom (x >= 0 on the path)."""
    e = eng()
    t = lift(x)
    if t.sort() == z3.IntSort():
        t = z3.ToReal(t)
    if e.decide(t < 0):
        raise ValueError("math domain error")
    r = z3.Real(e.fresh_name("sqrt"))
    e.assume(z3.And(r >= 0, r * r == t))
    return SymNum(r, float)


# ------------------------------------------------------------------ module shims
class Patch:
    """Temporarily shadows names in module namespaces (never edits the files)."""

    def __init__(self, *mods, **names):
        self.mods, self.names = mods, names

    def __enter__(self):
        self.saved = []
        for m in self.mods:
            for k, v in self.names.items():
                self.saved.append((m, k, m.__dict__.get(k, _MISSING)))
                m.__dict__[k] = v
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.saved):
            if v is _MISSING:
                del m.__dict__[k]
            else:
                m.__dict__[k] = v


_MISSING = object()


def sym_type(x, *a):
    if a:
        return builtins.type(x, *a)
    c = x.__class__ if isinstance_real(x, (SymNum, SymBool)) or hasattr(builtins.type(x), "_vf_proxy") else builtins.type(x)
    return c


class _TypeShim:
    """Stands in for the builtin `type` so that type(x) sees a proxy's modelled class."""
    def __call__(self, x, *a):
        return sym_type(x, *a)
    def __instancecheck__(self, x):
        return builtins.isinstance(x, builtins.type)


type_shim = sym_type


# ------------------------------------------------------------------ settling an obligation
def settle(chk, name, hyps, goal, replay=None, search=None, key=None, timeout=20000, backend="z3"):
    """Discharge hyps => goal; otherwise look for a concrete failing input on the real code.
    replay(model) -> None | dict (the failing input);  search() -> None | dict."""
    ok, m, secs = prove(hyps, goal, timeout)
    chk.solver_s += 0 if ok else secs
    if ok:
        chk.discharged(name, backend, secs)
        return True
    rep = None
    if ok is False and replay is not None:
        try:
            rep = replay(m)
        except Unsupported as e:
            chk.note(f"{name}: model not replayable: {e}")
    if rep is None and search is not None:
        rep = search()
    if rep is not None:
        chk.refuted(name, rep.get("what", "contract violated on the real code"), rep, key=key)
    else:
        chk.undecided(name, "the solver did not accept the obligation" + ("" if ok is None else " (it has a model, not reproduced)"),
                      f"model: {m}\ngoal: {z3.simplify(goal)}"[:4000])
    return False


def fallback(chk, name, why, search, bound):
    """Outside the verifier's reach: run the bounded stand-in.  search() -> (failing dict|None, evals)."""
    rep, n = search()
    if rep is not None:
        chk.refuted(name, rep.get("what", "contract violated on the real code"), rep, key=rep.get("key"))
        return False
    chk.bounded(name, why, bound, n)
    return True

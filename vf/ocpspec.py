"""Contracts on methods of AcadosOcp: the real method runs on a symbolic description; every path's
outcome is compared with the contract; failures are replayed on a real AcadosOcp object."""
import contextlib, inspect, io, random, warnings, builtins, time
import numpy as np
import casadi as ca
import z3
from .core import Unsupported, SEED
from . import pysym, symarr
from .pysym import Engine, SymNum, SymBool, isinstance_real, prove, to_py, Patch, lift
from .symarr import SymArr, SymCasadi, SymStr, SHIMS, it, fresh

warnings.simplefilter("ignore")
PARTS = ("dims", "cost", "constraints", "model", "solver_options", "code_gen_options")


# ------------------------------------------------------------ polymorphic logic
def sym(x):
    return isinstance_real(x, (SymBool, SymNum))


def And(*xs):
    xs = list(xs)
    if builtins.any(isinstance_real(x, SymBool) for x in xs):
        return SymBool(z3.And([B(x) for x in xs]))
    return builtins.all(bool(x) for x in xs)


def Or(*xs):
    xs = list(xs)
    if builtins.any(isinstance_real(x, SymBool) for x in xs):
        return SymBool(z3.Or([B(x) for x in xs]))
    return builtins.any(bool(x) for x in xs)


def Not(x):
    return SymBool(z3.Not(x.t)) if isinstance_real(x, SymBool) else not x


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    """numbers, booleans or arrays"""
    if not isinstance_real(c, SymBool):
        return a if c else b
    if isinstance_real(a, (SymBool, bool)) and isinstance_real(b, (SymBool, bool)):
        return SymBool(z3.If(c.t, B(a), B(b)))
    if isinstance_real(a, (SymArr, np.ndarray)):
        a, b = symarr.to_arr(a), symarr.to_arr(b)
        n = symarr.mk(z3.If(c.t, it(a.shape[0]), it(b.shape[0])))

        def f(i):
            x, y = pysym._unify(a.f(i), b.f(i))
            return z3.If(c.t, x, y)
        return SymArr((n,), f)
    x, y = pysym._unify(lift(a), lift(b))
    return SymNum(z3.If(c.t, x, y))


def B(x):
    if isinstance_real(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def ln(x):
    return x.shape[0]


def anyof(x, pred):
    if isinstance_real(x, SymArr):
        idx = [z3.Int(f"q!{k}") for k in range(x.ndim)]
        rng = z3.And([symarr.in_range(i, n) for i, n in zip(idx, x.shape)])
        return SymBool(z3.Exists(idx, z3.And(rng, B(pred(symarr.wrap(x.f(*idx)))))))
    return builtins.any(bool(pred(v)) for v in np.asarray(x).flatten())


def allof(x, pred):
    return Not(anyof(x, lambda v: Not(pred(v))))


def contains(x, v):
    return anyof(x, lambda w: w == v)


def forall_int(lo, hi, pred):
    """for all integers lo <= j < hi"""
    if sym(lo) or sym(hi):
        j = z3.Int("q!j")
        return SymBool(z3.ForAll([j], z3.Implies(z3.And(j >= it(lo), j < it(hi)), B(pred(SymNum(j, int))))))
    return builtins.all(bool(pred(j)) for j in range(lo, hi))


def empty(x):
    if isinstance_real(x, SymCasadi):
        return x.is_empty()
    if isinstance_real(x, SymArr):
        return Or(*[n == 0 for n in x.shape])
    if x is None:
        return True
    if isinstance_real(x, (list, set, str, tuple)):
        return len(x) == 0
    if isinstance_real(x, (float, int)):
        return False
    if isinstance_real(x, np.ndarray):
        return x.size == 0
    return x.is_empty()


def isin(x, vals):
    return Or(*[x == v for v in vals])


def clen(x):
    """number of entries of an expression (None and [] have none)"""
    if isinstance_real(x, SymCasadi):
        return x.numel()
    if x is None:
        return 0
    if isinstance_real(x, list):
        return len(x)
    return int(np.prod(x.shape))


def zeros(n):
    if sym(n):
        return SymArr((n,), lambda i: z3.RealVal(0))
    return np.zeros((n,))


def arange(n):
    if sym(n):
        return SymArr((n,), lambda i: i)
    return np.arange(n)


def same(a, b):
    """equality of values"""
    if a is b:
        return True
    if isinstance_real(a, SymArr) or isinstance_real(b, SymArr):
        if not isinstance_real(a, (SymArr, np.ndarray)) or not isinstance_real(b, (SymArr, np.ndarray)):
            return False
        if len(a.shape) != len(b.shape):
            return False
        if isinstance_real(a, np.ndarray):
            a = symarr.to_arr(a)
        if isinstance_real(b, np.ndarray):
            b = symarr.to_arr(b)
        idx = [z3.Int(f"q!{k}") for k in range(a.ndim)]
        rng = z3.And([symarr.in_range(i, n) for i, n in zip(idx, a.shape)])
        x, y = pysym._unify(a.f(*idx), b.f(*idx))
        return SymBool(z3.And([it(n) == it(m) for n, m in zip(a.shape, b.shape)] + [z3.ForAll(idx, z3.Implies(rng, x == y))]))
    if sym(a) or sym(b):
        if isinstance_real(a, SymBool) or isinstance_real(b, SymBool):
            if isinstance_real(a, (SymBool, bool)) and isinstance_real(b, (SymBool, bool)):
                return SymBool(B(a) == B(b))
        try:
            x, y = pysym._unify(lift(a), lift(b))
        except Unsupported:
            return False
        return SymBool(x == y)
    if isinstance_real(a, np.ndarray) or isinstance_real(b, np.ndarray):
        if not (isinstance_real(a, np.ndarray) and isinstance_real(b, np.ndarray)) or a.shape != b.shape:
            return False
        return bool(np.allclose(a, b, rtol=1e-12, atol=1e-14)) if a.dtype.kind in "fiub" and b.dtype.kind in "fiub" else bool(np.all(a == b))
    if isinstance_real(a, (ca.SX, ca.MX, ca.DM)) and isinstance_real(b, (ca.SX, ca.MX, ca.DM)):
        return type(a) is type(b) and a.shape == b.shape and (str(a) == str(b))
    if isinstance_real(a, float) and isinstance_real(b, float):
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    try:
        return bool(a == b)
    except Exception:
        return False


# ------------------------------------------------------------ states
class NS:
    """A plain record standing in for one part of the description in a symbolic run."""
    def __init__(self, d, cls=None):
        self.__dict__.update(d)
        self.__dict__["_cls"] = cls

    @property
    def __class__(self):
        return self.__dict__.get("_cls") or NS

    def __getattr__(self, n):
        c = self.__dict__.get("_cls")
        if c is not None and hasattr(c, n):
            v = getattr(c, n)
            if callable(v):
                return v.__get__(self)
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} is not part of the modelled description")

    def fields(self):
        return {k: v for k, v in self.__dict__.items() if k != "_cls"}


def public(obj):
    d = {}
    for n in dir(type(obj)):
        if n.startswith("_"):
            continue
        if isinstance_real(getattr(type(obj), n, None), property):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    d[n] = getattr(obj, n)
            except Exception:
                pass
    for n, v in vars(obj).items():
        if not n.startswith("_"):
            d.setdefault(n, v)
    return d


class View:
    """Read access to the pre-state for the contract."""
    def __init__(self, parts, own=None):
        for k, v in parts.items():
            setattr(self, k, NS(v))
        for k, v in (own or {}).items():
            setattr(self, k, v)


class Scenario:
    """kinds: dim, int, real, bool, vec, ivec, mat, sx, sxm, wmat; fixed: path -> python value."""

    def __init__(self, name, cls, method, vars, spec, fixed=None, pre=None, own=None, mods=(), stubs=None, args=(), make=None, never=False, extra=None, gen=None, callee=None):
        self.callee = callee         # f(self, *args) if not the method of that name
        self.gen = gen               # gen(rnd) -> concrete values, for the search for failing inputs
        self.extra = extra           # further postconditions on (pre-state, object afterwards)
        self.never = never           # no description of this scenario is acceptable
        self.name, self.cls, self.method, self.vars, self.spec = name, cls, method, dict(vars), spec
        self.fixed, self.pre, self.own = dict(fixed or {}), pre, dict(own or {})
        self.mods, self.stubs, self.args = mods, dict(stubs or {}), args
        self.make = make or cls
        self.proxies = {}
        for p, k in self.vars.items():
            self.proxies[p] = self._proxy(p, k)

    def fun(self):
        return self.callee or getattr(self.cls, self.method)

    def fnames(self):
        return [self.method if self.callee else f"{self.cls.__name__}.{self.method}"]

    def _proxy(self, p, k):
        n = p
        if isinstance(k, list):                   # one of these strings (or other constants)
            return SymStr(p, k)
        if isinstance(k, tuple) and k[0] == "ints":   # a Python list of this many integers
            return [SymNum.int(f"{p}[{i}]") for i in range(k[1])]
        if isinstance(k, tuple):                  # a vector of this concrete length with symbolic content
            xs = [SymNum(z3.Const(f"{p}[{i}]", z3.IntSort() if k[0] == "ivec" else z3.RealSort())) for i in range(k[1])]
            if not xs:
                return np.zeros((0,), dtype=np.int64 if k[0] == "ivec" else float)
            a = symarr.to_arr(xs)
            a.tag = p
            a.elems = xs
            return a
        if k in ("dim", "int"):
            return SymNum.int(n)
        if k == "real":
            return SymNum.real(n)
        if k == "bool":
            return SymBool(z3.Bool(n))
        if k == "vec":
            return SymArr.var(n)
        if k == "ivec":
            return SymArr.var(n, 1, z3.IntSort())
        if k in ("mat", "wmat"):
            a = SymArr.var(n, 2)
            a.ok = SymBool(z3.Bool(n + ".posdef"))
            return a
        if k == "sx":
            return SymCasadi(n)
        if k == "sxm":
            return SymCasadi(n, 2)
        raise ValueError(k)

    def base(self):
        r = []
        for p, k in self.vars.items():
            x = self.proxies[p]
            if k == "dim":
                r.append(x.t >= 0)
            elif isinstance(k, list):
                r.append(x.dom())
            elif k in ("vec", "ivec", "mat", "wmat", "sx", "sxm"):
                for n in x.shape:
                    if isinstance_real(n, SymNum):
                        r.append(n.t >= 0)
        return r

    # symbolic -----------------------------------------------------------------
    def parts0(self):
        real = self._real0 = self.make()
        d = {k: public(getattr(real, k)) for k in PARTS if hasattr(real, k)}
        self.own0 = {k: v for k, v in public(real).items() if k not in PARTS}
        return d

    def sym_parts(self):
        if not hasattr(self, "_p0"):
            self._p0 = self.parts0()
        d = {k: dict(v) for k, v in self._p0.items()}
        own = dict(self.own0)
        own.update(self.own)
        for src in (self.fixed, self.proxies):
            for p, v in src.items():
                if "." in p:
                    a, b = p.split(".")
                    d[a][b] = v
                else:
                    own[p] = v
        return d, own

    def fake(self):
        d, own = self.sym_parts()
        for k, v in list(d.items()):
            for kk, vv in v.items():
                if isinstance_real(vv, np.ndarray) and not isinstance_real(vv, SymArr):
                    v[kk] = vv.copy()
                elif isinstance_real(vv, SymArr) and vv.tag:
                    c = SymArr(vv.shape, vv.f, vv.tag)
                    if hasattr(vv, "ok"):
                        c.ok = vv.ok
                    v[kk] = c
        f = Fake(self.cls)
        real = self._p0
        for k, v in d.items():
            object.__setattr__(f, k, NS(v, type(getattr(self._real0, k))))
        for k, v in own.items():
            object.__setattr__(f, k, v)
        return f

    def verify(self, rec, prover=None):
        symarr.Memo.reset()
        d, own = self.sym_parts()
        view = View(d, own)
        base = self.base()
        if self.pre:
            base += [B(c) for c in self.pre(view)]
        eng = Engine(base)
        f = self.fun()
        rec.fn(*self.fnames())
        npaths = {"return": 0, "raise": 0}

        def thunk():
            s = self.fake()
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    f(s, *self.args)
            except Unsupported:
                raise
            except Exception as e:
                return ("raise", e, s)
            return ("return", None, s)

        fails = []
        names = dict(SHIMS)
        names.update(self.stubs)
        with Patch(*self.mods, **names):
            k = 0
            for pc, outcome, val in eng.run(thunk):
                if outcome == "raise":
                    if isinstance_real(val, Unsupported):
                        raise val
                    kind, exc, s = "raise", val, None
                else:
                    kind, exc, s = val
                npaths[kind] += 1
                accept, updates, dontcare = self._spec(view)
                if kind == "raise":
                    goal = z3.Not(B(accept))
                    what = f"rejects only invalid descriptions ({type(exc).__name__})"
                else:
                    conj = [B(accept)] + self._post(view, s, updates, dontcare) + [B(c) for c in (self.extra(view, s) if self.extra else [])]
                    goal = z3.And(conj)
                    what = "accepts only valid descriptions and stores the detected values"
                hyps = list(eng.pc)
                ok, m, secs = prove(hyps, goal, 10000)
                rec.solver_s += 0 if ok else secs
                name = f"{self.name}.path{k}: {what}"
                k += 1
                if ok:
                    rec.discharged(name, "z3", secs)
                else:
                    fails.append((name, hyps, goal, ok, exc))
        rec.solver_s += eng.solver_s
        for name, hyps, goal, ok, exc in fails[:6]:
            rep = self.find(hyps, goal) or self.search(300)[0]
            if rep is not None:
                rec.refuted(name, rep["what"], rep)
                break
        else:
            for name, hyps, goal, ok, exc in fails:
                rep, n = self.search(150)
                if rep is not None:
                    rec.refuted(name, rep["what"], rep)
                    break
                rec.bounded(name, f"the solver did not decide the obligation ({ok})", "150 generated descriptions", n)
        if npaths["return"] == 0 and not self.never:
            rep, _ = self.search(300)
            if rep is not None:
                rec.refuted(f"{self.name}: some description is accepted", rep["what"], rep)
        none = self._spec(view)[0] is False    # the contract admits no description of this scenario
        rec.cover(f"{self.name}: some path accepts", npaths["return"] > 0 or self.never or none)
        return npaths

    def _spec(self, view):
        r = self.spec(view)
        return r if len(r) == 3 else (r[0], r[1], set())

    def _post(self, view, s, updates, dontcare):
        conj = []
        for part in [p for p in PARTS if hasattr(view, p)]:
            before, after = getattr(view, part).fields(), getattr(s, part).fields()
            for k in set(before) | set(after):
                p = f"{part}.{k}"
                if p in dontcare:
                    continue
                if k not in after:
                    conj.append(z3.BoolVal(False))
                    continue
                exp = updates.get(p, before.get(k, after[k] if k.startswith("_") else None))
                r = same(after[k], exp)
                if r is not True:
                    conj.append(B(r))
        for k, v in updates.items():
            if "." not in k and k not in dontcare:
                r = same(getattr(s, k), v)
                if r is not True:
                    conj.append(B(r))
        return conj

    # concrete ------------------------------------------------------------------
    def shape_terms(self):
        r = []
        for p, k in self.vars.items():
            x = self.proxies[p]
            if k in ("dim",):
                r.append(x.t)
            elif k in ("vec", "ivec", "mat", "wmat", "sx", "sxm"):
                r += [n.t for n in x.shape if isinstance_real(n, SymNum)]
        return r

    def find(self, hyps, goal):
        """a model of the failed obligation with small sizes, replayed on the real code"""
        for bound in (2, 4, 12):
            s = z3.Solver()
            s.set("timeout", 8000)
            for h in hyps:
                s.add(h)
            s.add(z3.Not(goal))
            for t in self.shape_terms():
                s.add(t <= bound)
            if s.check() == z3.sat:
                m = s.model()
                try:
                    rep = self.replay(self.concretize(m))
                except Unsupported:
                    rep = None
                if rep is not None:
                    return rep
        return None

    def concretize(self, m, rnd=None):
        vals = {}
        ev = lambda t: to_py(m.eval(t, model_completion=True))
        for p, k in self.vars.items():
            x = self.proxies[p]
            if isinstance(k, list):
                vals[p] = k[int(ev(x.t))]
            elif isinstance(k, tuple) and k[0] == "ints":
                vals[p] = [int(ev(e.t)) for e in x]
            elif isinstance(k, tuple):
                vals[p] = np.array([ev(e.t) for e in getattr(x, "elems", [])], dtype=np.int64 if k[0] == "ivec" else float)
            elif k in ("dim", "int"):
                vals[p] = int(ev(x.t))
            elif k == "real":
                vals[p] = float(ev(x.t))
            elif k == "bool":
                vals[p] = bool(ev(x.t))
            elif k in ("vec", "ivec", "mat", "wmat"):
                shp = [int(ev(n.t)) for n in x.shape]
                if any(n > 2000 for n in shp):
                    raise Unsupported("model too large to replay")
                a = np.zeros(shp, dtype=np.int64 if k == "ivec" else float)
                if k == "wmat":
                    a[...] = 0
                    if shp[0] == shp[1]:
                        a = np.eye(shp[0]) if bool(ev(x.ok.t)) else -np.eye(shp[0])
                else:
                    for i in np.ndindex(*shp):
                        a[i] = ev(x.f(*[z3.IntVal(j) for j in i]))
                vals[p] = a
            elif k in ("sx", "sxm"):
                shp = [int(ev(it(n))) for n in x.shape]
                if any(n > 2000 for n in shp):
                    raise Unsupported("model too large to replay")
                vals[p] = ("sx", shp)
        return vals

    def build(self, vals):
        """a real description object with these values set through its public interface"""
        real = self.make()
        with contextlib.redirect_stdout(io.StringIO()):
            for src in (self.fixed, vals):
                for p, v in src.items():
                    if isinstance_real(v, tuple) and v[0] == "sx":
                        v = ca.SX.sym(p.replace(".", "_"), *v[1])
                    tgt, attr = real, p
                    if "." in p:
                        a, attr = p.split(".")
                        tgt = getattr(real, a)
                    try:
                        setattr(tgt, attr, v)
                    except Exception as e:
                        raise Unsupported(f"{p}: not settable through the public interface: {e}")
                    if isinstance_real(v, np.ndarray):
                        got = getattr(tgt, attr)
                        if not (isinstance_real(got, np.ndarray) and got.shape == v.shape):
                            raise Unsupported(f"{p}: stored differently")
        for p, v in self.own.items():
            try:
                setattr(real, p, v)
            except Exception as e:
                raise Unsupported(f"{p}: not settable through the public interface: {e}")
        return real

    def replay(self, vals):
        real = self.build(vals)
        pre = {k: dict(public(getattr(real, k))) for k in PARTS if hasattr(real, k)}
        for d in pre.values():
            for k, v in d.items():
                if isinstance_real(v, np.ndarray):
                    d[k] = v.copy()
        own = {k: v for k, v in public(real).items() if k not in PARTS}
        view = View(pre, own)
        if self.pre and not all(bool(c) for c in self.pre(view)):
            return None
        accept, updates, dontcare = self._spec(view)
        exc = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.fun()(real, *self.args)
        except Exception as e:
            exc = e
        desc = {p: _show(v) for p, v in vals.items()}
        base = dict(function=f"{self.cls.__name__}.{self.method}", scenario=self.name, input=desc, fixed={k: str(v) for k, v in self.fixed.items()})
        if exc is not None:
            if accept:
                return dict(base, what=f"{self.method} rejects a valid description: {type(exc).__name__}: {str(exc)[:200]}")
            return None
        if not accept:
            return dict(base, what=f"{self.method} accepts an invalid description")
        for part in pre:
            after = public(getattr(real, part))
            for k in set(pre[part]) | set(after):
                p = f"{part}.{k}"
                if p in dontcare:
                    continue
                exp = updates.get(p, pre[part].get(k))
                if not same(after.get(k), exp):
                    return dict(base, what=f"after {self.method}: {p} is {_show(after.get(k))}, specified {_show(exp)}")
        if self.extra and not all(bool(c) for c in self.extra(view, real)):
            return dict(base, what=f"{self.method}: a postcondition on the calls it makes fails")
        for k, v in updates.items():
            if "." not in k and k not in dontcare and not same(getattr(real, k), v):
                return dict(base, what=f"after {self.method}: {k} is {getattr(real, k)}, specified {v}")
        return None

    def search(self, n):
        """generated descriptions: solutions of the contract's accept condition, and one-field mutations of them"""
        rnd = random.Random(SEED)
        if self.gen:
            for k in range(n):
                v = self.gen(rnd)
                if rnd.random() < 0.4:
                    mutable = [p for p in v if not isinstance(self.vars.get(p), tuple)]
                    p = rnd.choice(mutable)
                    v[p] = rnd.choice(self.vars[p]) if isinstance(self.vars.get(p), list) else _mutate(v[p], rnd)
                try:
                    rep = self.replay(v)
                except Unsupported:
                    continue
                if rep is not None:
                    return rep, k + 1
            return None, n
        symarr.Memo.reset()
        d, own = self.sym_parts()
        view = View(d, own)
        base = self.base() + ([B(c) for c in self.pre(view)] if self.pre else [])
        cnt = 0
        try:
            acc = B(self._spec(view)[0])
        except Unsupported:
            return None, 0
        st = self.shape_terms()
        t0 = time.time()
        while cnt < n and time.time() - t0 < 40:
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(base)
            s.add(acc)
            for t in st:
                s.add(t <= 3)
            for t in rnd.sample(st, min(3, len(st))):
                s.push()
                s.add(t == rnd.choice([0, 1, 1, 2, 2, 3]))
                if s.check() != z3.sat:
                    s.pop()
            if s.check() != z3.sat:
                cnt += 1
                continue
            try:
                vals = self.concretize(s.model())
            except Unsupported:
                cnt += 1
                continue
            muts = [vals]
            mutable = [p for p in vals if not isinstance(self.vars[p], tuple)]
            for _ in range(4 if mutable else 0):
                p = rnd.choice(mutable)
                v = dict(vals)
                v[p] = rnd.choice(self.vars[p]) if isinstance(self.vars[p], list) else _mutate(vals[p], rnd)
                muts.append(v)
            for v in muts:
                cnt += 1
                try:
                    rep = self.replay(v)
                except Unsupported:
                    continue
                if rep is not None:
                    return rep, cnt
        return None, cnt

    def task(self):
        def f(rec):
            self.verify(rec)

        def onfail(rec, e):
            rep, n = self.search(300)
            if rep is not None:
                rec.refuted(f"{self.name}.contract", rep["what"], rep)
            else:
                rec.fn(*self.fnames())
                rec.bounded(f"{self.name}.contract", e, "generated descriptions with sizes up to 3 and one-field mutations", n)
        return (self.name, f, onfail)


def _show(v):
    if isinstance_real(v, np.ndarray):
        return f"array(shape={v.shape}, {v.tolist()})"
    return str(v)[:200]


def _mutate(v, rnd):
    if isinstance_real(v, tuple) and v[0] == "sx":
        return ("sx", [max(0, n + rnd.choice([-1, 1])) if i == 0 or n != 1 else n for i, n in enumerate(v[1])])
    if isinstance_real(v, bool):
        return not v
    if isinstance_real(v, list):
        return [x + rnd.choice([-1, 0, 1]) for x in v] if rnd.random() < 0.7 else v[:-1]
    if isinstance_real(v, int):
        return max(0, v + rnd.choice([-1, 1]))
    if isinstance_real(v, float):
        return rnd.choice([v + 1, -v, v * 0.5, v * (1 + 1e-11), 0.0])
    if isinstance_real(v, np.ndarray):
        if v.size and rnd.random() < 0.5:
            w = v.copy()
            i = tuple(rnd.randrange(n) for n in v.shape)
            w[i] += rnd.choice([-1, 1, 2])
            return w
        ax = rnd.randrange(v.ndim)
        if rnd.random() < 0.5 and v.shape[ax] > 0:
            return np.delete(v, -1, axis=ax)
        pad = [(0, 0)] * v.ndim
        pad[ax] = (0, 1)
        return np.pad(v, pad)
    return v


class Fake:
    """self of a symbolic run: the description parts are records, everything else comes from the real class."""
    def __init__(self, cls):
        object.__setattr__(self, "_cls", cls)

    @property
    def __class__(self):
        return self._cls

    def __getattr__(self, n):
        cls = object.__getattribute__(self, "_cls")
        try:
            raw = inspect.getattr_static(cls, n)
        except AttributeError:
            raise Unsupported(f"{cls.__name__}.{n} is not part of the modelled description")
        return raw.__get__(self, cls) if hasattr(raw, "__get__") else raw

"""P14: the shooting grid: time steps, shooting nodes and integrator settings are completed consistently."""
import numpy as np
import z3
from vf.core import Check, Unsupported
from vf.par import run_tasks
from vf.pysym import isinstance_real, SymNum, SymBool, lift, _unify
from vf import ocpspec as S, symarr
from vf.symarr import SymArr, it
from vf.ocpspec import Scenario, And, Or, Not, Implies, Ite, ln, anyof, allof, empty
from acados_template import AcadosOcp, acados_ocp as m_ocp, utils as m_utils

MODS = (m_ocp, m_utils)


def sum_(x):
    return symarr.asum(x) if isinstance_real(x, SymArr) else float(np.sum(x))


def div(a, b):
    if S.sym(a) or S.sym(b):
        f = lambda t: z3.ToReal(t) if t.sort() == z3.IntSort() else t
        return SymNum(f(lift(a)) / f(lift(b)), float)
    return a / b if b != 0 else float("nan")


def absv(a):
    return abs(a)


def nodes_of(steps):
    """0, then the partial sums of the time steps"""
    if isinstance_real(steps, SymArr):
        c = symarr.acumsum(steps)
        n = symarr.mk(it(steps.shape[0]) + 1)
        return SymArr((n,), lambda i: z3.If(i < 1, z3.RealVal(0), c.f(i - 1)))
    return np.concatenate(([0.], np.cumsum(steps)))


def const(n, v):
    if S.sym(n) or S.sym(v):
        t = lift(v)
        return SymArr((n,), lambda i: t)
    return np.full((n,), v)


def diff(x):
    if isinstance_real(x, SymArr):
        n = symarr.mk(it(x.shape[0]) - 1)
        return SymArr((n,), lambda i: x.f(i + 1) - x.f(i))
    return np.diff(x)


def ext(x, sign):
    if isinstance_real(x, SymArr):
        symarr.Memo.guard = False
        return symarr.extremum(x, sign, guard=False)
    return float(np.max(x) if sign > 0 else np.min(x))


def fits(steps, tf):
    s = sum_(steps)
    return absv(div(s - tf, s)) <= 1e-13


def spec(o):
    so = o.solver_options
    if not S.sym(so.N_horizon) and so.N_horizon == 0:
        return True, {"solver_options.shooting_nodes": np.array([0.]), "solver_options.time_steps": np.array([])}
    N, tf = so.N_horizon, so.tf
    ts, sn = so.time_steps, so.shooting_nodes
    up = lambda t, n: {"solver_options.time_steps": t, "solver_options.shooting_nodes": n}
    e1, e2 = empty(ts), empty(sn)
    if e1 is True and e2 is True:
        st = const(N, div(tf, N))
        return True, up(st, nodes_of(st))
    if e1 is not True:
        acc = And(Not(e1), ln(ts) == N, fits(ts, tf))
        return acc, up(ts, nodes_of(ts))
    d = diff(sn)
    avg = div(sum_(d), ln(d))
    if not isinstance_real(sn, SymArr) and ln(sn) != N + 1:
        return False, {}
    spread = div(ext(d, 1) - ext(d, -1), avg) < 1e-9
    st = Ite(spread, const(ln(d), avg), d)
    if isinstance_real(st, SymArr):
        # sum of the stored steps: case split as in the definition
        s = Ite(spread, sum_(const(ln(d), avg)), sum_(d))
    else:
        s = sum_(st)
    acc = And(ln(sn) == N + 1, absv(div(s - tf, s)) <= 1e-13)
    return acc, up(st, sn)


def pre(o):
    so = o.solver_options
    N = so.N_horizon
    r = [N >= 1]
    if so.tf is not None and isinstance_real(so.tf, (SymNum, float, int)):
        r.append(so.tf > 0)
    ts, sn = so.time_steps, so.shooting_nodes
    if empty(ts) is not True:
        r += [Implies(Not(empty(ts)), sum_(ts) > 0), Not(empty(ts))]
    elif empty(sn) is not True:
        d = diff(sn)
        r += [ln(sn) >= 1, Implies(ln(sn) >= 2, sum_(d) > 0)]
    return r


def scn(name, method, vars, sp, fixed=None, p=None, **k):
    if method.endswith("discretization") and sp is spec:
        k["gen"] = gen(vars)
    return Scenario(name, AcadosOcp, method, vars, sp, fixed or {}, p, mods=MODS, **k)


def NEVER(o):
    return False, {}


def gen(fields):
    def g(rnd):
        N = rnd.choice([1, 2, 3, 4, 7])
        mode = rnd.randrange(4)
        h = rnd.choice([0.1, 1.0, 1e-5, 2e4, rnd.uniform(0.01, 3)])
        if mode == 0:
            ts = np.full((N,), h)
        elif mode == 1:
            ts = h * (1 + np.array([rnd.uniform(-2e-10, 2e-10) for _ in range(N)]))
        elif mode == 2:
            ts = h * (1 + np.array([rnd.uniform(-1e-7, 1e-7) for _ in range(N)]))
        else:
            ts = np.array([rnd.uniform(0.05, 2) for _ in range(N)])
        k = N + (rnd.choice([-1, 1, 2]) if rnd.random() < 0.2 else 0)
        sn = np.concatenate(([0.], np.cumsum(ts)))
        tf = float(np.sum(ts)) if "solver_options.shooting_nodes" not in fields or "solver_options.time_steps" in fields else float(sn[-1])
        r = rnd.random()
        if r < 0.15:
            tf = tf * (1 + rnd.choice([1e-11, -1e-11, 6e-13, -6e-13, 1e-3, -1e-3, 0.5, -0.5]))
        v = {"solver_options.N_horizon": max(k, 1), "solver_options.tf": tf, "solver_options.time_steps": ts, "solver_options.shooting_nodes": sn}
        v = {f: x for f, x in v.items() if f in fields}
        if fields.get("solver_options.tf") == "int":
            v["solver_options.tf"] = rnd.choice([1, 2, 3, 5])
        return v
    return g


def grid():
    m = "_make_consistent_discretization"
    N = {"solver_options.N_horizon": "int"}
    out = []
    for none in (None,):
        out.append(scn("uniform", m, {**N, "solver_options.tf": "real"}, spec, p=pre))
        out.append(scn("uniform.integer-tf", m, {**N, "solver_options.tf": "int"}, spec, p=pre))
        out.append(scn("time_steps", m, {**N, "solver_options.tf": "real", "solver_options.time_steps": "vec"}, spec, p=pre))
        out.append(scn("time_steps.and-nodes", m, {**N, "solver_options.tf": "real", "solver_options.time_steps": "vec", "solver_options.shooting_nodes": "vec"}, spec, p=pre))
        out.append(scn("shooting_nodes", m, {**N, "solver_options.tf": "real", "solver_options.shooting_nodes": "vec"}, spec, p=pre))
    for tf in (None, "1.0"):
        out.append(scn(f"tf-not-a-number.{tf}", m, {**N, "solver_options.time_steps": "vec"}, NEVER, {"solver_options.tf": tf}, p=lambda o: [o.solver_options.N_horizon >= 1], never=True))
    out.append(scn("no-horizon", m, {"solver_options.tf": "real", "solver_options.time_steps": "vec", "solver_options.shooting_nodes": "vec"},
                   lambda o: (True, {"solver_options.shooting_nodes": np.array([0.]), "solver_options.time_steps": np.array([])}), {"solver_options.N_horizon": 0}))
    return out


# ------------------------------------------------------------ integrator settings
def integral(v):
    """v is an integer value"""
    if S.sym(v):
        return SymBool(z3.IsInt(v.t)) if v.t.sort() == z3.RealSort() else True
    return float(v).is_integer()


FIELDS = ("sim_method_num_steps", "sim_method_num_stages", "sim_method_jac_reuse")
EXPR = {"ERK": "f_expl_expr", "IRK": "f_impl_expr", "LIFTED_IRK": "f_impl_expr", "GNSF": "f_impl_expr", "DISCRETE": "disc_dyn_expr"}


def asint(v):
    if isinstance_real(v, SymNum):
        return SymNum(symarr.trunc(v.t), int) if v.t.sort() == z3.RealSort() else v
    return v


def sim_spec(o):
    so = o.solver_options
    N = so.N_horizon
    acc, u = True, {"solver_options.Tsim": so.time_steps[0] if not isinstance_real(so.time_steps, SymArr) else symarr.wrap(so.time_steps.f(z3.IntVal(0)))}
    for f in FIELDS:
        v = getattr(so, f)
        if isinstance_real(v, (SymArr, np.ndarray)):
            one = ln(v) == 1
            first = (symarr.wrap(v.f(z3.IntVal(0))) if isinstance_real(v, SymArr) else (v[0] if v.size else 0))
            acc = And(acc, Or(one, ln(v) == N), allof(v, integral))
            u["solver_options." + f] = Ite(one, const(N, first), v)
        else:
            acc = And(acc, integral(v))
            u["solver_options." + f] = const(N, v)
    it_ = so.integrator_type
    acc = And(acc, Or(Not(o.code_gen_options.sens_forw_p), S.isin(it_, ["ERK", "IRK"])))
    for k, e in EXPR.items():
        acc = And(acc, Or(it_ != k, Not(empty(getattr(o.model, e)))))
    return acc, u


def int_arrays(o, after):
    """settings given per interval are stored as integers"""
    r = []
    for f in FIELDS:
        v = getattr(o.solver_options, f)
        if isinstance_real(v, SymArr):
            a = getattr(after.solver_options, f)
            isint = isinstance_real(a, SymArr) and a.f(z3.IntVal(0)).sort() == z3.IntSort()
            r.append(Or(ln(v) == 1, isint))
        elif isinstance_real(v, np.ndarray) and v.size > 1:
            r.append(getattr(after.solver_options, f).dtype.kind in "iu")
    return r


def sim():
    m = "_make_consistent_simulation"
    base = {"solver_options.N_horizon": "int", "solver_options.time_steps": "vec"}
    pre = lambda o: [o.solver_options.N_horizon >= 1, ln(o.solver_options.time_steps) == o.solver_options.N_horizon]
    out = []
    exprs = {f"model.{e}": "sx" for e in set(EXPR.values())}
    types = sorted(EXPR)
    for f in FIELDS:
        for kind in ("int", "real", "vec"):
            out.append(scn(f"{f}.{kind}", m, {**base, f"solver_options.{f}": kind, "model.f_expl_expr": "sx"}, sim_spec, p=pre, extra=int_arrays))
    out.append(scn("integrator-type", m, {**base, **exprs, "solver_options.integrator_type": types, "code_gen_options.sens_forw_p": "bool"}, sim_spec, p=pre, extra=int_arrays))
    out.append(scn("all-vectors", m, {**base, "model.f_expl_expr": "sx", **{f"solver_options.{f}": "vec" for f in FIELDS}}, sim_spec, p=pre, extra=int_arrays))
    out.append(scn("no-horizon.sim", m, {"solver_options.time_steps": "vec", **exprs}, lambda o: (True, {}), {"solver_options.N_horizon": 0}))
    return out


def main():
    chk = Check("P14", "z3 on every path of the executed methods; grids of arbitrary length as index functions, sums as prefix functions",
                trusted=["z3", "vf/pysym.py path exploration", "vf/symarr.py model of the numpy operations used (cumsum, sum, average, max, min, concatenate, slices)"],
                assumptions=["floating point treated as real arithmetic", "tf > 0 and a positive sum of the time steps", "integrator settings other than the varied ones at their defaults"])
    import os
    only = os.environ.get("VF_ONLY")
    ts = [s for s in grid() + sim() if not only or only in s.name]
    run_tasks(chk, [s.task() for s in ts])
    return chk.finish("proof", 40 if not only else 1)

"""P04: cost and constraint reformulations keep the value of the cost they reformulate."""
import contextlib, io, itertools, os, random
import numpy as np
import casadi as ca
import scipy.linalg
import z3
from vf.core import Check, Unsupported, SEED
from vf.par import run_tasks
from vf.pysym import Engine, Patch, prove, to_py, isinstance_real
from vf.sxz3 import SXParam, convert
from vf import ocpspec as S, symarr
from vf.ocpspec import Scenario, And, Or, Ite, ln
from acados_template import AcadosOcp, AcadosModel, AcadosOcpConstraints, acados_ocp as m_ocp, utils as m_utils, penalty_utils
from checks.P03 import spec_one, spec_sym

SUF = {"initial": "_0", "path": "", "terminal": "_e"}
COSTS = ["LINEAR_LS", "NONLINEAR_LS", "CONVEX_OVER_NONLINEAR", "EXTERNAL"]


# ---- values: SX symbols in the proof, numbers in a replay
class Vals:
    def __init__(self, rnd=None):
        self.rnd, self.syms = rnd, []

    def mat(self, name, *shape):
        if self.rnd is not None:
            return np.array([[round(self.rnd.uniform(-2, 2), 2) for _ in range(shape[1])] for _ in range(shape[0])]).reshape(shape)
        if 0 in shape:
            return np.zeros(shape)
        s = ca.SX.sym(name, *shape)
        self.syms.append(s)
        return s

    def vec(self, name, n):
        if self.rnd is not None:
            return np.array([round(self.rnd.uniform(-2, 2), 2) for _ in range(n)])
        if n == 0:
            return np.zeros(0)
        s = ca.SX.sym(name, n)
        self.syms.append(s)
        return s

    def real(self, name, lo=-2, hi=2):
        if self.rnd is not None:
            return round(self.rnd.uniform(lo, hi), 2)
        p = SXParam(name)
        self.syms.append(p.sx)
        return p


class NPx:
    """numpy, extended to the symbolic entries a proof puts into cost fields"""
    def __getattr__(self, k): return getattr(np, k)

    def concatenate(self, xs, *a, **k):
        xs = list(xs)
        if any(isinstance_real(x, (ca.SX, SXParam)) for x in xs):
            return ca.vertcat(*[_sx(x) for x in xs])
        return np.concatenate(xs, *a, **k)

    def append(self, a, b, *r, **k):
        return self.concatenate((a, np.atleast_1d(b))) if isinstance_real(a, ca.SX) else np.append(a, b, *r, **k)

    def array(self, v, *a, **k):
        return v if isinstance_real(v, ca.SX) else np.array(v, *a, **k)


def _sx(x):
    if isinstance_real(x, SXParam):
        return x.sx
    if isinstance_real(x, np.ndarray) and x.size == 0:
        return ca.SX(0, 1)
    return ca.SX(x)


def block_diag(*xs):
    if any(isinstance_real(x, (ca.SX, SXParam)) for x in xs):
        return ca.diagcat(*[ca.SX(x.sx if isinstance_real(x, SXParam) else x) if not (isinstance_real(x, np.ndarray) and x.size == 0) else ca.SX(*x.shape) for x in xs])
    return scipy.linalg.block_diag(*xs)


class CAx:
    def __getattr__(self, k): return getattr(ca, k)

    def DM(self, v, *a):
        return v if isinstance_real(v, ca.SX) else ca.DM(v, *a)


SYMNAMES = dict(np=NPx(), block_diag=block_diag, ca=CAx())


def put(ocp, field, v):
    """stores v; symbolic values go past the type checks of the setter"""
    c = ocp.cost
    if isinstance_real(v, ca.SX) and not field.startswith(("yref", "W")):
        setattr(c, "_AcadosOcpCost__" + field, v)
    else:
        setattr(c, field, v)


def problem(V, types, dims, custom_hess=False):
    """a description with these cost types at initial, path, terminal; dims = nx, nu, nz, ny, np"""
    nx, nu, nz, ny, npar = dims
    o = AcadosOcp()
    m = o.model
    m.name = "m"
    m.x, m.u, m.z, m.p = ca.SX.sym("x", nx), ca.SX.sym("u", nu), ca.SX.sym("z", nz), ca.SX.sym("p", npar)
    m.xdot = ca.SX.sym("xdot", nx)
    m.p_global = ca.SX.sym("pg", 1)
    o.parameter_values, o.p_global_values = np.zeros(npar), np.zeros(1)
    for (st, suf), t in zip(SUF.items(), types):
        if t is None:
            continue
        setattr(o.cost, "cost_type" + suf, t)
        n = ny + (st == "terminal")
        put(o, "yref" + suf, V.vec(f"yref{suf}", n))
        if t != "EXTERNAL" and t != "CONVEX_OVER_NONLINEAR":
            put(o, "W" + suf, V.mat(f"W{suf}", n, n))
        if t == "LINEAR_LS":
            put(o, "Vx" + suf, V.mat(f"Vx{suf}", n, nx))
            if st != "terminal":
                put(o, "Vu" + suf, V.mat(f"Vu{suf}", n, nu))
                put(o, "Vz" + suf, V.mat(f"Vz{suf}", n, nz))
        w = ca.vertcat(m.x, m.u, m.z) if st != "terminal" else m.x
        if t in ("NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
            # general enough in values, first and second derivatives: a polynomial with free coefficients in x, u, z, p
            y = []
            for i in range(n):
                a, b = V.vec(f"a{suf}{i}", w.numel()), V.vec(f"b{suf}{i}", w.numel())
                e = sum(a[j] * w[j] for j in range(w.numel())) + sum(b[j] * w[j] * w[(j + i) % w.numel()] for j in range(w.numel()))
                y.append(e + (m.p[0] if npar else 0))
            setattr(m, "cost_y_expr" + suf, ca.vertcat(*y))
        if t == "CONVEX_OVER_NONLINEAR":
            r = ca.SX.sym("r" + suf, n)
            c, d = V.vec(f"c{suf}", n), V.vec(f"d{suf}", n)
            setattr(m, "cost_r_in_psi_expr" + suf, r)
            setattr(m, "cost_psi_expr" + suf, sum(c[i] * r[i] + d[i] * r[i] * r[(i + 1) % n] for i in range(n)) + (m.p[0] if npar else 0))
            if custom_hess:
                setattr(m, "cost_conl_custom_outer_hess" + suf, ca.SX(V.mat("H" + suf, n, n)) + 0 * r[0])
        if t == "EXTERNAL":
            a = V.vec(f"a{suf}", w.numel())
            setattr(m, "cost_expr_ext_cost" + suf, sum(a[j] * w[j] ** 3 for j in range(w.numel())) + (m.p[0] if npar else 0))
    return o


def value(o, st, yref=None, W=None):
    """the documented stage cost"""
    suf = SUF[st]
    m, c = o.model, o.cost
    g = lambda f: getattr(c, f + suf)
    t = g("cost_type")
    if t is None:
        return None
    yr = _sx(g("yref") if yref is None else yref)
    if t == "EXTERNAL":
        e = getattr(m, "cost_expr_ext_cost" + suf)
        return ca.SX(0) if isinstance_real(e, list) else ca.SX(e)
    if t == "CONVEX_OVER_NONLINEAR":
        y = getattr(m, "cost_y_expr" + suf)
        return ca.substitute(ca.SX(getattr(m, "cost_psi_expr" + suf)), getattr(m, "cost_r_in_psi_expr" + suf), y - yr)
    Wm = ca.SX(g("W") if W is None else W)
    if t == "LINEAR_LS":
        res = ca.SX(g("Vx")) @ m.x
        if st != "terminal":
            res = res + ca.SX(g("Vu")) @ m.u
            if m.z.numel():
                res = res + ca.SX(g("Vz")) @ m.z
    else:
        res = ca.SX(getattr(m, "cost_y_expr" + suf))
    res = res - yr
    tot = ca.SX(0)
    for i in range(res.numel()):
        for j in range(res.numel()):
            tot += 0.5 * res[i] * Wm[i, j] * res[j]
    return tot


def poly_zero(t):
    """is the term identically zero as a polynomial?"""
    s = z3.simplify(t, som=True)
    return z3.is_rational_value(s) and s.as_fraction() == 0


class Rejected(Exception):
    pass


class Case:
    """one reformulation: build(V) -> ocp, act(ocp, V), goals(before, ocp, V) -> list of (name, got SX, expected SX [, hypotheses]) or booleans"""
    def __init__(self, name, fns, build, act, before, goals, accept=None, never=False):
        self.name, self.fns, self.build, self.act, self.before, self.goals = name, fns, build, act, before, goals
        self.accept, self.never = accept, never

    def concrete(self, seed):
        """the case on numbers; None or a description of what fails"""
        rnd = random.Random(seed)
        V = Vals(rnd)
        o = self.build(V)
        b = self.before(o, V)
        acc = True if self.accept is None else bool(self.accept(o, V))
        inp = dict(case=self.name, seed=seed, cost={k: str(v) for k, v in o.cost.__dict__.items() if isinstance_real(v, np.ndarray) and v.size}, types=[o.cost.cost_type_0, o.cost.cost_type, o.cost.cost_type_e])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.act(o, V)
        except Exception as e:
            return dict(inp, what=f"{self.fns[0]} raised {type(e).__name__}: {e}") if acc else None
        if not acc:
            return dict(inp, what=f"{self.fns[0]} accepted an invalid request")
        try:
            gs = self.goals(b, o, V)
        except Exception as e:      # e.g. the resulting cost fields do not fit together
            return dict(inp, what=f"{self.name}: the resulting problem is inconsistent: {type(e).__name__}: {str(e)[-200:]}")
        for g in gs:
            if len(g) == 2:
                if not g[1]:
                    return dict(inp, what=f"{self.name}: {g[0]} fails")
                continue
            got, exp = ca.SX(g[1]), ca.SX(g[2])
            if got.shape != exp.shape:
                return dict(inp, what=f"{self.name}: {g[0]} has shape {got.shape}, specified {exp.shape}")
            fr = ca.symvar(ca.vertcat(ca.vec(got), ca.vec(exp)))
            F = ca.Function("F", fr, [ca.densify(got), ca.densify(exp)])
            for _ in range(6):
                pt = [round(rnd.uniform(-3, 3), 3) for _ in fr]
                r = F.call(pt)
                a, c = (r[0], r[1])
                if np.max(np.abs(np.array(a) - np.array(c))) > 1e-8 * (1 + np.max(np.abs(np.array(c)))):
                    return dict(inp, at=dict(zip(map(str, fr), pt)), what=f"{self.name}: {g[0]} is {a}, specified {c}")
        return None

    def search(self, n=40):
        for k in range(n):
            r = self.concrete(SEED * 1000 + k)
            if r is not None:
                return r, k + 1
        return None, n

    def verify(self, rec):
        rec.fn(*self.fns)
        V = Vals()
        o0 = self.build(V)
        eng = Engine()
        st = {}

        def thunk():
            V.syms.clear()
            o = self.build(V)
            b = self.before(o, V)
            acc = True if self.accept is None else self.accept(o, V)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    self.act(o, V)
            except Unsupported:
                raise
            except Exception as e:
                return "raise", e, acc, None, list(V.syms)
            try:
                gs = self.goals(b, o, V)
            except Unsupported:
                raise
            except Exception as e:
                gs = [(f"the resulting problem is consistent ({type(e).__name__})", False)]
            return "return", None, acc, gs, list(V.syms)
        fails, nret = [], 0
        with Patch(m_ocp, **SYMNAMES):
            for k, (pc, oc, val) in enumerate(eng.run(thunk)):
                if oc == "raise":
                    raise val if isinstance_real(val, Unsupported) else Unsupported(repr(val))
                kind, e, acc, gs, syms = val
                accz = acc.t if hasattr(acc, "t") else z3.BoolVal(bool(acc))
                if kind == "raise":
                    gl = [("rejects only invalid requests", z3.Not(accz))]
                else:
                    nret += 1
                    gl = [("accepts only valid requests", accz)]
                    for g in gs:
                        if len(g) == 2:
                            gl.append((g[0], z3.BoolVal(bool(g[1]))))
                            continue
                        got, exp = ca.SX(g[1]), ca.SX(g[2])
                        if got.shape != exp.shape:
                            gl.append((g[0], z3.BoolVal(False)))
                            continue
                        fr = ca.symvar(ca.vertcat(ca.vec(got), ca.vec(exp)))
                        env = [(s, [z3.Real(_nm(s, syms))]) for s in fr]
                        A, B = convert([got, exp], env)
                        for i, (a, c) in enumerate(zip(A, B)):
                            gl.append((f"{g[0]}[{i}]", True if poly_zero(a - c) else a == c))
                for nm, g in gl:
                    nm = f"{self.name}.path{k}: {nm}"
                    if g is True:
                        rec.discharged(nm, "z3 polynomial normal form")
                        continue
                    ok, m, secs = prove(list(pc), g, 10000)
                    if ok is True:
                        rec.discharged(nm, "z3", secs)
                    else:
                        fails.append((nm, ok))
        if fails:
            r, n = self.search()
            for nm, ok in fails:
                if r is not None:
                    rec.refuted(nm, r["what"], r)
                    break
                rec.bounded(nm, f"the solver did not decide the obligation ({ok})", "40 random problems", n)
        rec.cover(f"{self.name}: returns", nret > 0 or self.never)

    def task(self):
        def onfail(rec, e):
            r, n = self.search()
            rec.fn(*self.fns)
            if r is not None:
                rec.refuted(self.name, r["what"], r)
            else:
                rec.bounded(self.name, e, "40 random problems", n)
        return self.name, self.verify, onfail


def _nm(s, syms):
    return str(s)


STAGES = list(SUF)
DIMS = [(2, 1, 0, 2, 1), (1, 2, 1, 1, 0), (2, 2, 1, 3, 2), (1, 1, 0, 1, 0)]


def all_values(o, V):
    return {st: value(o, st) for st in STAGES}


def kept(b, o, V, types="EXTERNAL"):
    out = []
    for st in STAGES:
        if b[st] is None:
            out.append((f"{st} cost stays unset", getattr(o.cost, "cost_type" + SUF[st]) is None))
            continue
        out += [(f"{st} cost value", value(o, st), b[st]), (f"{st} cost type", getattr(o.cost, "cost_type" + SUF[st]) == types)]
    return out


def cases():
    out = []
    # EXTERNAL
    for d in DIMS:
        for t in COSTS:
            for t0 in (t, None):
                b = lambda V, t=t, t0=t0, d=d: problem(V, (t0, t, t), d)
                out.append(Case(f"external.{t}.{'initial' if t0 else 'no-initial'}.{d}", ["AcadosOcp.translate_cost_to_external_cost"], b, lambda o, V: o.translate_cost_to_external_cost(), all_values, kept))
                gn = t in ("LINEAR_LS", "NONLINEAR_LS")

                def goals_gn(bb, o, V, t=t):
                    r = kept(bb["v"], o, V)
                    for st in STAGES:
                        if bb["v"][st] is None:
                            continue
                        h = getattr(o.model, "cost_expr_ext_cost_custom_hess" + SUF[st])
                        if t == "NONLINEAR_LS":
                            r.append((f"{st} Gauss-Newton Hessian", h, bb["h"][st]))
                        else:
                            r.append((f"{st} no custom Hessian", isinstance_real(h, list) or h is None))
                    return r

                def before_gn(o, V, t=t):
                    h = {}
                    for st in STAGES:
                        y = getattr(o.model, "cost_y_expr" + SUF[st])
                        if t == "NONLINEAR_LS" and not isinstance_real(y, list):
                            w = ca.vertcat(o.model.u, o.model.x) if st != "terminal" else o.model.x
                            W = ca.SX(getattr(o.cost, "W" + SUF[st]))
                            n, k = y.numel(), w.numel()
                            J = [[ca.jacobian(y[i], w[j]) for j in range(k)] for i in range(n)]
                            h[st] = ca.vertcat(*[ca.horzcat(*[sum((J[a][i] * W[a, c] * J[c][j] for a in range(n) for c in range(n)), ca.SX(0)) for j in range(k)]) for i in range(k)])
                    return dict(v=all_values(o, V), h=h)
                out.append(Case(f"external-gn.{t}.{'initial' if t0 else 'no-initial'}.{d}", ["AcadosOcp.translate_cost_to_external_cost"], b, lambda o, V: o.translate_cost_to_external_cost(cost_hessian="GAUSS_NEWTON"),
                                before_gn, goals_gn, accept=lambda o, V, gn=gn: gn, never=not gn))
        # symbolic references and weights, with new parameters
        for t in COSTS[:3]:
            for glob in (False, True):
                def act(o, V, glob=glob, t=t, d=d):
                    n, ne = d[3], d[3] + 1
                    pn = ca.SX.sym("pnew", 2)
                    val = np.array([0.3, -1.25])
                    o.vf = {}
                    for st in STAGES:
                        k = ne if st == "terminal" else n
                        o.vf[st] = (pn[0] * ca.SX.ones(k) + ca.DM(range(k)), pn[1] * ca.SX.eye(k) + ca.SX.ones(k, k)) if t != "CONVEX_OVER_NONLINEAR" else (pn[0] * ca.SX.ones(k), None)
                    exp = {st: value(o, st, *o.vf[st]) for st in STAGES}
                    kw = dict(p_global=pn, p_global_values=val) if glob else dict(p=pn, p_values=val)
                    for st in STAGES:
                        kw["yref" + SUF[st]], kw["W" + SUF[st]] = o.vf[st]
                    old = (o.model.p, o.model.p_global, o.parameter_values, o.p_global_values)
                    o.translate_cost_to_external_cost(**kw)
                    o.vf = (exp, old, pn, val)

                def goals(b, o, V, glob=glob):
                    exp, (p, pg, pv, pgv), pn, val = o.vf
                    r = kept(exp, o, V)
                    ps, pgs = (p, ca.vertcat(pg, pn)) if glob else (ca.vertcat(p, pn), pg)
                    cat = NPx().concatenate
                    vs, vgs = (pv, cat((pgv, val))) if glob else (cat((pv, val)), pgv)
                    return r + [("parameters", o.model.p, ps), ("global parameters", o.model.p_global, pgs), ("parameter values", _sx(o.parameter_values), _sx(vs)), ("global parameter values", _sx(o.p_global_values), _sx(vgs))]
                out.append(Case(f"external-parametric.{t}.{'global' if glob else 'stage'}.{d}", ["AcadosOcp.translate_cost_to_external_cost"], lambda V, t=t, d=d: problem(V, (t, t, t), d), act, lambda o, V: None, goals))
        # CONL
        for ts in itertools.product(("NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"), repeat=3):
            for no0 in (False, True):
                if no0 and ts[0] != "NONLINEAR_LS":
                    continue
                tt = (None,) + ts[1:] if no0 else ts
                if d[3] > 2:
                    continue
                out.append(Case(f"conl.{'.'.join(str(t)[:4] for t in tt)}.{d}", ["AcadosOcp.translate_nls_cost_to_conl"], lambda V, tt=tt, d=d: problem(V, tt, d), lambda o, V: o.translate_nls_cost_to_conl(), all_values, lambda b, o, V: kept(b, o, V, "CONVEX_OVER_NONLINEAR")))
        for k in range(3):
            for t in ("LINEAR_LS", "EXTERNAL"):
                ts = ["NONLINEAR_LS"] * 3
                ts[k] = t
                out.append(Case(f"conl.reject{k}.{t}.{d}", ["AcadosOcp.translate_nls_cost_to_conl"], lambda V, ts=ts, d=d: problem(V, ts, d), lambda o, V: o.translate_nls_cost_to_conl(), all_values, lambda b, o, V: [], accept=lambda o, V: False, never=True))
        # the expression of the stage cost
        for t in COSTS:
            def expr(b, o, V):
                y = ca.SX.sym("newref", d_[3]), ca.SX.sym("newref", d_[3] + 1)
                r = []
                for st, f in zip(STAGES, (o.get_initial_cost_expression, o.get_path_cost_expression, o.get_terminal_cost_expression)):
                    yy = y[st == "terminal"]
                    r += [(f"{st} expression", f(), value(o, st)), (f"{st} expression for a given reference", f(yy), value(o, st, yy))]
                return r
            d_ = d
            out.append(Case(f"expression.{t}.{d}", ["AcadosOcp._get_cost_expression"], lambda V, t=t, d=d: problem(V, (t, t, t), d), lambda o, V: None, all_values,
                            lambda b, o, V, d=d: [g for st, f in zip(STAGES, (o.get_initial_cost_expression, o.get_path_cost_expression, o.get_terminal_cost_expression)) for g in
                                                  [(f"{st} expression", f(), value(o, st))] + [(f"{st} expression for a given reference", f(yy), value(o, st, yy)) for yy in [ca.SX.sym("newref", d[3] + (st == "terminal"))]]]))
    # penalties
    d = (2, 1, 0, 2, 1)
    for st, t in itertools.product(STAGES, COSTS):
        for up, lo in ((1, 1), (1, 0), (0, 1), (0, 0)):
            def act(o, V, st=st, up=up, lo=lo):
                o.vf = (V.real("ub") if up else None, V.real("lb") if lo else None, V.real("weight", 0.1, 3))
                o.formulate_constraint_as_L2_penalty(con(o, st), o.vf[2], o.vf[0], o.vf[1], constraint_type=st)

            def acc(o, V, t=t, up=up, lo=lo):
                if t == "LINEAR_LS" or not (up or lo):
                    return False
                if up and lo:
                    V2 = Vals(random.Random()) if V.rnd else V
                    if V.rnd:
                        s = V.rnd.getstate()
                        u, l = V.real("ub"), V.real("lb")
                        V.rnd.setstate(s)
                        return u >= l
                    return z3b(z3.Real("ub") >= z3.Real("lb"))
                return True

            def goals(b, o, V, st=st):
                ub, lb, w = o.vf
                c = con(o, st)
                viol = ca.SX(0)
                if ub is not None:
                    viol = ca.fmax(viol, c - _sx(ub))
                if lb is not None:
                    viol = ca.fmax(viol, _sx(lb) - c)
                return [(f"{s} cost value", value(o, s), b[s] + (0.5 * _sx(w) * viol ** 2 if s == st else 0)) for s in STAGES] + \
                    [(f"{s} cost type", getattr(o.cost, "cost_type" + SUF[s]) == t0) for s, t0 in zip(STAGES, o.vft)]
            out.append(Case(f"l2.{st}.{t}.{'upper' if up else ''}{'lower' if lo else ''}", ["AcadosOcp.formulate_constraint_as_L2_penalty", "AcadosOcp._add_L2_penalty_stage"],
                            lambda V, t=t: tag(problem(V, (t, t, t), d), t), act, all_values, goals, accept=acc, never=t == "LINEAR_LS" or not (up or lo)))
        if t != "CONVEX_OVER_NONLINEAR":
            continue
        for up, lo in ((1, 1), (1, 0), (0, 1), (0, 0)):
            for xgn, ch in itertools.product((True, False), (True, False)):
                def act(o, V, st=st, up=up, lo=lo, xgn=xgn):
                    o.vf = (V.real("ub", 0, 2) if up else None, V.real("lb", -2, -0.1) if lo else None, V.real("weight", 0.1, 3), V.real("delta", 0.1, 2), V.real("minh", 0, 1))
                    o.formulate_constraint_as_Huber_penalty(con(o, st), o.vf[2], o.vf[0], o.vf[1], huber_delta=o.vf[3], use_xgn=xgn, min_hess=o.vf[4], constraint_type=st)

                def acc(o, V, up=up, lo=lo):
                    if not up:
                        return False
                    if V.rnd:
                        return True
                    c = z3.Real("delta") >= 0
                    return z3b(z3.And(c, z3.Real("ub") >= z3.Real("lb")) if lo else c)

                def goals(b, o, V, st=st, xgn=xgn):
                    ub, lb, w, dl, mh = [None if x is None else _sx(x) for x in o.vf]
                    c = con(o, st)
                    if lb is None:
                        P, r0 = penalty_utils.one_sided_huber_penalty, c - ub
                        args = dict(w=o.vf[2])
                    else:
                        P = penalty_utils.symmetric_huber_penalty
                        width = o.vf[0] - o.vf[1]
                        r0 = 2 * (c - (lb + 0.5 * (ub - lb))) / (ub - lb)
                        args = dict(w=o.vf[2] * width ** 2)
                    rr = ca.SX.sym("vfr")
                    pen, _, ph, px = P(rr, delta=o.vf[3], min_hess=o.vf[4], **args)
                    rn = getattr(o.model, "cost_r_in_psi_expr" + SUF[st])
                    k = rn.numel()
                    g = [(f"{s} cost value", value(o, s), b["v"][s] + (ca.substitute(pen, rr, r0) if s == st else 0)) for s in STAGES]
                    H = getattr(o.model, "cost_conl_custom_outer_hess" + SUF[st])
                    h0 = b["h"][st]
                    if h0 is None and not xgn:
                        g.append(("no custom Hessian", isinstance_real(H, list) or H is None))
                    else:
                        old = b["x"][st] if h0 is None else h0
                        g.append(("outer Hessian", H, ca.substitute(ca.diagcat(old, px if xgn else ph), rr, rn[k - 1])))
                    g.append(("one residual is added", k == b["n"][st] + 1))
                    return g

                def before(o, V):
                    h = {s: getattr(o.model, "cost_conl_custom_outer_hess" + SUF[s]) for s in STAGES}
                    return dict(v=all_values(o, V), h={s: None if isinstance_real(x, list) or x is None else x for s, x in h.items()},
                                n={s: getattr(o.model, "cost_r_in_psi_expr" + SUF[s]).numel() for s in STAGES},
                                x={s: ca.densify(ca.hessian(getattr(o.model, "cost_psi_expr" + SUF[s]), getattr(o.model, "cost_r_in_psi_expr" + SUF[s]))[0]) for s in STAGES})
                out.append(Case(f"huber.{st}.{'upper' if up else ''}{'lower' if lo else ''}.{'xgn' if xgn else 'ggn'}.{'custom' if ch else 'exact'}", ["AcadosOcp.formulate_constraint_as_Huber_penalty", "AcadosOcp._add_Huber_penalty_stage"],
                                lambda V, t=t, ch=ch: problem(V, (t, t, t), d, ch), act, before, goals, accept=acc, never=not up))
    for st, t in itertools.product(STAGES, ("LINEAR_LS", "NONLINEAR_LS", "EXTERNAL")):
        out.append(Case(f"huber.reject.{st}.{t}", ["AcadosOcp.formulate_constraint_as_Huber_penalty"], lambda V, t=t: problem(V, (t, t, t), d),
                        lambda o, V, st=st: o.formulate_constraint_as_Huber_penalty(con(o, st), 1.0, 1.0, constraint_type=st), all_values, lambda b, o, V: [], accept=lambda o, V: False, never=True))
    # feasibility problem
    for kx, kc, px, x0 in itertools.product((False, True), repeat=4):
        for nz in (0, 1) if not kc else (0,):
            for pat in range(3):
                out.append(feas(kx, kc, px, x0, pat))
    return out


def z3b(c):
    class R:
        pass
    r = R()
    r.t = c
    return r


def tag(o, t):
    o.vft = (t, t, t)
    return o


def con(o, st):
    m = o.model
    return m.x[0] * m.x[1] + (m.u[0] if st != "terminal" else 0) + m.p[0]


def feas(kx, kc, px, x0, pat):
    """pat chooses which constraint kinds are present"""
    has = lambda k: pat == 0 or (pat == 1) == (k in ("bx", "g", "phi"))

    def build(V):
        rnd = V.rnd
        o = problem(V, ("NONLINEAR_LS", "NONLINEAR_LS", "NONLINEAR_LS") if pat != 1 else (None, "NONLINEAR_LS", "NONLINEAR_LS"), (2, 1, 0, 1, 1))
        m, k = o.model, o.constraints
        num = Vals(random.Random(7) if rnd is None else rnd)      # bounds are stored as floats: numbers in both modes
        bnd = lambda n: (lambda a: (a, a + np.arange(n) * .5 + .25))(num.vec("", n))
        if has("bx"):
            k.idxbx = np.array([1]); k.lbx, k.ubx = bnd(1)
            k.idxbx_e = np.array([1, 0]); k.lbx_e, k.ubx_e = bnd(2)
        if has("bu"):
            k.idxbu = np.array([0]); k.lbu, k.ubu = bnd(1)
        if has("g"):
            k.C, k.D = num.mat("", 2, 2), num.mat("", 2, 1)
            k.lg, k.ug = bnd(2)
            k.C_e = num.mat("", 1, 2)
            k.lg_e, k.ug_e = bnd(1)
        if has("h"):
            m.con_h_expr = ca.vertcat(m.x[0] ** 2 + m.u[0], m.x[1] * m.p[0]); k.lh, k.uh = bnd(2)
            m.con_h_expr_0 = ca.vertcat(m.x[0] - m.u[0] ** 2); k.lh_0, k.uh_0 = bnd(1)
            m.con_h_expr_e = ca.vertcat(m.x[0] * m.x[1]); k.lh_e, k.uh_e = bnd(1)
        if has("phi"):
            for s in ("", "_0", "_e"):
                r = ca.SX.sym("rphi", 2)
                setattr(m, "con_r_in_phi" + s, r)
                setattr(m, "con_r_expr" + s, ca.vertcat(m.x[0], m.x[1] ** 2 if s != "_e" else m.x[1]))
                setattr(m, "con_phi_expr" + s, r[0] ** 2 + r[1] if s != "_0" else r[0] + 3 * r[1] ** 2)
                a, b = bnd(1)
                setattr(k, "lphi" + s, a)
                setattr(k, "uphi" + s, b)
        if x0:
            k.x0 = num.vec("", 2)
        elif has("bx"):
            k.idxbx_0 = np.array([0]); k.lbx_0, k.ubx_0 = bnd(1)
        return o

    def before(o, V):
        m, k = o.model, o.constraints
        v = all_values(o, V)
        if v["initial"] is None:
            v["initial"] = v["path"]
        tot = {st: v[st] if kc else ca.SX(0) for st in STAGES}
        pen = lambda e, l, u: 0.5 * ca.fmax(ca.fmax(0, e - u), l - e) ** 2
        L = {"path": [(m.x[k.idxbx.tolist()], k.lbx, k.ubx), (m.u[k.idxbu.tolist()], k.lbu, k.ubu), (m.con_h_expr, k.lh, k.uh)],
             "terminal": [(m.x[k.idxbx_e.tolist()], k.lbx_e, k.ubx_e), (m.con_h_expr_e, k.lh_e, k.uh_e)],
             "initial": [(m.u[k.idxbu.tolist()], k.lbu, k.ubu), (m.con_h_expr_0, k.lh_0, k.uh_0)]}
        if k.lg.size:
            g = ca.SX(k.C) @ m.x + ca.SX(k.D) @ m.u
            L["path"].append((g, k.lg, k.ug)); L["initial"].append((g, k.lg, k.ug))
        if k.lg_e.size:
            L["terminal"].append((ca.SX(k.C_e) @ m.x, k.lg_e, k.ug_e))
        for st in STAGES:
            s = SUF[st]
            if not isinstance_real(getattr(m, "con_phi_expr" + s), list):
                L[st].append((ca.substitute(getattr(m, "con_phi_expr" + s), getattr(m, "con_r_in_phi" + s), getattr(m, "con_r_expr" + s)), getattr(k, "lphi" + s), getattr(k, "uphi" + s)))
        for st in STAGES:
            for e, l, u in L[st]:
                for i in range(0 if isinstance_real(e, list) else e.numel()):
                    tot[st] = tot[st] + pen(e[i], float(l[i]), float(u[i]))
        return dict(v=tot, x0=(m.x[k.idxbx_0.tolist()], np.array(k.lbx_0), np.array(k.ubx_0)), p=m.p, pv=o.parameter_values, xx=np.array(k.lbx_0))

    def goals(b, o, V):
        e, l, u = b["x0"]
        m = o.model
        init = b["v"]["initial"]
        par = m.p[b["p"].numel():]
        for i in range(e.numel()):
            a, c = (par[i], par[i]) if px else (float(l[i]), float(u[i]))
            init = init + 0.5 * ca.fmax(ca.fmax(0, e[i] - c), a - e[i]) ** 2
        g = [("path cost value", value(o, "path"), b["v"]["path"]), ("terminal cost value", value(o, "terminal"), b["v"]["terminal"]), ("initial cost value", value(o, "initial"), init),
             ("parameters", m.p.numel() == b["p"].numel() + (e.numel() if px else 0)), ("parameter values", bool(np.allclose(np.array(o.parameter_values, dtype=float), np.concatenate((b["pv"], b["xx"] if px else np.zeros(0))))))]
        k, ref = o.constraints, AcadosOcpConstraints()
        if kx:
            ref.x0 = b["xx"]
        for f in ("lbx", "ubx", "idxbx", "lbu", "ubu", "idxbu", "lg", "ug", "C", "D", "lh", "uh", "lphi", "uphi", "lbx_0", "ubx_0", "idxbx_0", "idxbxe_0", "lh_0", "uh_0", "lphi_0", "uphi_0", "lbx_e", "ubx_e", "idxbx_e", "C_e", "lg_e", "ug_e", "lh_e", "uh_e", "lphi_e", "uphi_e"):
            g.append((f"{f} is reset", bool(np.array_equal(getattr(k, f), getattr(ref, f)))))
        for s in ("", "_0", "_e"):
            for f in ("con_h_expr", "con_phi_expr", "con_r_expr", "con_r_in_phi"):
                v = getattr(m, f + s)
                g.append((f"{f}{s} is removed", (isinstance_real(v, list) and v == []) or v is None or v.numel() == 0))
        return g
    ok = not ((kx or px) and not x0) and not (kx and px)
    return Case(f"feasibility.keep_x0={kx}.keep_cost={kc}.parametric={px}.x0={x0}.constraints{pat}", ["AcadosOcp.translate_to_feasibility_problem", "AcadosOcp.remove_all_constraints"], build,
                lambda o, V: o.translate_to_feasibility_problem(keep_x0=kx, keep_cost=kc, parametric_x0=px), before, goals, accept=lambda o, V: ok, never=not ok)


# ---- add_linear_constraint: arrays of symbolic size; the arguments are carried in fields the method does not touch
class CA:
    def __getattr__(self, k): return getattr(ca, k)

    def vertcat(self, *xs):
        return symarr.cat(list(xs)) if any(isinstance_real(x, symarr.SymArr) for x in xs) else ca.vertcat(*xs)


def lincon(first):
    cat = lambda a, b: symarr.cat([a, b]) if isinstance_real(a, symarr.SymArr) else np.concatenate((a, b))

    def spec(o):
        k = o.constraints
        C, D, l, u = k.C_e, o.cost.Vu, k.lg_e, k.ug_e
        acc = And(C.shape[0] == ln(l), C.shape[0] == ln(u), D.shape[0] == C.shape[0])
        return acc, {f"constraints.{f}": (v if first else cat(getattr(k, f), v)) for f, v in (("C", C), ("D", D), ("lg", l), ("ug", u))}

    def pre(o):
        k = o.constraints
        r = [k.C_e.shape[0] >= 1, k.D.shape[0] == k.C.shape[0], ln(k.lg) == k.C.shape[0], ln(k.ug) == k.C.shape[0]]
        return r + ([k.C.shape[0] == 0] if first else [k.C.shape[0] >= 1, k.C.shape[1] == k.C_e.shape[1], k.D.shape[1] == o.cost.Vu.shape[1], k.C.shape[1] >= 1, k.D.shape[1] >= 1])
    v = {f"constraints.{f}": t for f, t in (("C_e", "mat"), ("lg_e", "vec"), ("ug_e", "vec"), ("C", "mat"), ("D", "mat"), ("lg", "vec"), ("ug", "vec"))}
    v["cost.Vu"] = "mat"
    return Scenario(f"linear-constraint.{'first' if first else 'further'}", AcadosOcp, "add_linear_constraint", v, spec, pre=pre, mods=(m_ocp, m_utils), stubs=dict(ca=CA()),
                    callee=lambda s: AcadosOcp.add_linear_constraint(s, s.constraints.C_e, s.cost.Vu, s.constraints.lg_e, s.constraints.ug_e))


def main():
    chk = Check("P04", "z3 (polynomial normal form, real arithmetic) on the CasADi graphs the executed methods build",
                trusted=["z3", "CasADi expression construction, substitution and differentiation (executed)", "vf/sxz3.py conversion", "vf/pysym.py path exploration"],
                assumptions=["floating point treated as real arithmetic", "dimensions nx, nu, nz, ny, np at most 3: the methods treat expressions as opaque values, larger sizes are not proved",
                             "bounds of the feasibility problem are numbers (one set), weights, references, selection matrices and expression coefficients are arbitrary reals"])
    only = os.environ.get("VF_ONLY")
    run_tasks(chk, [c.task() for c in cases() + [lincon(True), lincon(False)] if not only or only in c.name])
    return chk.finish("proof", 300 if not only else 1)

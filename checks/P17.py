"""P17: make_consistent rejects every unsupported combination of options, accepts the supported ones and completes defaults."""
import os, itertools
import numpy as np
import casadi as ca
import z3
from vf.core import Check, Unsupported
from vf.par import run_tasks
from vf.pysym import isinstance_real, SymNum, SymBool
from vf import ocpspec as S, symarr
from vf.symarr import SymArr
from vf.ocpspec import Scenario, And, Or, Not, Implies, Ite, ln, anyof, empty, isin, same
from acados_template import AcadosOcp, AcadosModel, acados_ocp as m_ocp, utils as m_utils, acados_model as m_model
from acados_template.zoro_description import ZoroDescription
from acados_template.acados_code_gen_options import AcadosCodeGenOptions

MODS = (m_ocp, m_utils)
INFTY = 1e10
QPS = ['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_QPOASES', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_QPDUNES',
       'PARTIAL_CONDENSING_OSQP', 'PARTIAL_CONDENSING_CLARABEL', 'FULL_CONDENSING_DAQP']
NLPS = ['SQP', 'SQP_RTI', 'DDP', 'SQP_WITH_FEASIBLE_QP']
COSTS = ['LINEAR_LS', 'NONLINEAR_LS', 'EXTERNAL', 'CONVEX_OVER_NONLINEAR']
INTEG = ['ERK', 'IRK', 'GNSF', 'DISCRETE', 'LIFTED_IRK']
GLOB = ['FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH']
HESS = ['GAUSS_NEWTON', 'EXACT']
DEPRECATED = ['ext_fun_compile_flags', 'ext_fun_expand_constr', 'ext_fun_expand_cost', 'ext_fun_expand_precompute', 'ext_fun_expand_dyn',
              'model_external_shared_lib_dir', 'model_external_shared_lib_name', 'with_solution_sens_wrt_params', 'with_value_sens_wrt_params', 'sens_forw_p']
BOUNDS_E = ['lbx_e', 'ubx_e', 'lg_e', 'ug_e', 'lh_e', 'uh_e', 'lphi_e', 'uphi_e']
BOUNDS_P = ['lbx_0', 'ubx_0', 'lbx', 'ubx', 'lg', 'ug', 'lh_0', 'uh_0', 'lh', 'uh', 'lbu', 'ubu', 'lphi_0', 'uphi_0', 'lphi', 'uphi']
IDX_E = ['idxbx_e', 'idxsbx_e', 'idxsg_e', 'idxsh_e', 'idxsphi_e']
IDX_P = ['idxbx_0', 'idxbxe_0', 'idxbx', 'idxbu', 'idxsbx', 'idxsbu', 'idxsg', 'idxsh_0', 'idxsh', 'idxsphi_0', 'idxsphi']
TERM = ('cost_expr_ext_cost_e', 'cost_expr_ext_cost_custom_hess_e', 'cost_y_expr_e', 'cost_psi_expr_e', 'cost_conl_custom_outer_hess_e',
        'con_h_expr_e', 'con_phi_expr_e', 'con_r_expr_e')
PARTS_CALLED = ['cost_initial', 'cost_path', 'cost_terminal', 'constraints_initial', 'constraints_path', 'constraints_terminal', 'discretization', 'simulation']
DEF = AcadosCodeGenOptions()


def dep(expr, sym):
    if isinstance_real(expr, (type(None), list)) or isinstance_real(sym, list) or S.empty(expr):
        return False
    return any(ca.which_depends(expr, sym))


def spec(o, mocp_info=None):
    c, so, d, k, m = o.cost, o.solver_options, o.dims, o.constraints, o.model
    acc, u = True, {}
    A = []
    # horizon
    N = so.N_horizon
    if N is None and d.N is None:
        return False, {}
    if N is None:
        N = d.N
    elif d.N is not None:
        A.append(N == d.N)
    u["solver_options.N_horizon"] = N
    u["dims.N"] = N
    pos = N > 0
    # state dimension may only change across a single interval
    n_here = mocp_info["N_list"][mocp_info["phase_idx"]] if mocp_info is not None else N
    A.append(Or(d.nx == d.nx_next, n_here <= 1))
    # options moved to the code generation options
    cg = {}
    for f in DEPRECATED:
        old, new, df = getattr(so, f), getattr(o.code_gen_options, f), getattr(DEF, f)
        cg[f] = Ite(And(Not(same(old, df)), same(new, df)), old, new) if isinstance_real(old, (SymBool, bool)) else (old if old != df and new == df else new)
        u["code_gen_options." + f] = cg[f]
    A += [ln(o.parameter_values) == d.np, ln(o.p_global_values) == d.np_global]
    c0, cp, ce = c.cost_type_0, c.cost_type, c.cost_type_e
    # cost integration
    integ = ['NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR']
    A.append(Or(Not(pos), so.cost_discretization != 'INTEGRATOR', And(isin(c0, integ), isin(cp, integ), so.nlp_solver_type != 'SQP_WITH_FEASIBLE_QP')))
    # indices
    for f in IDX_E:
        A.append(Not(anyof(getattr(k, f), lambda v: v < 0)))
    qpdunes = so.qp_solver == 'PARTIAL_CONDENSING_QPDUNES'
    for f in IDX_P:
        ok = Or(Not(pos), Not(anyof(getattr(k, f), lambda v: v < 0)))
        A.append(Or(qpdunes, ok) if f == 'idxbxe_0' else ok)
    u["constraints.idxbxe_0"] = Ite(qpdunes, S.zeros(0) if not S.sym(qpdunes) else SymArr((0,), lambda i: z3.RealVal(0)), k.idxbxe_0)
    # slack formulations
    rev = [Not(empty(getattr(k, f))) for f in ('idxs_rev_0', 'idxs_rev', 'idxs_rev_e')]
    for f in ('idxsbx', 'idxsbu', 'idxsg', 'idxsh_0', 'idxsh', 'idxsphi_0', 'idxsphi'):
        A.append(Or(And(Not(rev[0]), Not(rev[1])), empty(getattr(k, f))))
    hp = isin(so.qp_solver, ['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM'])
    A.append(Or(Not(Or(*rev)), And(hp, so.nlp_solver_type != 'SQP_WITH_FEASIBLE_QP')))
    # one-sided constraints
    onesided = isin(so.qp_solver, ['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP'])
    for f in BOUNDS_E + ['lbx_0', 'ubx_0'] + BOUNDS_P:
        b = getattr(k, f)
        fin = Not(anyof(b, lambda v: Or(v >= INFTY, v <= -INFTY)))
        A.append(Or(onesided, fin) if f in BOUNDS_E + ['lbx_0', 'ubx_0'] else Or(onesided, Not(pos), fin))
    # cost scaling
    cs = so.cost_scaling
    if cs is None:
        cs = symarr.cat([symarr.to_arr(so.time_steps), symarr.to_arr([1.0])]) if isinstance_real(so.time_steps, SymArr) else np.append(so.time_steps, 1.0)
    A.append(ln(cs) == N + 1)
    u["solver_options.cost_scaling"] = cs
    # fixed Hessian
    A.append(Or(Not(so.fixed_hess != 0), And(so.hessian_approx != 'EXACT', ce == 'LINEAR_LS', Or(Not(pos), And(cp == 'LINEAR_LS', c0 == 'LINEAR_LS')))))
    # condensing
    cN = N if so.qp_solver_cond_N is None else so.qp_solver_cond_N
    u["solver_options.qp_solver_cond_N"] = cN
    A.append(cN <= N)
    bs = so.qp_solver_cond_block_size
    if bs is not None:
        tot = 0
        for b in bs:
            tot = b + tot
        A += [tot == N, cN + 1 == len(bs)]
    # sensitivities
    types = Or(Not(pos), And(isin(c0, ['EXTERNAL', 'LINEAR_LS']), isin(cp, ['EXTERNAL', 'LINEAR_LS'])))
    okc = And(types, isin(ce, ['EXTERNAL', 'LINEAR_LS']))
    pg = [dep(getattr(m, f), m.p_global) for f in ('con_phi_expr_e', 'con_r_expr_e')]
    pgp = [dep(getattr(m, f), m.p_global) for f in ('con_phi_expr', 'con_phi_expr_0', 'con_r_expr', 'con_r_expr_0')]
    sens = And(d.np_global != 0, okc, Or(Not(pos), so.integrator_type == 'DISCRETE'), Not(Or(*pg)), Or(Not(pos), Not(Or(*pgp))))
    A.append(Or(Not(so.with_solution_sens_wrt_params), And(sens, hp)))
    A.append(Or(Not(so.with_value_sens_wrt_params), sens))
    A.append(Or(so.tau_min <= 0, hp))
    # DDP
    ddp = so.nlp_solver_type == 'DDP'
    A.append(Or(Not(ddp), And(pos, so.qp_solver == 'PARTIAL_CONDENSING_HPIPM', cN == N, d.nbu == 0, d.nbx == 0, d.ng == 0, d.nh == 0, d.nphi == 0,
                              d.ng_e == 0, d.nphi_e == 0, d.nh_e == 0)))
    scaling = Or(so.qpscaling_scale_constraints != 'NO_CONSTRAINT_SCALING', so.qpscaling_scale_objective != 'NO_OBJECTIVE_SCALING')
    rti = so.nlp_solver_type == 'SQP_RTI'
    A.append(Not(And(scaling, rti)))
    A.append(Or(so.nlp_qp_tol_strategy != 'ADAPTIVE_QPSCALING', scaling))
    A.append(Or(Not(rti), so.nlp_qp_tol_strategy == 'FIXED_QP_TOL'))
    red = so.regularize_method == 'PROJECT_REDUC_HESS'
    u["solver_options.qp_solver_ric_alg"] = Ite(red, 0, so.qp_solver_ric_alg)
    u["solver_options.qp_solver_cond_ric_alg"] = Ite(red, 0, so.qp_solver_cond_ric_alg)
    # globalization defaults
    fun = so.globalization == 'FUNNEL_L1PEN_LINESEARCH'
    small = Or(fun, And(ddp, so.globalization == 'MERIT_BACKTRACKING'))
    for f, a, b in (("globalization_alpha_min", 1e-17, 0.05), ("globalization_eps_sufficient_descent", 1e-6, 1e-4),
                    ("eval_residual_at_max_iter", True, False), ("globalization_full_step_dual", 1, 0), ("nlp_solver_tol_min_step_norm", 1e-12, 0.0)):
        if getattr(so, f) is None:
            u["solver_options." + f] = Ite(small, a, b)
    # AS-RTI, funnel
    ls = lambda t: isin(t, ['LINEAR_LS', 'NONLINEAR_LS'])
    anyls = Or(ls(ce), And(pos, Or(ls(c0), ls(cp))))
    A.append(Or(Not(Or(so.as_rti_level == 1, so.as_rti_level == 2)), Not(anyls)))
    A.append(Or(Not(fun), isin(so.nlp_solver_type, ['SQP', 'SQP_WITH_FEASIBLE_QP'])))
    if o.zoro_description is not None:
        A.append(pos)
    A.append(Or(Not(so.nlp_solver_warm_start_first_qp_from_nlp), And(so.qp_solver == 'PARTIAL_CONDENSING_HPIPM', cN == N)))
    A.append(Or(Not(so.with_anderson_acceleration), And(Not(ddp), so.globalization == 'FIXED_STEP')))
    for f in TERM:
        v = getattr(m, f)
        if not empty(v):
            A.append(not (ca.depends_on(v, m.u) or ca.depends_on(v, m.z)))
    u["code_gen_options.generate_hess"] = so.hessian_approx == 'EXACT'
    return And(*A), u, {"constraints.x0", "constraints.has_x0"}


class Calls:
    def __init__(self): self.log = []


def calls_ok(o, after):
    """which parts run, and in an order in which each finds the dimensions it reads"""
    log = list(after.vf_calls)
    r = []
    for p in PARTS_CALLED:
        r.append(log.count(p) == 1)
    r.append(log.count("zoro") == (o.zoro_description is not None))
    k = o.constraints
    for s, f in (("path", "idxs_rev"), ("initial", "idxs_rev_0"), ("terminal", "idxs_rev_e")):
        e = empty(getattr(k, f))
        a, b = log.count("slacks_" + s), log.count("slacks_rev_" + s)
        r += [a + b == 1, (Not(e) if b else e)]
    if all(x is not False for x in r):
        pos = lambda s: next((i for i, n in enumerate(log) if n == s or n == s.replace("slacks_", "slacks_rev_")), None)
        order = [("cost_initial", "slacks_initial"), ("constraints_path", "slacks_path"), ("constraints_initial", "slacks_initial"), ("constraints_terminal", "slacks_terminal"),
                 ("slacks_path", "slacks_initial"), ("constraints_path", "slacks_initial"), ("discretization", "simulation"), ("model", "cost_initial"), ("model", "constraints_initial")]
        r += [pos(a) < pos(b) for a, b in order]
    return r


ALLPARTS = PARTS_CALLED + [f"slacks_{s}" for s in ("initial", "path", "terminal")] + [f"slacks_rev_{s}" for s in ("initial", "path", "terminal")]


class Tail(Scenario):
    """make_consistent with its callees replaced by their contracts (each is verified by P01/P14); the calls are recorded"""
    def hook(self, s):
        log = []
        for p in ALLPARTS:
            object.__setattr__(s, "_make_consistent_" + p, lambda *a, p=p, **kw: log.append(p))
        object.__setattr__(s, "vf_calls", log)
        s.model.__dict__["make_consistent"] = lambda *a, **kw: log.append("model")
        s.code_gen_options.__dict__["make_consistent"] = lambda *a, **kw: None
        if s.zoro_description is not None:
            z = Zoro()
            z.log = log
            object.__setattr__(s, "zoro_description", z)
        return s

    def fake(self):
        return self.hook(super().fake())

    def build(self, vals):
        keep = self.fixed
        ro = {}
        try:
            self.fixed = {k: v for k, v in keep.items() if v is not None or k == "dims.N" and False}
            real = super().build(vals)
        finally:
            self.fixed = keep
        return self.hook(real)

    def _post(self, view, s, updates, dontcare):
        return super()._post(view, s, updates, set(dontcare) | {"model.make_consistent", "code_gen_options.make_consistent"})


class Zoro(ZoroDescription):
    log = ()
    def make_consistent(self, *a, **k):
        self.log.append("zoro")


OPT = lambda **k: {f"solver_options.{a}": b for a, b in k.items()}


def tail(name, vars, fixed=None, mocp_info=None, pre=None, own=None, spec_=None):
    fx = {"solver_options.N_horizon": 3, "dims.nx": 2, "dims.nx_next": 2, "dims.nu": 1, "solver_options.time_steps": np.array([.1, .1, .1]), "solver_options.tf": .3,
          "name": "ocp", "cost.cost_type_0": "LINEAR_LS", "solver_options.N_horizon": 3}
    fx.update(fixed or {})
    for v in vars:
        fx.pop(v, None)
    return Tail(name, AcadosOcp, "make_consistent", vars, spec_ or (lambda o: spec(o, mocp_info)), fx, pre, mods=MODS,
                args=(mocp_info, False), extra=calls_ok, own=own or {})


def scenarios():
    out = []
    NH = {"solver_options.N_horizon": "dim"}
    TS = {"solver_options.cost_scaling": "vec"}
    cs = lambda o: [ln(o.solver_options.cost_scaling) == o.solver_options.N_horizon + 1]
    T = lambda *a, **k: out.append(tail(*a, **k))
    # horizon
    T("horizon.both", {**NH, "dims.N": "dim", **TS, "dims.nx": "dim", "dims.nx_next": "dim"}, pre=cs)
    T("horizon.options-only", {**NH, **TS, "dims.nx": "dim", "dims.nx_next": "dim"}, {"dims.N": None}, pre=cs)
    T("horizon.dims-only", {"dims.N": "dim", **TS, "dims.nx": "dim", "dims.nx_next": "dim"}, {"solver_options.N_horizon": None}, pre=lambda o: [ln(o.solver_options.cost_scaling) == o.dims.N + 1])
    for n in (1, 2):
        T(f"horizon.multiphase{n}", {"dims.nx": "dim", "dims.nx_next": "dim"}, mocp_info={"N_list": [1, 5, n], "phase_idx": 2})
    T("parameters", {"parameter_values": "vec", "p_global_values": "vec", "dims.np": "dim", "dims.np_global": "dim"})
    ct = {"cost.cost_type": COSTS, "cost.cost_type_0": COSTS, "cost.cost_type_e": COSTS}
    zero = {"solver_options.N_horizon": 0, "solver_options.time_steps": np.array([]), "solver_options.tf": 0.0}
    for nm, fx in (("", {}), (".no-horizon", zero)):
        T("cost-integration" + nm, {**ct, **OPT(cost_discretization=['EULER', 'INTEGRATOR'], nlp_solver_type=['SQP', 'SQP_WITH_FEASIBLE_QP', 'SQP_RTI'])}, fx)
        T("fixed-hessian" + nm, {**ct, **OPT(fixed_hess="int", hessian_approx=HESS)}, fx, pre=lambda o: [isin(o.solver_options.fixed_hess, [0, 1])])
        for f in BOUNDS_P + BOUNDS_E:
            T(f"bounds{nm}.{f}", {"constraints." + f: "vec", **OPT(qp_solver=QPS)}, fx)
        for f in IDX_P + IDX_E:
            qp = QPS if f == "idxbxe_0" else ['PARTIAL_CONDENSING_HPIPM']
            T(f"indices{nm}.{f}", {"constraints." + f: "ivec", **OPT(qp_solver=qp)}, fx)
        pg = ca.SX.sym("pg", 2)
        x, uu, z = ca.SX.sym("x", 2), ca.SX.sym("u", 1), ca.SX.sym("z", 1)
        sx = {"model.x": x, "model.u": uu, "model.z": z, "model.p_global": pg}
        sens = OPT(with_solution_sens_wrt_params="bool", with_value_sens_wrt_params="bool")
        T("sensitivities.cost" + nm, {**sens, **ct, "dims.np_global": "dim", "p_global_values": "vec"}, {**fx, **sx, "solver_options.integrator_type": "DISCRETE"},
          pre=lambda o: [ln(o.p_global_values) == o.dims.np_global])
        T("sensitivities.solver" + nm, {**sens, **OPT(integrator_type=INTEG, qp_solver=QPS)}, {**fx, **sx, "dims.np_global": 2, "p_global_values": np.zeros(2)})
        T("as-rti" + nm, {**ct, **OPT(as_rti_level="int")}, fx, pre=lambda o: [o.solver_options.as_rti_level >= 0, o.solver_options.as_rti_level <= 4])
        T("zoro" + nm, {}, {**fx}, own={"zoro_description": Zoro()})
        for f in ("con_phi_expr", "con_phi_expr_0", "con_phi_expr_e", "con_r_expr", "con_r_expr_0", "con_r_expr_e"):
            for e, nme in ((x[0] * pg[1], "dependent"), (x[0] * x[1], "independent")):
                T(f"sensitivities.{f}.{nme}{nm}", sens, {**fx, "dims.np_global": 2, "p_global_values": np.zeros(2), "solver_options.integrator_type": "DISCRETE",
                                                          "model.x": x, "model.u": uu, "model.z": z, "model.p_global": pg, "model." + f: e})
        for f in TERM:
            for e, nme in ((x[0] * x[1], "x"), (uu[0] * x[0], "u"), (x[0] + z[0], "z"), (ca.SX(2.0), "constant")):
                T(f"terminal.{f}.{nme}{nm}", {}, {**fx, "model.x": x, "model.u": uu, "model.z": z, "model." + f: e})
    # slack formulations
    T("slacks.rev", {f"constraints.{f}": "ivec" for f in ("idxs_rev_0", "idxs_rev", "idxs_rev_e")} | OPT(qp_solver=QPS, nlp_solver_type=['SQP', 'SQP_WITH_FEASIBLE_QP']))
    for f in ('idxsbx', 'idxsbu', 'idxsg', 'idxsh_0', 'idxsh', 'idxsphi_0', 'idxsphi', 'idxsbx_e', 'idxsh_e', 'idxsg_e', 'idxsphi_e'):
        T(f"slacks.mixed.{f}", {f"constraints.{g}": "ivec" for g in ("idxs_rev_0", "idxs_rev", "idxs_rev_e", f)})
    # cost scaling, condensing
    T("cost-scaling.given", {**NH, **TS})
    T("cost-scaling.default", {**NH, "solver_options.time_steps": "vec"}, {"solver_options.cost_scaling": None})
    T("condensing", {**NH, **TS, "solver_options.qp_solver_cond_N": "dim"}, pre=cs)
    for n in range(1, 5):
        for none in (True, False):
            T(f"condensing.blocks{n}.{none}", {**NH, **TS, "solver_options.qp_solver_cond_block_size": ("ints", n), **({} if none else {"solver_options.qp_solver_cond_N": "dim"})},
              pre=lambda o: cs(o) + [b >= 0 for b in o.solver_options.qp_solver_cond_block_size])
    T("tau-min", OPT(tau_min="real", qp_solver=QPS), pre=lambda o: [o.solver_options.tau_min >= 0])
    # DDP
    T("ddp.dims", {f"dims.{f}": "dim" for f in ("nbu", "nbx", "ng", "nh", "nphi", "ng_e", "nh_e", "nphi_e", "nbx_e", "nbx_0")} | OPT(nlp_solver_type=NLPS))
    T("ddp.solver", {**NH, **TS, **OPT(nlp_solver_type=NLPS, qp_solver=QPS, qp_solver_cond_N="dim", nlp_solver_warm_start_first_qp_from_nlp="bool")}, pre=cs)
    sc = OPT(qpscaling_scale_constraints=['NO_CONSTRAINT_SCALING', 'INF_NORM'], qpscaling_scale_objective=['NO_OBJECTIVE_SCALING', 'OBJECTIVE_GERSHGORIN'],
             nlp_qp_tol_strategy=['FIXED_QP_TOL', 'ADAPTIVE_CURRENT_RES_JOINT', 'ADAPTIVE_QPSCALING'], nlp_solver_type=NLPS)
    T("qpscaling", sc)
    T("project-reduc-hess", OPT(regularize_method=['NO_REGULARIZE', 'MIRROR', 'PROJECT', 'PROJECT_REDUC_HESS', 'CONVEXIFY', 'GERSHGORIN_LEVENBERG_MARQUARDT'],
                                qp_solver_ric_alg="int", qp_solver_cond_ric_alg="int"),
      pre=lambda o: [isin(o.solver_options.qp_solver_ric_alg, [0, 1]), isin(o.solver_options.qp_solver_cond_ric_alg, [0, 1])])
    T("globalization.defaults", OPT(globalization=GLOB, nlp_solver_type=NLPS))
    T("globalization.given", OPT(globalization=GLOB, nlp_solver_type=NLPS, globalization_alpha_min="real", globalization_eps_sufficient_descent="real",
                                 globalization_full_step_dual="int", nlp_solver_tol_min_step_norm="real", eval_residual_at_max_iter="bool"),
      pre=lambda o: [o.solver_options.globalization_alpha_min > 0, o.solver_options.globalization_alpha_min < 1, o.solver_options.globalization_eps_sufficient_descent > 0, o.solver_options.globalization_eps_sufficient_descent < 1,
                     isin(o.solver_options.globalization_full_step_dual, [0, 1]), o.solver_options.nlp_solver_tol_min_step_norm >= 0])
    T("anderson", OPT(globalization=GLOB, nlp_solver_type=NLPS, with_anderson_acceleration="bool"))
    T("hessian-flag", OPT(hessian_approx=HESS))
    # deprecated options
    for f in DEPRECATED:
        df = getattr(DEF, f)
        if isinstance_real(df, bool):
            T(f"moved.{f}", {"solver_options." + f: "bool", "code_gen_options." + f: "bool"}, {**sx, "dims.np_global": 2, "p_global_values": np.zeros(2), "solver_options.integrator_type": "DISCRETE"})
        else:
            for a, b in itertools.product((df, "a"), (df, "b")):
                T(f"moved.{f}.{a}.{b}", {}, {"solver_options." + f: a, "code_gen_options." + f: b})
    return out


def main():
    chk = Check("P17", "z3 on every path of the executed make_consistent, its callees replaced by their contracts",
                trusted=["z3", "vf/pysym.py path exploration", "vf/symarr.py model of the numpy operations used", "casadi.which_depends, depends_on"],
                assumptions=["options outside a scenario's varied group are at their defaults", "callees by contract (verified under P01 and P14); the parts of the contract of zoRO and Simulink descriptions are assumed"])
    only = os.environ.get("VF_ONLY")
    ts = [s for s in scenarios() if not only or only in s.name]
    run_tasks(chk, [s.task() for s in ts])
    return chk.finish("proof", 400 if not only else 1)

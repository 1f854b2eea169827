"""P02: option setters store exactly the given value iff it is in the documented domain."""
import ast, inspect, warnings, random, copy, io, contextlib
import numpy as np
import z3
from vf.core import Check, Unsupported, SEED
from vf import pysym
from vf.pysym import Engine, settle, fallback, SymNum, Patch, to_py, isinstance_real
import acados_template
from acados_template import acados_ocp_options as m_opt, acados_sim as m_sim, acados_code_gen_options as m_cg
from acados_template import acados_ocp_cost as m_cost, acados_dims as m_dims, acados_ocp_constraints as m_con

warnings.simplefilter("ignore")


# ------------------------------------------------------------------ domains (from the documentation)
class Enum:
    def __init__(self, *vals, none=False, maybe=()):
        self.vals, self.none, self.maybe = set(vals), none, set(maybe)


class Bool: pass
class Str: pass


class Num:
    """type 'int'|'float'|'num', predicate over z3 terms"""
    def __init__(self, ty, pred, text):
        self.ty, self.pred, self.text = ty, pred, text


class IntSet:
    def __init__(self, *v):
        self.v = v


def ge(k): return lambda t: t >= k
def gt(k): return lambda t: t > k
F_POS = Num("float", gt(0), "float > 0")
F_NN = Num("float", ge(0), "float >= 0")
F_ANY = Num("float", lambda t: z3.BoolVal(True), "float")
F_GE1 = Num("float", ge(1), "float >= 1")
F_01C = Num("float", lambda t: z3.And(t >= 0, t <= 1), "float in [0,1]")
N_01O = Num("num", lambda t: z3.And(t > 0, t < 1), "number in (0,1)")
N_01C = Num("num", lambda t: z3.And(t >= 0, t <= 1), "number in [0,1]")
N_GT1 = Num("num", gt(1), "number > 1")
N_GT0 = Num("num", gt(0), "number > 0")
N_ANY = Num("num", lambda t: z3.BoolVal(True), "int or float")
I_NN = Num("int", ge(0), "int >= 0")
I_POS = Num("int", gt(0), "int > 0")
I_ANY = Num("int", lambda t: z3.BoolVal(True), "int")
B01 = IntSet(0, 1)
QPS = Enum('PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_QPOASES', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_QPDUNES',
           'PARTIAL_CONDENSING_OSQP', 'PARTIAL_CONDENSING_CLARABEL', 'FULL_CONDENSING_DAQP')
HPM = Enum('BALANCE', 'SPEED_ABS', 'SPEED', 'ROBUST')
COSTT = Enum('LINEAR_LS', 'NONLINEAR_LS', 'EXTERNAL', 'CONVEX_OVER_NONLINEAR', 'AUTO')

OCP = dict(
    qp_solver=QPS, hpipm_mode=HPM, hessian_approx=Enum('GAUSS_NEWTON', 'EXACT'),
    integrator_type=Enum('ERK', 'IRK', 'GNSF', 'DISCRETE', 'LIFTED_IRK'),
    nlp_solver_type=Enum('SQP', 'SQP_RTI', 'DDP', 'SQP_WITH_FEASIBLE_QP'),
    globalization=Enum('FUNNEL_L1PEN_LINESEARCH', 'MERIT_BACKTRACKING', 'FIXED_STEP'),
    collocation_type=Enum('GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE', 'EXPLICIT_RUNGE_KUTTA'),
    regularize_method=Enum('NO_REGULARIZE', 'MIRROR', 'PROJECT', 'PROJECT_REDUC_HESS', 'CONVEXIFY', 'GERSHGORIN_LEVENBERG_MARQUARDT'),
    globalization_fixed_step_length=F_01C,
    qpscaling_ub_max_abs_eig=F_NN, qpscaling_lb_norm_inf_grad_obj=F_NN,
    qpscaling_scale_objective=Enum("NO_OBJECTIVE_SCALING", "OBJECTIVE_GERSHGORIN"),
    qpscaling_scale_constraints=Enum("NO_CONSTRAINT_SCALING", "INF_NORM"),
    nlp_qp_tol_strategy=Enum("ADAPTIVE_CURRENT_RES_JOINT", "ADAPTIVE_QPSCALING", "FIXED_QP_TOL"),
    nlp_qp_tol_reduction_factor=F_01C, nlp_qp_tol_safety_factor=F_01C,
    nlp_qp_tol_min_stat=F_POS, nlp_qp_tol_min_eq=F_POS, nlp_qp_tol_min_ineq=F_POS, nlp_qp_tol_min_comp=F_POS,
    nlp_solver_warm_start_first_qp=Bool(), nlp_solver_warm_start_first_qp_from_nlp=Bool(),
    levenberg_marquardt=F_NN, sim_method_newton_iter=I_ANY, sim_method_newton_tol=F_NN,
    sim_method_num_stages=Num("int", ge(1), "int"), sim_method_num_steps=Num("int", ge(1), "int"), sim_method_jac_reuse=IntSet(0, 1),
    qp_solver_tol_stat=F_POS, qp_solver_tol_eq=F_POS, qp_solver_tol_ineq=F_POS, qp_solver_tol_comp=F_POS,
    qp_solver_cond_N=I_NN, qp_solver_warm_start=IntSet(0, 1, 2, 3), qp_solver_cond_ric_alg=B01, qp_solver_ric_alg=B01,
    qp_solver_mu0=F_NN, qp_solver_t0_init=IntSet(0, 1, 2), tau_min=F_NN, solution_sens_qp_t_lam_min=F_NN,
    qp_solver_iter_max=I_NN, as_rti_iter=I_NN, with_anderson_acceleration=Bool(), anderson_activation_threshold=F_ANY,
    as_rti_level=IntSet(0, 1, 2, 3, 4), with_adaptive_levenberg_marquardt=Bool(),
    adaptive_levenberg_marquardt_lam=F_GE1, adaptive_levenberg_marquardt_mu_min=F_NN, adaptive_levenberg_marquardt_mu0=F_NN,
    adaptive_levenberg_marquardt_obj_scalar=F_NN, log_primal_step_norm=Bool(), log_dual_step_norm=Bool(), store_iterates=Bool(),
    timeout_max_time=F_NN, timeout_heuristic=Enum("MAX_CALL", "MAX_OVERALL", "LAST", "AVERAGE", "ZERO"),
    tol=F_POS, qp_tol=F_POS, nlp_solver_tol_stat=F_POS, nlp_solver_tol_eq=F_POS, nlp_solver_tol_ineq=F_POS, nlp_solver_tol_comp=F_POS,
    nlp_solver_tol_min_step_norm=F_NN, reg_epsilon=F_NN, reg_max_cond_block=F_GE1, reg_adaptive_eps=Bool(), reg_min_epsilon=F_NN,
    globalization_line_search_use_sufficient_descent=B01, globalization_eps_sufficient_descent=F_POS, globalization_use_SOC=B01,
    globalization_full_step_dual=B01, globalization_funnel_init_increase_factor=N_GT1, globalization_funnel_init_upper_bound=N_GT0,
    globalization_funnel_sufficient_decrease_factor=N_01O, globalization_funnel_kappa=N_01O,
    globalization_funnel_fraction_switching_condition=N_01O, eval_residual_at_max_iter=Bool(),
    use_constraint_hessian_in_feas_qp=Bool(), byrd_omojokon_slack_relaxation_factor=F_GE1,
    search_direction_mode=Enum('NOMINAL_QP', 'BYRD_OMOJOKUN', 'FEASIBILITY_QP'), allow_direction_mode_switch_to_nominal=Bool(),
    globalization_funnel_initial_penalty_parameter=N_01C, globalization_funnel_use_merit_fun_only=Bool(),
    nlp_solver_ext_qp_res=B01, rti_log_residuals=B01, rti_log_only_available_residuals=B01, nlp_solver_max_iter=I_NN,
    N_horizon=I_NN, print_level=I_NN, exact_hess_constr=B01, exact_hess_cost=B01, exact_hess_dyn=B01, fixed_hess=B01, ext_cost_num_hess=B01,
    cost_discretization=Enum('EULER', 'INTEGRATOR'), with_batch_functionality=Bool(), custom_update_copy=Bool(),
    custom_update_filename=Str(), custom_update_header_filename=Str(),
    globalization_alpha_min=Num("num+", lambda t: z3.And(t > 0, t <= 1), "number, no check documented"),
    globalization_alpha_reduction=Num("num+", lambda t: z3.And(t > 0, t < 1), "number, no check documented"),
    tf=Num("num+", gt(0), "number > 0, checked later"), Tsim=Num("num+", gt(0), "number > 0, set automatically"),
)
QP = dict(qp_solver=QPS, tol_stat=F_POS, tol_eq=F_POS, tol_ineq=F_POS, tol_comp=F_POS, iter_max=I_NN, cond_N=I_NN,
          warm_start=IntSet(0, 1, 2, 3), cond_ric_alg=B01, ric_alg=B01, mu0=F_NN, t0_init=IntSet(0, 1, 2), hpipm_mode=HPM, print_level=I_ANY)
SIM = dict(integrator_type=Enum('ERK', 'IRK', 'GNSF'), num_stages=I_ANY, num_steps=I_ANY, newton_iter=I_ANY, newton_tol=F_ANY,
           sens_forw=Bool(), sens_adj=Bool(), sens_algebraic=Bool(), sens_hess=Bool(), output_z=Bool(), sim_method_jac_reuse=B01,
           T=N_ANY, collocation_type=Enum('GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE', maybe=['EXPLICIT_RUNGE_KUTTA']), with_batch_functionality=Bool())
CG = dict(ext_fun_compile_flags=Str(), ext_fun_expand_constr=Bool(), ext_fun_expand_dyn=Bool(), ext_fun_expand_cost=Bool(),
          ext_fun_expand_precompute=Bool(), with_solution_sens_wrt_params_forw=Bool(), with_solution_sens_wrt_params_adj=Bool(),
          with_value_sens_wrt_params=Bool(), generate_hess=Bool(), sens_forw_p=Bool())
COST = dict(cost_type=COSTT, cost_type_0=Enum(*COSTT.vals, none=True), cost_type_e=COSTT,
            cost_ext_fun_type=Enum('casadi', 'generic'), cost_ext_fun_type_0=Enum('casadi', 'generic', none=True), cost_ext_fun_type_e=Enum('casadi', 'generic'))
CONS = dict(constr_type=Enum('BGH', 'BGP'), constr_type_0=Enum('BGH', 'BGP'), constr_type_e=Enum('BGH', 'BGP'))
SDIMS = dict(nx=I_POS, nz=I_NN, nu=I_NN, np=I_NN)
ODIMS = {k: (I_POS if k in ("nx",) else I_NN) for k in
         "nx nz nu np np_global n_global_data ny ny_0 ny_e nbx nbx_0 nbx_e nbu nh nh_0 nh_e nphi nphi_0 nphi_e nr nr_0 nr_e ng ng_e "
         "ns ns_0 ns_e nsbx nsbx_e nsbu nsg nsg_e nsh nsh_0 nsh_e nsphi nsphi_0 nsphi_e nbxe_0".split()}

FRAME = {("AcadosOcpOptions", "tol"): ["nlp_solver_tol_eq", "nlp_solver_tol_ineq", "nlp_solver_tol_stat", "nlp_solver_tol_comp"],
         ("AcadosOcpOptions", "qp_tol"): ["qp_solver_tol_eq", "qp_solver_tol_ineq", "qp_solver_tol_stat", "qp_solver_tol_comp"]}

CLASSES = [(m_opt.AcadosOcpOptions, OCP, m_opt), (m_opt.AcadosOcpQpOptions, QP, m_opt), (m_sim.AcadosSimOptions, SIM, m_sim),
           (m_cg.AcadosCodeGenOptions, CG, m_cg), (m_cost.AcadosOcpCost, COST, m_cost), (m_con.AcadosOcpConstraints, CONS, m_con),
           (m_dims.AcadosSimDims, SDIMS, m_dims), (m_dims.AcadosOcpDims, ODIMS, m_dims)]


class StrProbe(str):
    """A string about which only equality, membership and use in messages is modelled."""


def _blocked(name):
    def f(self, *a, **k):
        raise Unsupported(f"the setter inspects the string with {name}")
    return f


for _n in ("lower", "upper", "startswith", "endswith", "strip", "split", "find", "index", "replace", "__len__", "__getitem__",
           "__contains__", "__iter__", "casefold", "isupper", "islower", "count"):
    setattr(StrProbe, _n, _blocked(_n))


def harvest(mods):
    s = set()
    for m in mods:
        for n in ast.walk(ast.parse(inspect.getsource(m))):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 60 and "\n" not in n.value:
                s.add(n.value)
    return s


def snapshot(o):
    return dict(o.__dict__)


def same(a, b):
    if a is b:
        return True
    if isinstance_real(a, SymNum) or isinstance_real(b, SymNum):
        return False
    try:
        r = a == b
        if isinstance(r, np.ndarray):
            return bool(np.all(r)) and np.shape(a) == np.shape(b)
        return (type(a) == type(b) or (isinstance(a, np.generic) or isinstance(b, np.generic))) and bool(r)
    except Exception:
        return False


def fresh(cls):
    with contextlib.redirect_stdout(io.StringIO()):
        return cls()


def do_set(cls, attr, v):
    """-> (kind, exception|None, stored value, list of other attributes changed)"""
    o = fresh(cls)
    before = snapshot(o)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            setattr(o, attr, v)
    except Unsupported:
        raise
    except Exception as e:
        after = snapshot(o)
        changed = [k for k in set(before) | set(after) if k not in after or k not in before or after[k] is not before[k]]
        return "raise", e, None, changed
    after = snapshot(o)
    changed = [k for k in set(before) | set(after) if k not in after or k not in before or after[k] is not before[k]]
    return "return", None, o, changed


def base_attr(k):
    """the public name a private (mangled) attribute belongs to"""
    return k.split("__", 1)[1] if "__" in k else k.lstrip("_")


def targets(cls, attr):
    return FRAME.get((cls.__name__, attr), [attr])


def judge(cls, attr, v, expect, isval=None):
    """expect: 'accept' | 'reject' | 'any'.  -> None or a description of the violation."""
    kind, e, o, changed = do_set(cls, attr, v)
    if kind == "raise":
        if expect == "accept":
            return f"{cls.__name__}.{attr} = {v!r} is documented as valid but raised {type(e).__name__}"
        if changed:
            return f"{cls.__name__}.{attr} = {v!r} was rejected but changed {changed}"
        return None
    if expect == "reject":
        return f"{cls.__name__}.{attr} = {v!r} is outside the documented domain but was accepted"
    return stored_ok(cls, attr, v, o, changed, expect)


def stored_ok(cls, attr, v, o, changed, expect="accept"):
    for t in targets(cls, attr):
        got = getattr(o, t)
        if isinstance(got, np.ndarray) and not isinstance(v, np.ndarray) and got.shape == (1,):
            got = got[0]
        if expect == "any":
            continue
        if not (got is v or same(got, v) or (isinstance_real(v, StrProbe) and got == v)):
            return f"{cls.__name__}.{attr} = {v!r} stored {got!r} in {t}"
    fr = fresh(cls)
    names = inspect.getmembers(cls, lambda p: isinstance(p, property))
    for n, _ in names:
        if n in targets(cls, attr) or n == attr or n in ("tol", "qp_tol", "x0", "has_x0", "with_solution_sens_wrt_params") or (cls.__name__, n) in ALIAS.get(attr, ()):
            continue
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                a, b = getattr(o, n), getattr(fr, n)
        except Exception:
            continue
        if not same(a, b):
            return f"{cls.__name__}.{attr} = {v!r} also changed {n} from {b!r} to {a!r}"
    return None


ALIAS = {}


def universe(strings):
    """concrete representatives outside the symbolic ints/floats"""
    return [None, [], ["a"], {}, (), object(), b"x", 1j, np.array([1.0, 2.0]), np.array([[1.0]])]


def conc_cases(dom, strings):
    """(value, expectation) pairs used for types other than symbolic numbers, and by the bounded stand-in."""
    out = []
    junk = [None, [], ["a"], {}, (), b"x", 1j]
    if isinstance(dom, Enum):
        for s in sorted(strings | dom.vals):
            out.append((s, "accept" if s in dom.vals else "any" if s in dom.maybe else "reject"))
        for s in list(dom.vals):
            for t in (s.lower(), s[:-1], s + "_", " " + s):
                if t not in dom.vals:
                    out.append((t, "reject"))
        out.append((StrProbe("vf-fresh-string"), "reject"))
        out += [(j, "any" if j is None and dom.none else "reject") for j in junk]
        out += [(0, "reject"), (1.5, "reject"), (True, "reject")]
    elif isinstance(dom, Bool):
        out += [(True, "accept"), (False, "accept")] + [(j, "reject") for j in junk] + [("True", "reject"), ("", "reject"), (2.5, "reject"), (7, "reject")]
    elif isinstance(dom, Str):
        out += [("", "any"), (StrProbe("some_file"), "accept")] + [(j, "reject") for j in [None, [], 1, 1.5, {}, b"x"]]
    elif isinstance(dom, Num):
        inf, nan = float("inf"), float("nan")
        if dom.ty != "num+":
            out += [(j, "reject") for j in [None, "1", "abc", {}, 1j]]
            if "float >" in dom.text or "(0,1)" in dom.text or "[0,1]" in dom.text:
                if "float >" in dom.text and dom.text != "float >= 1" or "number" in dom.text:
                    out.append((-inf, "reject"))
        if dom.ty == "float":
            out += [(v, "accept" if z3.is_true(z3.simplify(dom.pred(z3.RealVal(repr(v))))) else "reject")
                    for v in (0.0, 1e-9, 0.5, 1.0, 1.0 + 1e-9, 2.0, -1e-9, -0.5, -1.0, 1e6)]
            out += [(np.float64(v), "accept") for v in (0.5, 1.0, 3.0) if z3.is_true(z3.simplify(dom.pred(z3.RealVal(repr(v)))))]
        elif dom.ty == "int":
            out += [(v, "accept" if z3.is_true(z3.simplify(dom.pred(z3.IntVal(v)))) else "reject-if-checked") for v in (-5, -1, 0, 1, 2, 3, 4, 7, 50, 1000)]
        else:
            out += [(v, "accept" if z3.is_true(z3.simplify(dom.pred(z3.RealVal(repr(v))))) else ("any" if dom.ty == "num+" else "reject"))
                    for v in (0.0, 1e-9, 0.5, 1.0, 1.0 + 1e-9, 2.0, -1e-9, -0.5, -1.0, 15.0)]
    elif isinstance(dom, IntSet):
        out += [(v, "accept" if v in dom.v else "reject") for v in range(-2, 8)]
        out += [(j, "reject") for j in [None, "0", "1", [], {}, 0.5, 1.5, -0.5]]
    return out


UNCHECKED = {"sim_method_num_stages", "sim_method_num_steps", "sim_method_jac_reuse"}


def conc_expect(attr, exp):
    if exp == "reject-if-checked":
        return "any" if attr in UNCHECKED else "reject"
    if attr in UNCHECKED and exp == "reject":
        return "any"
    return exp


def concrete_search(cls, attr, dom, strings):
    n = 0
    for v, exp in conc_cases(dom, strings):
        exp = conc_expect(attr, exp)
        n += 1
        try:
            r = judge(cls, attr, v, exp)
        except Unsupported:
            if isinstance(v, StrProbe):
                r = judge(cls, attr, str.__str__(v), exp)
            else:
                raise
        if r:
            return dict(what=r, cls=cls.__name__, option=attr, value=repr(v), key=f"{cls.__name__}.{attr}"), n
    return None, n


def sym_numbers(chk, cls, attr, dom, mod, strings):
    """setter executed on an arbitrary int and an arbitrary finite float."""
    label = f"{cls.__name__}.{attr}"
    key = label
    cs = lambda: concrete_search(cls, attr, dom, strings)[0]
    for kind in ("int", "float"):
        v = SymNum.int("v") if kind == "int" else SymNum.real("v")
        if isinstance(dom, Num):
            P = dom.pred(v.t)
            if dom.ty == "num+":
                need_acc, need_rej = P, z3.BoolVal(False)
            elif dom.ty == "num":
                need_acc, need_rej = P, z3.Not(P)
            elif dom.ty == "int":
                need_acc = P if kind == "int" else z3.BoolVal(False)
                need_rej = z3.Not(P) if kind == "int" else z3.Not(z3.IsInt(v.t))
                if attr in UNCHECKED:
                    need_rej = z3.BoolVal(False)
            else:
                need_acc = P if kind == "float" else z3.BoolVal(False)
                need_rej = z3.Not(P)
        elif isinstance(dom, IntSet):
            member = z3.Or(*[v.t == k for k in dom.v])
            need_acc = member if kind == "int" else z3.BoolVal(False)
            need_rej = z3.Not(member) if attr not in UNCHECKED else z3.BoolVal(False)
        elif isinstance(dom, Bool):
            need_acc, need_rej = z3.BoolVal(False), z3.And(v.t != 0, v.t != 1)
        else:
            need_acc, need_rej = z3.BoolVal(False), z3.BoolVal(True)
        eng = Engine()

        def rp(model, v=v, kind=kind, na=need_acc, nr=need_rej):
            x = to_py(model.eval(v.t, model_completion=True))
            x = int(x) if kind == "int" else float(x)
            sub = z3.IntVal(x) if kind == "int" else z3.RealVal(str(model.eval(v.t, model_completion=True)))
            e = "accept" if z3.is_true(z3.simplify(z3.substitute(na, (v.t, sub)))) else \
                "reject" if z3.is_true(z3.simplify(z3.substitute(nr, (v.t, sub)))) else "any"
            r = judge(cls, attr, x, e)
            return r and dict(what=r, cls=cls.__name__, option=attr, value=repr(x), key=key)

        paths = []
        with Patch(*{mod, m_dims, acados_template.utils}, type=pysym.sym_type):
            for pc, k, val in eng.run(lambda: do_set(cls, attr, v)):
                if k == "raise":
                    raise val
                paths.append((pc, val))
        chk.solver_s += eng.solver_s
        for i, (pc, (k, e, o, changed)) in enumerate(paths):
            nm = f"{label}[{kind}].path{i}"
            if k == "raise":
                settle(chk, nm + ".rejected-only-outside-domain", pc, z3.Not(need_acc), rp, cs, key)
                if changed:
                    settle(chk, nm + ".rejection-changes-nothing", pc, z3.BoolVal(False), rp, cs, key)
            else:
                settle(chk, nm + ".accepted-only-inside-domain", pc, z3.Not(need_rej), rp, cs, key)
                bad = stored_ok(cls, attr, v, o, changed)
                goal = z3.BoolVal(bad is None)
                settle(chk, nm + ".stores-exactly-the-value-and-nothing-else", pc + [need_acc], goal, rp, cs, key)
        chk.cover(f"{label}[{kind}]", len(paths) > 0)


def verify(chk, cls, attr, dom, mod, strings):
    label = f"{cls.__name__}.{attr}"
    chk.fn(label)
    if not isinstance(getattr(cls, attr, None), property):
        rep, n = concrete_search(cls, attr, dom, strings)
        if rep:
            chk.refuted(label, rep["what"], rep, key=label)
        else:
            chk.bounded(label, "not a property any more", "listed representatives", n)
        return
    probe_ok = True
    try:
        # non-numeric arguments: equality classes
        bad = None
        for v, exp in conc_cases(dom, strings):
            exp = conc_expect(attr, exp)
            try:
                r = judge(cls, attr, v, exp)
            except Unsupported:
                probe_ok = False
                r = judge(cls, attr, str.__str__(v), exp)
            if r:
                bad = dict(what=r, cls=cls.__name__, option=attr, value=repr(v))
                break
        if bad:
            chk.refuted(label + ".other-types", bad["what"], bad, key=label)
        elif probe_ok:
            chk.discharged(label + ".other-types", "exhaustive over type and string-equality classes")
        else:
            chk.bounded(label + ".other-types", "the setter inspects the string's characters", "documented strings and near misses", len(conc_cases(dom, strings)))
        sym_numbers(chk, cls, attr, dom, mod, strings)
    except Unsupported as e:
        fallback(chk, label, e, lambda: concrete_search(cls, attr, dom, strings), "listed representatives")


def tol_getters(chk):
    """tol and qp_tol report the largest component tolerance."""
    rnd = random.Random(SEED)
    for attr, comps in (("tol", FRAME[("AcadosOcpOptions", "tol")]), ("qp_tol", FRAME[("AcadosOcpOptions", "qp_tol")])):
        def run(vals):
            o = fresh(m_opt.AcadosOcpOptions)
            for c, v in zip(comps, vals):
                setattr(o, c, v)
            return getattr(o, attr)

        def search(n=40):
            for i in range(n):
                vals = [rnd.choice([1e-3, 1e-4, 1e-6, 1e-8, 0.5]) for _ in comps]
                if run(vals) != max(vals):
                    return dict(what=f"{attr} is {run(vals)} for components {vals}", value=vals), i
            return None, n
        chk.fn(f"AcadosOcpOptions.{attr}")
        try:
            vs = [SymNum.real(f"t{i}") for i in range(4)]
            eng = Engine([v.t > 0 for v in vs])
            for i, (pc, k, val) in enumerate(eng.run(lambda: run(vs))):
                if k == "raise":
                    raise val
                goal = z3.And(*[pysym.lift(val) >= v.t for v in vs], z3.Or(*[pysym.lift(val) == v.t for v in vs]))
                settle(chk, f"AcadosOcpOptions.{attr}.getter.path{i}", pc, goal, None, lambda: search(200)[0])
        except Unsupported as e:
            fallback(chk, f"AcadosOcpOptions.{attr}.getter", e, search, "40 seeded tuples")


def main():
    chk = Check("P02", "z3 on the executed setters (arbitrary int / arbitrary finite float); exhaustive equality classes for the other types",
                trusted=["z3", "vf/pysym.py", "the table of documented domains in checks/P02.py"],
                assumptions=["NaN and infinities are checked as listed representatives only",
                             "options whose documentation states no check are only required to store valid values"])
    strings = harvest({m for _, _, m in CLASSES})
    for cls, table, mod in CLASSES:
        for attr, dom in table.items():
            if not hasattr(cls, attr):
                chk.note(f"{cls.__name__} has no {attr}")
                continue
            verify(chk, cls, attr, dom, mod, strings)
    tol_getters(chk)
    return chk.finish("proof", 300)

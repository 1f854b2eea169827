"""C04: globalization: acceptance tests, merit function, funnel, backtracking."""
import ctypes, os
import z3
from vf.core import Check, TIER
from vf.ccheck import CheckC
from vf.cspec import *
from vf.csym import R, I, num, Ptr
from vf.cbmcrun import Job, check
from vf.par import run_tasks

OUT = ["acados/ocp_nlp/ocp_nlp_globalization_funnel.c", "acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c", "acados/ocp_nlp/ocp_nlp_common.c"]
IFACE = "acados/utils/print.c"


def funnel(chk):
    cc = CheckC(chk, [OUT[0]], libfiles=[OUT[0], IFACE])
    T = cc.T
    o = lambda sp: (lambda f: sp.num(f"opts->{f}"))
    m = lambda sp: (lambda f: sp.num(f"mem->{f}"))
    kf = lambda k: (k[0] == "nlp_opts" and len(k) > 2 and k[2] not in ("globalization", "print_level")) or (k[0] == "config")
    gcast = {("nlp_opts", "[]", "globalization", "*"): "ocp_nlp_globalization_funnel_opts"}

    def iw(sp, A):
        sp.post("initial funnel width", "mem->funnel_width", value=lambda: maxv(o(sp)("initialization_upper_bound"), o(sp)("initialization_increase_factor") * A["initial_infeasibility"]))
    T("initialize_funnel_width", iw)

    def ip(sp, A):
        sp.post("initial penalty parameter", "mem->penalty_parameter", value=lambda: o(sp)("initial_penalty_parameter"))
    T("initialize_funnel_penalty_parameter", ip)

    def up(sp, A):
        O, M = o(sp), m(sp)
        po, pi = A["predicted_reduction_objective"], A["predicted_reduction_infeasibility"]
        sp.pre += [M("penalty_parameter") >= 0]
        p = z3.If(z3.And(po < 0, po > -z3.Q(1, 10000)), R(0), po)
        eta, mu = O("penalty_eta"), M("penalty_parameter")
        a, b = O("penalty_contraction") * mu, ((1 - eta) * pi) / (-p + z3.Q(1, 10**9))
        low = z3.If(a < b, a, b)
        new = z3.If(mu * p + pi < eta * pi, z3.If(low > 0, low, R(0)), mu)
        sp.post("penalty parameter", "mem->penalty_parameter", value=lambda: new)
    T("update_funnel_penalty_parameter", up, nullp=kf)

    def df(sp, A):
        k = o(sp)("kappa")
        sp.post("funnel width is the convex combination of old width and trial infeasibility", "mem->funnel_width", value=lambda: (1 - k) * A["trial_infeasibility"] + k * m(sp)("funnel_width"))
    T("decrease_funnel", df)

    b2 = lambda c: z3.If(c, I(1), I(0))

    def ins(sp, A):
        sp.ret = b2(A["infeasibility"] <= m(sp)("funnel_width"))
    T("is_iterate_inside_of_funnel", ins)

    def suf(sp, A):
        sp.ret = b2(A["infeasibility"] <= o(sp)("sufficient_decrease_factor") * m(sp)("funnel_width"))
    T("is_funnel_sufficient_decrease_satisfied", suf)

    def sw(sp, A):
        sp.ret = b2(A["step_size"] * A["predicted_reduction_objective"] >= o(sp)("fraction_switching_condition") * A["predicted_reduction_infeasibility"])
    T("is_switching_condition_satisfied", sw)

    def arm(e, al, ared, pred):
        return ared >= e * al * maxv(R(0), pred - z3.Q(1, 10**9))

    def ar(sp, A):
        sp.ret = b2(arm(sp.num("globalization_opts->eps_sufficient_descent"), A["alpha"], A["actual_reduction"], A["predicted_reduction"]))
    T("is_armijo_condition_satisfied", ar)

    def acc(sp, A):
        M = m(sp)
        O = lambda f: sp.num(f"nlp_opts->globalization[0].{f}")
        eps = sp.num("nlp_opts->globalization[0].globalization_opts->eps_sufficient_descent")
        al = A["alpha"]
        only = O("use_merit_fun_only") != 0
        inside = A["trial_infeasibility"] <= M("funnel_width")
        pen = z3.Or(only, M("funnel_penalty_mode") != 0)
        sp.pre += [z3.Or(M("funnel_penalty_mode") == 0, M("funnel_penalty_mode") == 1), z3.Or(O("use_merit_fun_only") == 0, O("use_merit_fun_only") == 1)]
        switch = al * A["predicted_reduction_objective"] >= O("fraction_switching_condition") * A["predicted_reduction_infeasibility"]
        suff = A["trial_infeasibility"] <= O("sufficient_decrease_factor") * M("funnel_width")
        aobj = arm(eps, al, A["actual_reduction_objective"], A["predicted_reduction_objective"])
        amer = arm(eps, al, A["current_merit"] - A["trial_merit"], A["predicted_reduction_merit"])
        ent = z3.Or(only, inside)
        f = z3.And(ent, z3.Not(pen), switch, aobj)
        h = z3.And(ent, z3.Not(pen), z3.Not(switch), suff)
        b = z3.And(ent, z3.Not(pen), z3.Not(switch), z3.Not(suff), A["trial_infeasibility"] < A["current_infeasibility"], amer)
        p = z3.And(ent, pen, amer)
        sp.ret = b2(z3.Or(f, h, b, p))
        ch = lambda c: I(ord(c))
        sp.post("type of the accepted step", "mem->funnel_iter_type", value=lambda: z3.If(f, ch('f'), z3.If(h, ch('h'), z3.If(b, ch('b'), z3.If(p, ch('p'), M("funnel_iter_type"))))))
        k = O("kappa")
        sp.post("funnel width", "mem->funnel_width", value=lambda: z3.If(z3.Or(h, z3.And(p, suff)), (1 - k) * A["trial_infeasibility"] + k * M("funnel_width"), M("funnel_width")))
        sp.post("penalty mode", "mem->funnel_penalty_mode", value=lambda: z3.If(z3.And(p, suff), I(0), z3.If(z3.Or(b, only), I(1), M("funnel_penalty_mode"))))
    T("is_trial_iterate_acceptable_to_funnel", acc, casts=gcast, nullp=kf)


def merit(chk):
    same = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.c_void_p)(lambda p: p)
    DP, IP = ctypes.POINTER(ctypes.c_double), ctypes.POINTER(ctypes.c_int)

    # abstract stage modules: the memory of a module is what its getter hands out; the cost of a stage
    # is its first variable at the point the module was last told to evaluate at
    def fun_ptr(it, st, f, vals, n):
        return vals[0]

    def compute_fun(it, st, f, vals, n):
        p = vals[-2]
        key, idx = p.loc()
        if "cost" in key:
            it.write(st, key, idx, it.load(st, key, idx[:-1] + (I(1),), "float"))
        return I(0)

    def set_ux(it, st, f, vals, n):
        key, idx = vals[1].loc()
        if "cost" in key:
            k, i = vals[0].loc()
            it.write(st, key, idx[:-1] + (I(1),), it.load(st, k + ("pa", "*", "[]"), i + (I(0),), "float"))
        return I(0)

    def nop(it, st, f, vals, n):
        return I(0)

    @ctypes.CFUNCTYPE(None, *[ctypes.c_void_p] * 6)
    def cb_compute(c, d, i, o, m, w):
        p = ctypes.cast(m, DP)
        p[0] = p[1]

    @ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p)
    def cb_set(ux, m):
        pa = ctypes.cast(ux, ctypes.POINTER(ctypes.c_void_p))[1]
        ctypes.cast(m, DP)[1] = ctypes.cast(pa, DP)[0]
    cbnop = ctypes.CFUNCTYPE(None, *[ctypes.c_void_p] * 6)(lambda *a: None)
    cbnop2 = ctypes.CFUNCTYPE(None, *[ctypes.c_void_p] * 2)(lambda *a: None)
    cc = CheckC(chk, OUT[1:], axioms=nlp_axioms, indirect=dict(memory_get_fun_ptr=fun_ptr, memory_get_grad_ptr=fun_ptr, compute_fun=compute_fun, memory_set_ux_ptr=set_ux, memory_set_ux1_ptr=nop),
                callbacks={"memory_get_fun_ptr": same, "memory_get_grad_ptr": same, "cost.compute_fun": cb_compute, "compute_fun": cbnop, "cost.memory_set_ux_ptr": cb_set, "memory_set_ux_ptr": cbnop2, "memory_set_ux1_ptr": cbnop2})
    T = cc.T
    sub = lambda *roots: lambda k: k[0] in roots and len(k) > 2
    kw = dict(fix=setN(), norm=ndims("dims"))
    dimf = ("nx", "nu", "ns", "nv", "ni", "nz", "cost", "dynamics", "constraints")
    kd = lambda k: k[0] == "dims" and len(k) > 2 and k[2] not in dimf

    def keep(*names):
        roots = {n.split(".")[0] for n in names}
        flds = {tuple(n.split(".")) for n in names}
        return lambda k: kd(k) or (len(k) > 2 and k[0] in roots and (k[0], k[2]) not in flds)

    def wi(sp, A):
        d = D(sp)
        N = d.N
        sp.post("initial weights of the dynamics are the absolute multipliers", "weight_merit_fun->pi[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nx(i + 1)], value=lambda i, k: absv(sp.vec("qp_out->pi[i]", i=i)(k)))
        sp.post("initial weights of the inequalities are the multipliers", "weight_merit_fun->lam[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < 2 * d.ni(i)], value=lambda i, k: sp.vec("qp_out->lam[i]", i=i)(k))
    kq = keep("weight_merit_fun.pi", "weight_merit_fun.lam", "qp_out.pi", "qp_out.lam")
    T("merit_backtracking_initialize_weights", wi, nullp=kq, **kw)

    def wu(sp, A):
        d = D(sp)
        N = d.N

        def upd(f, new):
            def g(i, k):
                a, w = new(sp.vec(f"qp_out->{f}[i]", i=i)(k)), sp.vec(f"weight_merit_fun->{f}[i]", i=i)(k)
                return maxv(a, z3.Q(1, 2) * (a + w))
            return g
        sp.post("weights of the dynamics", "weight_merit_fun->pi[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nx(i + 1)], value=upd("pi", absv))
        sp.post("weights of the inequalities", "weight_merit_fun->lam[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < 2 * d.ni(i)], value=upd("lam", lambda x: x))
    T("merit_backtracking_update_weights", wu, nullp=kq, **kw)

    def cp(sp, A):
        d = D(sp)
        N = d.N
        for f, cnt, last in (("lam", lambda i: 2 * d.ni(i), True), ("pi", lambda i: d.nx(i + 1), False)):
            sp.post(f, f"to->{f}[i].vec[k]", vars="i k", when=lambda i, k, cnt=cnt, last=last: [i >= 0, i <= N if last else i < N, k >= 0, k < cnt(i)], value=lambda i, k, f=f: sp.vec(f"from->{f}[i]", i=i)(k))
    kc = keep("to.pi", "to.lam", "from.pi", "from.lam")
    T("copy_multipliers_nlp_to_qp", cp, nullp=kc, **kw)
    T("copy_multipliers_qp_to_nlp", cp, nullp=kc, **kw)

    mcast = {("mem", "[]", "dynamics", "*", "[]", "*"): "struct blasfeo_dvec", ("mem", "[]", "constraints", "*", "[]", "*"): "struct blasfeo_dvec", ("mem", "[]", "cost", "*", "[]", "*"): "double"}
    km = keep("mem.dynamics", "mem.constraints", "mem.cost", "mem.qp_in", "mem.qp_out", "in.cost", "in.dynamics", "in.constraints", "opts.cost", "opts.dynamics", "opts.constraints",
              "work.cost", "work.dynamics", "work.constraints", "work.weight_merit_fun", "work.tmp_nlp_out", "out.ux", "config.cost", "config.dynamics", "config.constraints")

    def ni_sum(sp, d, N, f):
        return sp.sum(N + 1, lambda i: sp.sum(2 * d.ni(i), lambda k: f(i, k)))

    def mf(sp, A):
        d = D(sp)
        N = d.N
        w = lambda f, i: sp.vec(f"work->weight_merit_fun->{f}[i]", i=i)
        c = sp.sum(N + 1, lambda i: sp.vec("work->tmp_nlp_out->ux[i]", i=i)(0))
        dyn = sp.sum(N, lambda i: sp.sum(d.nx(i + 1), lambda k: absv(w("pi", i)(k)) * absv(sp.vec("mem->dynamics[i][0]", i=i)(k))))

        def viol(i, k):
            x = sp.vec("mem->constraints[i][0]", i=i)(k)
            return z3.If(x > 0, absv(w("lam", i)(k)) * x, R(0))
        sp.ret = c + dyn + ni_sum(sp, d, N, viol)
        sp.post("the cost of a stage is evaluated at the trial point", "mem->cost[i][0]", vars="i", when=lambda i: [i >= 0, i <= N], value=lambda i: sp.vec("work->tmp_nlp_out->ux[i]", i=i)(0))
        sp.post("the evaluation point is reset to the current iterate", "mem->cost[i][1]", vars="i", when=lambda i: [i >= 0, i <= N], value=lambda i: sp.vec("out->ux[i]", i=i)(0))
    T("ocp_nlp_evaluate_merit_fun", mf, casts=mcast, nullp=km, **kw)

    def vi(sp, A):
        d = D(sp)
        N = d.N
        a = sp.max(N, lambda i: sp.max(d.nx(i + 1), lambda k: absv(sp.vec("mem->dynamics[i][0]", i=i)(k))), R(0))
        sp.ret = sp.max(N + 1, lambda i: sp.max(2 * d.ni(i), lambda k: sp.vec("mem->constraints[i][0]", i=i)(k)), a)
    T("ocp_nlp_get_violation_inf_norm", vi, casts=mcast, nullp=km, **kw)

    def mg(sp, A):
        d = D(sp)
        N = d.N
        q = D(sp, "mem->qp_in->dim")
        w = lambda f, i: sp.vec(f"work->weight_merit_fun->{f}[i]", i=i)
        ux = lambda i: sp.vec("mem->qp_out->ux[i]", i=i)
        nux = lambda i: d.nx(i) + d.nu(i)
        cost = sp.sum(N + 1, lambda i: sp.sum(d.nv(i), lambda k: sp.vec("mem->cost[i][0]", i=i)(k) * ux(i)(k)))

        def dyn(i, j):
            dy = sp.sum(nux(i), lambda k: sp.mat("mem->qp_in->BAbt[i]", i=i)(k, j) * ux(i)(k)) - ux(i + 1)(d.nu(i + 1) + j)
            wd = w("pi", i)(j) * dy
            return z3.If(sp.vec("mem->dynamics[i][0]", i=i)(j) > 0, wd, -wd)

        nb, ng, ns = q.nb, q.ng, q.ns
        nbg = lambda i: nb(i) + ng(i)

        def ineq(i, j):
            wt = w("lam", i)(j)

            def row(c, sign, off):
                sl = sp.num("mem->qp_in->idxs_rev[i][c]", i=i, c=c)
                slack = z3.If(sl >= 0, wt * ux(i)(nux(i) + sl + off), R(0))
                di = z3.If(c < nb(i), ux(i)(sp.num("mem->qp_in->idxb[i][c]", i=i, c=c)), sp.sum(nux(i), lambda k: sp.mat("mem->qp_in->DCt[i]", i=i)(k, c - nb(i)) * ux(i)(k)))
                return sign * wt * di - slack
            return z3.If(sp.vec("mem->constraints[i][0]", i=i)(j) > 0, z3.If(j < nbg(i), row(j, -1, I(0)), row(j - nbg(i), 1, ns(i))), R(0))
        sp.ret = cost + sp.sum(N, lambda i: sp.sum(d.nx(i + 1), lambda j: dyn(i, j))) + sp.sum(N + 1, lambda i: z3.If(d.ni(i) > 0, sp.sum(2 * nbg(i), lambda j: ineq(i, j)), R(0)))
        sp.fresh_scratch("work.tmp_nv", "work.dxnext_dy")
    gcast = {("mem", "[]", "dynamics", "*", "[]", "*"): "struct blasfeo_dvec", ("mem", "[]", "constraints", "*", "[]", "*"): "struct blasfeo_dvec", ("mem", "[]", "cost", "*", "[]", "*"): "struct blasfeo_dvec"}
    km_ = keep("mem.dynamics", "mem.constraints", "mem.cost", "mem.qp_in", "mem.qp_out", "opts.print_level", "work.weight_merit_fun", "work.tmp_nv", "work.dxnext_dy", "config.cost", "config.dynamics", "config.constraints")
    kg = lambda k: km_(k) or k[0] in ("in", "out") or (len(k) > 5 and k[2] == "qp_in" and k[5] in ("RSQrq", "b", "rqz", "d", "d_mask", "m", "Z", "idxe", "diag_H_flag")) or (len(k) > 5 and k[2] == "qp_out" and k[5] != "ux")

    def gn(mem, sc):
        ndims("dims")(mem, sc)
        q = ("mem", "[]", "qp_in", "*", "[]")
        g = lambda f, i: mem.current(("dims", "[]", f, "*", "[]"), (0, i))
        for i in range(4):
            nux, ni, ns = g("nx", i) + g("nu", i), g("ni", i), g("ns", i)
            x = min(ni, max(0, mem.current(q + ("dim", "*", "[]", "nb", "*", "[]"), (0, 0, 0, i)))) if nux else 0
            mem.set(q + ("dim", "*", "[]", "nb", "*", "[]"), (0, 0, 0, i), x)
            mem.set(q + ("dim", "*", "[]", "ng", "*", "[]"), (0, 0, 0, i), max(0, min(ni - x, 2)))
            mem.set(q + ("dim", "*", "[]", "ns", "*", "[]"), (0, 0, 0, i), ns)
            for j in range(4):
                k = q + ("idxb", "*", "[]", "*", "[]")
                mem.set(k, (0, 0, i, j), min(max(0, mem.current(k, (0, 0, i, j))), max(0, nux - 1)))
                k = q + ("idxs_rev", "*", "[]", "*", "[]")
                mem.set(k, (0, 0, i, j), min(max(-1, mem.current(k, (0, 0, i, j)) - 1), ns - 1))
    T("ocp_nlp_compute_merit_gradient", mg, casts=gcast, nullp=kg, fix=setN(), norm=gn)


def soc(chk):
    """second order correction: the QP is the linearization with the constraint values of the full step"""
    same = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.c_void_p)(lambda p: p)
    DP, IP, PP = ctypes.POINTER(ctypes.c_double), ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_void_p)

    def evaluate(it, st, f, vals, n):
        key, idx = vals[5].loc()
        return it.load(st, key, idx, "int")

    @ctypes.CFUNCTYPE(ctypes.c_int, *[ctypes.c_void_p] * 7)
    def cb_eval(c, d, qi, qo, o, m, w):
        return ctypes.cast(m, IP)[0]
    cbnop = ctypes.CFUNCTYPE(None, *[ctypes.c_void_p] * 4)(lambda *a: None)
    cc = CheckC(chk, OUT[2:], libfiles=[OUT[2], IFACE], axioms=nlp_axioms, indirect=dict(memory_get_fun_ptr=lambda it, st, f, v, n: v[0], evaluate=evaluate, correct_dual_sol=lambda *a: I(0)),
                callbacks=dict(memory_get_fun_ptr=same, evaluate=cb_eval, correct_dual_sol=cbnop))
    mcast = {("nlp_mem", "[]", "dynamics", "*", "[]", "*"): "struct blasfeo_dvec", ("nlp_mem", "[]", "constraints", "*", "[]", "*"): "struct blasfeo_dvec", ("nlp_mem", "[]", "qp_solver_mem", "*"): "int"}

    def sp_(sp, A):
        d = D(sp)
        q = D(sp, "qp_in->dim")
        N = d.N
        nb, ng = q.nb, q.ng
        nux = lambda i: d.nx(i) + d.nu(i)
        ux = lambda i: sp.vec("qp_out->ux[i]", i=i)
        dyn = lambda i: sp.vec("nlp_mem->dynamics[i][0]", i=i)
        con = lambda i: sp.vec("nlp_mem->constraints[i][0]", i=i)
        old = lambda i: sp.vec("qp_in->d[i]", i=i)

        def b(i, j):
            lin = sp.sum(nux(i), lambda k: sp.mat("qp_in->BAbt[i]", i=i)(k, j) * ux(i)(k)) - ux(i + 1)(d.nu(i + 1) + j)
            return dyn(i)(j) - lin
        sp.post("dynamics: value at the full step minus linear part", "qp_in->b[i].vec[k]", vars="i k", when=lambda i, j: [i >= 0, i < N, j >= 0, j < d.nx(i + 1)], value=b)

        nbg = lambda i: nb(i) + ng(i)

        def gen(i, j, c, sign, off):        # general constraint c
            sl = sp.num("qp_in->idxs_rev[i][c]", i=i, c=c)
            lin = sp.sum(nux(i), lambda k: sp.mat("qp_in->DCt[i]", i=i)(k, c - nb(i)) * ux(i)(k))
            return con(i)(j) + sign * lin + z3.If(sl >= 0, ux(i)(nux(i) + off + sl), R(0))
        st = lambda i: [i >= 0, i <= N]
        sp.post("bounds are unchanged", "qp_in->d[i].vec[k]", vars="i k", when=lambda i, j: st(i) + [z3.Or(z3.And(j >= 0, j < nb(i)), z3.And(j >= nbg(i), j < nbg(i) + nb(i)))], value=lambda i, j: old(i)(j))
        sp.post("lower general constraints: value at the full step minus linear part", "qp_in->d[i].vec[k]", vars="i k", when=lambda i, j: st(i) + [j >= nb(i), j < nbg(i)], value=lambda i, j: gen(i, j, j, 1, I(0)))
        sp.post("upper general constraints: value at the full step minus linear part", "qp_in->d[i].vec[k]", vars="i k", when=lambda i, j: st(i) + [j >= nbg(i) + nb(i), j < 2 * nbg(i)], value=lambda i, j: gen(i, j, j - nbg(i), -1, d.ns(i)))
        stt = sp.num("nlp_mem->qp_solver_mem[0]")
        fail = z3.And(stt != 0, stt != 2)
        sp.ret = z3.If(fail, I(1), I(0))
        sp.post("a failed correction QP is reported", "nlp_mem->status", value=lambda: z3.If(fail, I(4), sp.num("nlp_mem->status")))
        sp.fresh_scratch("nlp_work.tmp_2ni")
    dimf = ("nx", "nu", "ns", "nv", "ni", "nz", "dynamics", "constraints")
    keepm = {("nlp_mem", f) for f in ("dynamics", "constraints", "status", "iter", "qp_solver_mem", "regularize_mem")} | {("nlp_work", f) for f in ("tmp_2ni", "qp_work")} | {("config", f) for f in ("dynamics", "constraints", "qp_solver", "regularize")} | {("nlp_opts", f) for f in ("print_level", "qp_solver_opts", "regularize")}
    kn = lambda k: (k[0] == "dims" and len(k) > 2 and k[2] not in dimf) or (len(k) > 2 and k[0] in ("nlp_mem", "nlp_work", "config", "nlp_opts") and (k[0], k[2]) not in keepm) or k[0] in ("nlp_in", "nlp_out") or (k[0] == "qp_in" and len(k) > 2 and k[2] in ("RSQrq", "rqz", "d_mask", "m", "Z", "idxe", "diag_H_flag", "idxb", "idxs")) or (k[0] == "qp_out" and len(k) > 2 and k[2] != "ux")

    def norm(mem, sc):
        ndims("dims")(mem, sc)
        q = ("qp_in", "[]")
        g = lambda f, i: mem.current(("dims", "[]", f, "*", "[]"), (0, i))
        for i in range(4):
            nux, ni, ns = g("nx", i) + g("nu", i), g("ni", i), g("ns", i)
            x = min(ni, max(0, mem.current(q + ("dim", "*", "[]", "nb", "*", "[]"), (0, 0, i)))) if nux else 0
            mem.set(q + ("dim", "*", "[]", "nb", "*", "[]"), (0, 0, i), x)
            mem.set(q + ("dim", "*", "[]", "ng", "*", "[]"), (0, 0, i), max(0, min(ni - x, 2)))
            mem.set(q + ("dim", "*", "[]", "ns", "*", "[]"), (0, 0, i), ns)
            for j in range(4):
                k = q + ("idxs_rev", "*", "[]", "*", "[]")
                mem.set(k, (0, i, j), min(max(-1, mem.current(k, (0, i, j)) - 1), ns - 1))
    cc.T("ocp_nlp_perform_second_order_correction", sp_, casts=mcast, nullp=kn, fix=setN(), norm=norm)


JOBS = [
    ("funnel search", Job("funnel line search", "glob_funnel.c", [], 4, bound="at most 3 trial steps, at most 2 stages",
                          replace={"is_trial_iterate_acceptable_to_funnel": "accept_contract", "update_funnel_penalty_parameter": "penalty_contract"}), "funnel globalization: line search"),
    ("merit search", Job("merit line search", "glob_merit.c", [], 5, bound="at most 4 trial steps, at most 2 stages",
                         replace=dict(merit_backtracking_initialize_weights="weights_init_contract", merit_backtracking_update_weights="weights_update_contract",
                                      copy_multipliers_nlp_to_qp="backup_contract", copy_multipliers_qp_to_nlp="restore_contract", ocp_nlp_evaluate_merit_fun="merit_contract",
                                      ocp_nlp_get_violation_inf_norm="viol_contract", ocp_nlp_compute_merit_gradient="gradient_contract")), "merit function globalization: line search"),
    ("ddp search", Job("DDP line search", "glob_ddp.c", [], 4, bound="at most 3 trial steps"), "merit function globalization: DDP line search"),
    ("fixed step", Job("fixed step", "glob_fixed.c", [], 4), "fixed step globalization"),
]


def only(n):
    o = os.environ.get("VF_ONLY", "")
    return n == o[1:] if o.startswith("=") else o in n


def main():
    chk = Check("C04", "vf/ccheck.py (weakest-precondition interpreter of clang's AST + z3 %s); cbmc 6.11.0" % z3.get_version_string(),
                trusted=["z3", "clang AST", "vf/csym.py interpreter", "contracts on BLASFEO in vf/contracts.py", "cbmc", "contract stand-ins in harness/glob_*.c"],
                assumptions=["double arithmetic is treated as real arithmetic (z3 obligations)", "distinct pointer fields of the structures do not alias",
                             "alpha_reduction > alpha_min (otherwise the merit line search never evaluates a trial point)", "line searches: step lengths and merit values are dyadic numbers of bounded size", "fixed step with Anderson acceleration is not specified"])
    funnel(chk)
    merit(chk)
    soc(chk)
    run_tasks(chk, [(n, (lambda rec, j=j, w=w: check(rec, j, w)), None) for n, j, w in JOBS if only(n)])
    return chk.finish()

"""C06: KKT residuals, merit quantities and their norms."""
import ctypes
import z3
from vf.core import Check, TIER
from vf.ccheck import CheckC
from vf.cspec import *
from vf.csym import R, I, num, Ptr
from vf import csym

FILES = ["acados/ocp_nlp/ocp_nlp_common.c", "acados/ocp_qp/ocp_qp_common.c"]


def main():
    chk = Check("C06", "vf/ccheck.py (weakest-precondition interpreter of clang's AST + z3 %s)" % z3.get_version_string(),
                trusted=["z3", "clang AST", "vf/csym.py interpreter", "contracts on BLASFEO in vf/contracts.py"],
                assumptions=["double arithmetic is treated as real arithmetic", "distinct pointer fields of the structures do not alias",
                             "dimensions are nonnegative and nv = nx + nu + 2 ns", "constraint masks are 0 or 1; the equality indices of a QP stage point to its inequalities", "the stage modules' memory getters return a pointer into that module's own memory (module memories modelled as the vector or value returned)"])
    same = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.c_void_p)(lambda p: p)

    # abstract stage modules: a module's memory is the value its getter hands out; evaluating the
    # cost turns element 1 (the value at the current iterate) into element 0 (the stored value)
    def fun_ptr(it, st, f, vals, n):
        return vals[0]

    def compute_fun(it, st, f, vals, n):
        p = vals[-2]
        key, idx = p.loc()
        v = it.load(st, key, idx[:-1] + (I(1),), "float")
        it.write(st, key, idx, v)
        return I(0)

    def opts_get(it, st, f, vals, n):
        # "cost_computation" of the dynamics: an int stored in the options of the stage
        o, out = vals[1], vals[3]
        k, i = o.loc()
        ko, io = out.loc()
        it.write(st, ko, io, it.load(st, k, i, "int"))
        return I(0)
    DP = ctypes.POINTER(ctypes.c_double)

    @ctypes.CFUNCTYPE(None, *[ctypes.c_void_p] * 6)
    def cb_compute(c, d, i, o, m, w):
        p = ctypes.cast(m, DP)
        p[0] = p[1]

    @ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p)
    def cb_opts(c, o, f, v):
        ctypes.cast(v, ctypes.POINTER(ctypes.c_int))[0] = ctypes.cast(o, ctypes.POINTER(ctypes.c_int))[0]
    def axioms(key, idx, t):
        out = list(nlp_axioms(key, idx, t))
        if key[:3] == ("in", "[]", "dmask") and t.sort() == z3.RealSort():
            out.append(z3.Or(t == 0, t == 1))
        if key[-5:-3] == ("idxe", "*") and len(idx) >= 2 and key[:3] == ("mem", "[]", "qp_in"):
            # the indices of equality constraints of a QP point to its inequalities
            f = lambda r, f, j: z3.Function(r + f + ".*.[]", *[z3.IntSort()] * len(j), z3.IntSort())(*j)
            q = "mem.[].qp_in.*.[].dim.*.[]."
            i = idx[-2]
            ni = f("dims.[].", "ni", (I(0), i))
            ne = sum(f(q, x, (I(0), I(0), I(0), i)) for x in ("nbue", "nbxe", "nge"))
            out.append(z3.Implies(z3.And(0 <= idx[-1], idx[-1] < ne), z3.And(0 <= t, t < ni)))
        return out
    cc = CheckC(chk, FILES, axioms=axioms, indirect=dict(memory_get_fun_ptr=fun_ptr, compute_fun=compute_fun, opts_get=opts_get),
                callbacks=dict(memory_get_fun_ptr=same, compute_fun=cb_compute, opts_get=cb_opts))
    T = cc.T

    def keep(*names):
        roots = {n.split(".")[0] for n in names if "." in n}
        flds = {tuple(n.split(".")) for n in names if "." in n}
        return lambda k: len(k) > 2 and k[0] in roots and (k[0], k[2]) not in flds

    # ------------------------------------------------------------ KKT residuals
    def res(branch):
        def spec(sp, A):
            d = D(sp)
            N = d.N
            v = lambda p, i: sp.vec(p + "[i]", i=i)
            nux = lambda i: d.nu(i) + d.nx(i)
            sp.pre.append(N >= 1)
            stat = lambda i, k: v("mem->cost_grad", i)(k) - v("mem->ineq_adj", i)(k) - z3.If(k < nux(i), v("mem->dyn_adj", i)(k), R(0))
            eq = lambda i, k: v("mem->dyn_fun", i)(k)
            sp.post("stationarity residual", "res->res_stat[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < d.nv(i)], value=stat)
            sp.post("equality residual", "res->res_eq[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nx(i + 1)], value=eq)
            sp.post("norm of stationarity", "res->inf_norm_res_stat", value=lambda: sp.max(N + 1, lambda i: sp.max(d.nv(i), lambda k: absv(stat(i, k))), R(0)))
            sp.post("norm of equalities", "res->inf_norm_res_eq", value=lambda: sp.max(N, lambda i: sp.max(d.nx(i + 1), lambda k: absv(eq(i, k))), R(0)))
            sp.post("largest inequality violation", "res->inf_norm_res_ineq", value=lambda: sp.max(N + 1, lambda i: sp.max(2 * d.ni(i), lambda k: v("mem->ineq_fun", i)(k)), R(0)))
            tau = sp.num("opts->tau_min")
            prod = lambda i, k: v("out->lam", i)(k) * v("mem->ineq_fun", i)(k)
            if branch == "tau0":
                sp.pre.append(tau == 0)
                comp = prod
            else:
                sp.pre.append(tau != 0)
                q = D(sp, "mem->qp_in->dim")

                def comp(i, k):
                    ne = q.nbue(i) + q.nbxe(i) + q.nge(i)
                    hit, _ = sp.last(ne, lambda j: sp.num("mem->qp_in->idxe[i][j]", i=i, j=j) == k)
                    hit2, _ = sp.last(ne, lambda j: sp.num("mem->qp_in->idxe[i][j]", i=i, j=j) + d.ni(i) == k)
                    return v("in->dmask", i)(k) * z3.If(z3.Or(hit, hit2), R(0), prod(i, k) + tau)
            sp.post("complementarity residual", "res->res_comp[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < 2 * d.ni(i)], value=comp)
            sp.post("norm of complementarity", "res->inf_norm_res_comp", value=lambda: sp.max(N + 1, lambda i: sp.max(2 * d.ni(i), lambda k: absv(comp(i, k)), R(0)), R(0)))
            sp.fresh_scratch("res.tmp", "work.tmp_2ni")
        return spec
    kp = keep("mem.cost_grad", "mem.ineq_adj", "mem.dyn_adj", "mem.dyn_fun", "mem.ineq_fun", "mem.qp_in", "opts.x", "out.lam", "in.dmask", "work.x", "res.res_stat", "res.res_eq", "res.res_ineq", "res.res_comp")
    kp_ = lambda k: kp(k) or (len(k) > 5 and k[2] == "qp_in" and k[5] in ("BAbt", "RSQrq", "DCt", "b", "rqz", "d", "d_mask", "m", "Z", "idxb", "idxs_rev", "diag_H_flag"))

    def idxe(mem, sc):
        for i in range(4):
            ni = mem.current(("dims", "[]", "ni", "*", "[]"), (0, i))
            q = ("mem", "[]", "qp_in", "*", "[]")
            left = ni
            for f in ("nbue", "nbxe", "nge"):
                k = q + ("dim", "*", "[]", f, "*", "[]")
                x = min(left, max(0, mem.current(k, (0, 0, 0, i))))
                mem.set(k, (0, 0, 0, i), x)
                left -= x
            for j in range(6):
                k = q + ("idxe", "*", "[]", "*", "[]")
                mem.set(k, (0, 0, i, j), min(max(0, mem.current(k, (0, 0, i, j))), max(0, ni - 1)))

    def fixt(v):
        def f(mem, sc, rng):
            setN()(mem, sc, rng)
            mem.set(("opts", "[]", "tau_min"), (0,), v)
            for i in range(4):
                for j in range(6):
                    mem.set(("mem", "[]", "qp_in", "*", "[]", "idxe", "*", "[]", "*", "[]"), (0, 0, i, j), rng.randint(0, 2))
        return f
    T("ocp_nlp_res_compute", res("tau0"), name="ocp_nlp_res_compute (tau_min = 0)", fix=fixt(0), norm=ndims("dims"), nullp=kp_)
    T("ocp_nlp_res_compute", res("tau"), name="ocp_nlp_res_compute (tau_min nonzero)", fix=fixt(0.125), norm=both(ndims("dims"), idxe), nullp=kp_)

    def gn(sp, A):
        m = R(0)
        a = [sp.num(f"res->inf_norm_res_{x}") for x in ("stat", "eq", "ineq", "comp")]
        w = a[0]
        for x in a[1:]:
            w = maxv(w, x)
        sp.post("largest of the four norms", "out[0]", value=lambda: w)
    T("ocp_nlp_res_get_inf_norm", gn, nullp=lambda k: k[0] == "res" and len(k) > 1)

    # ------------------------------------------------------------ merit quantities
    def dd(sp, A):
        d = D(sp)
        sp.ret = sp.sum(d.N + 1, lambda i: sp.sum(d.nx(i) + d.nu(i) + 2 * d.ns(i), lambda k: sp.vec("qp_out->ux[i]", i=i)(k) * sp.vec("qp_in->rqz[i]", i=i)(k)))
    kq = keep("qp_in.rqz", "qp_in.RSQrq", "qp_in.Z", "qp_out.ux", "nlp_work.x", "dims.nx", "dims.nu", "dims.ns", "dims.nv", "dims.ni", "dims.nz")
    T("ocp_nlp_compute_gradient_directional_derivative", dd, fix=setN(), norm=ndims("dims"), nullp=kq)

    def qo(sp, A):
        d = D(sp)

        def st(i):
            nux = d.nx(i) + d.nu(i)
            u, H, Z, g = sp.vec("qp_out->ux[i]", i=i), sp.mat("qp_in->RSQrq[i]", i=i), sp.vec("qp_in->Z[i]", i=i), sp.vec("qp_in->rqz[i]", i=i)
            h = lambda a, b: z3.If(a >= b, H(a, b), H(b, a))
            return (sp.sum(nux, lambda a: u(a) * z3.Q(1, 2) * sp.sum(nux, lambda b: h(a, b) * u(b)))
                    + sp.sum(2 * d.ns(i), lambda k: z3.Q(1, 2) * (2 * u(nux + k) + Z(k) * u(nux + k)) * u(nux + k)) + sp.sum(nux + 2 * d.ns(i), lambda k: g(k) * u(k)))
        sp.ret = sp.sum(d.N + 1, st)
        sp.fresh_scratch("nlp_work.tmp_nv")
    T("ocp_nlp_compute_qp_objective_value", qo, fix=setN(), norm=ndims("dims"), nullp=kq)

    def pn(f, c, last):
        def s(sp, A):
            d = D(sp)
            sp.ret = sp.max(d.N + 1 if last else d.N, lambda i: sp.max(c(d, i), lambda k: absv(sp.vec(f"nlp_out->{f}[i]", i=i)(k))), R(0))
        return s
    kn = keep("nlp_out.pi", "nlp_out.lam", "qp_out.pi", "qp_out.lam", "work.x", "dims.nx", "dims.nu", "dims.ns", "dims.nv", "dims.ni", "dims.nz")
    T("ocp_nlp_compute_dual_pi_norm_inf", pn("pi", lambda d, i: d.nx(i + 1), False), fix=setN(), norm=ndims("dims"), nullp=kn)
    T("ocp_nlp_compute_dual_lam_norm_inf", pn("lam", lambda d, i: 2 * d.ni(i), True), fix=setN(), norm=ndims("dims"), nullp=kn)

    def dl(sp, A):
        d = D(sp)
        df = lambda f, i, k: absv(sp.vec(f"qp_out->{f}[i]", i=i)(k) - sp.vec(f"nlp_out->{f}[i]", i=i)(k))
        a = sp.max(d.N + 1, lambda i: sp.max(2 * d.ni(i), lambda k: df("lam", i, k)), R(0))
        sp.ret = sp.max(d.N, lambda i: sp.max(d.nx(i + 1), lambda k: df("pi", i, k)), a)
        sp.fresh_scratch("work.tmp_2ni", "work.tmp_nv")
    T("ocp_nlp_compute_delta_dual_norm_inf", dl, fix=setN(), norm=ndims("dims"), nullp=kn)

    mcast = {("nlp_mem", "[]", "dynamics", "*", "[]", "*"): "struct blasfeo_dvec", ("nlp_mem", "[]", "constraints", "*", "[]", "*"): "struct blasfeo_dvec",
             ("mem", "[]", "cost", "*", "[]", "*"): "double", ("opts", "[]", "dynamics", "*", "[]", "*"): "int", ("mem", "[]", "dynamics", "*", "[]", "*"): "double"}
    km = keep("nlp_mem.dynamics", "nlp_mem.constraints", "mem.cost", "mem.dynamics", "opts.dynamics", "opts.cost", "config.cost", "config.dynamics", "config.constraints", "dims.nx", "dims.nu", "dims.ns", "dims.nv", "dims.ni", "dims.nz",
              "in.cost", "in.dynamics", "dims.cost", "dims.dynamics", "work.cost", "work.dynamics")

    def l1(sp, A):
        d = D(sp)
        dyn = sp.sum(d.N, lambda i: sp.sum(d.nx(i + 1), lambda k: absv(sp.vec("nlp_mem->dynamics[i][0]", i=i)(k))))

        def pos(i, k):
            x = sp.vec("nlp_mem->constraints[i][0]", i=i)(k)
            return z3.If(x > 0, x, R(0))
        sp.ret = dyn + sp.sum(d.N + 1, lambda i: sp.sum(2 * d.ni(i), lambda k: pos(i, k)))
    T("ocp_nlp_get_l1_infeasibility", l1, casts=mcast, fix=setN(), norm=ndims("dims"), nullp=km)

    def cv(e):
        def spec(sp, A):
            d = D(sp)
            sp.post("sum of the stage costs", "mem->cost_value", value=lambda: sp.sum(d.N + 1, lambda i: sp.num(f"mem->cost[i][{e}]", i=i)))
            if e:
                sp.fresh_scratch("mem.cost", "mem.dynamics")
        return spec
    T("ocp_nlp_get_cost_value_from_submodules", cv(0), casts=mcast, fix=setN(), norm=ndims("dims"), nullp=km)
    T("ocp_nlp_cost_compute", cv(1), casts=mcast, fix=setN(), norm=ndims("dims"), nullp=km)

    # ------------------------------------------------------------ QP slacks and residual norms
    qi = ("qp_in", "[]", "dim", "*", "[]")

    def ct(sp, A):
        d = D(sp, "qp_in->dim")
        N = d.N
        nux = lambda i: d.nu(i) + d.nx(i)
        nbg = lambda i: d.nb(i) + d.ng(i)

        ux, dd_, C = (lambda i: sp.vec("qp_out->ux[i]", i=i)), (lambda i: sp.vec("qp_in->d[i]", i=i)), (lambda i: sp.mat("qp_in->DCt[i]", i=i))
        rev = lambda i, m: sp.num("qp_in->idxs_rev[i][m]", i=i, m=m)

        def lhs(i, m):
            idxb = sp.num("qp_in->idxb[i][m]", i=i, m=m)
            return z3.If(m < d.nb(i), ux(i)(idxb), sp.sum(nux(i), lambda j: C(i)(j, m - d.nb(i)) * ux(i)(j)))
        sl = lambda i, m, o: z3.If(rev(i, m) == -1, R(0), ux(i)(nux(i) + rev(i, m) + o))
        rg = lambda i, k, a, b: [i >= 0, i <= N, k >= a, k < b]
        tk = "qp_out->t[i].vec[k]"
        sp.post("slacks of lower bounds", tk, vars="i k", when=lambda i, k: rg(i, k, 0, nbg(i)), value=lambda i, k: lhs(i, k) - dd_(i)(k) + sl(i, k, I(0)))
        sp.post("slacks of upper bounds", tk, vars="i k", when=lambda i, k: rg(i, k, nbg(i), 2 * nbg(i)),
                value=lambda i, k: -lhs(i, k - nbg(i)) - dd_(i)(k) + sl(i, k - nbg(i), d.ns(i)))
        sp.post("slacks of the slack bounds", tk, vars="i k", when=lambda i, k: rg(i, k, 2 * nbg(i), 2 * nbg(i) + 2 * d.ns(i)),
                value=lambda i, k: ux(i)(nux(i) + k - 2 * nbg(i)) - dd_(i)(k))

    def ctn(mem, sc):
        qdims(qi)(mem, sc)
        for i in range(4):
            g = lambda f: mem.current(qi + (f, "*", "[]"), (0, 0, i))
            nux, ns, nbg = g("nx") + g("nu"), g("ns"), g("nb") + g("ng")
            if nux == 0:
                for f in ("nb", "nbx", "nbu"):
                    mem.set(qi + (f, "*", "[]"), (0, 0, i), 0)
            for j in range(nbg):
                k = ("qp_in", "[]", "idxb", "*", "[]", "*", "[]")
                mem.set(k, (0, i, j), min(max(0, mem.current(k, (0, i, j))), max(0, nux - 1)))
                k = ("qp_in", "[]", "idxs_rev", "*", "[]", "*", "[]")
                mem.set(k, (0, i, j), min(max(-1, mem.current(k, (0, i, j)) - 1), ns - 1))
    T("ocp_qp_compute_t", ct, fix=setN(path=qi), norm=ctn, nullp=lambda k: "misc" in k or (k[0] == "qp_out" and "dim" in k))

    def init(sp, A):
        d = D(sp)
        N = d.N
        sp.post("zero primal step", "qp_out->ux[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < d.nv(i)], value=lambda i, k: R(0))
        sp.post("multipliers lam", "qp_out->lam[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < 2 * d.ni(i)], value=lambda i, k: sp.vec("out->lam[i]", i=i)(k))
        sp.post("multipliers pi", "qp_out->pi[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nx(i + 1)], value=lambda i, k: sp.vec("out->pi[i]", i=i)(k))
        sp.fresh_scratch("qp_out.t")
    T("ocp_nlp_initialize_qp_from_nlp", init, fix=lambda m, s, r: (setN()(m, s, r), m.set(qi + ("N",), (0, 0), m.current(("dims", "[]", "N"), (0,)))), norm=both(ndims("dims"), ctn),
      nullp=lambda k: "misc" in k or k[0] == "config" or (k[0] == "qp_out" and "dim" in k) or (k[0] == "dims" and len(k) > 2 and k[2] not in ("nx", "nu", "nv", "ni", "ns", "nz")))

    def rn(sp, A):
        d = D(sp, "qp_res->dim")
        N = d.N
        sp.pre.append(N >= 1)
        nv = sp.sum(N + 1, lambda i: d.nx(i) + d.nu(i) + 2 * d.ns(i))
        ne = sp.sum(N, lambda i: d.nx(i + 1))
        nc = sp.sum(N + 1, lambda i: 2 * d.nb(i) + 2 * d.ng(i) + 2 * d.ns(i))
        # the stage vectors are contiguous, so the vector of stage 0 spans all stages
        for q, (f, n) in enumerate((("res_g", nv), ("res_b", ne), ("res_d", nc), ("res_m", nc))):
            sp.post(f"norm of {f}", f"res[{q}]", value=lambda f=f, n=n: sp.max(n, lambda k: absv(sp.vec(f"qp_res->{f}[0]")(k)), R(0)))
    qr = ("qp_res", "[]", "dim", "*", "[]")
    T("ocp_qp_res_compute_nrm_inf", rn, fix=setN(path=qr), norm=qdims(qr))
    return chk.finish(min_obligations=30)

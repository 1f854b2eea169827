"""C13: cost modules: values, gradients and Gauss-Newton Hessians equal their formulas."""
import ctypes
import z3
from vf.core import Check
from vf.ccheck import CheckC
from vf.cspec import *
from vf.csym import R, I, num
from vf.contracts import Mat, snap
from vf.extfun import ExtFun, apply, weight

DIR = "acados/ocp_nlp/"
CHOL = z3.Function("chol", z3.RealSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())


def dpotrf(it, st, a, n):
    """an uninterpreted factor of the given matrix (its entries are named after those of the matrix)"""
    m, A, ai, aj, D_, di, dj = a
    A, D_, s = Mat(it, st, A), Mat(it, st, D_), snap(st)
    D_.put_block(st, num(di), num(dj), num(m), num(m), lambda p, q: CHOL(A.get(s, ai + p, aj + q), p, q), extra=lambda p, q: p >= q)


class Ls:
    """what the linear and nonlinear least squares cost share"""
    def __init__(self, sp, kind):
        self.sp = sp
        d = lambda f: sp.num(f"dims_->{f}")
        self.nx, self.nu, self.nz, self.ns = d("nx"), d("nu"), d("nz"), d("ns")
        self.ny = d("ny") if kind != "external" else None
        self.nux = self.nx + self.nu
        if kind in ("ls", "nls"):
            self.diag = sp.num("model_->outer_hess_is_diag") != 0
        self.scal = sp.num("model_->scaling")
        self.ux = sp.vec("memory_->ux[0]")
        if kind in ("ls", "nls"):
            self.W = sp.mat("model_->W")
            self.L, self.Ld = sp.mat("memory_->W_chol"), sp.vec("memory_->W_chol_diag")
        self.z, self.Z = sp.vec("model_->z"), sp.vec("model_->Z")

    def Wv(self, v, diag):
        if diag:
            return lambda j: self.W(j, j) * v(j)
        return lambda j: self.sp.sum(self.ny, lambda l: z3.If(j >= l, self.W(j, l), self.W(l, j)) * v(l))

    def LT(self, v, diag):
        if diag:
            return lambda j: self.Ld(j) * v(j)
        return lambda j: self.sp.sum(self.ny, lambda l: z3.If(l >= j, self.L(l, j), R(0)) * v(l))

    def CL(self, C, diag, L=None, Ld=None):
        L, Ld = L or self.L, Ld or self.Ld
        if diag:
            return lambda r, j: C(r, j) * Ld(j)
        return lambda r, j: self.sp.sum(self.ny, lambda l: C(r, l) * z3.If(l >= j, L(l, j), R(0)))

    def slackfun(self):
        s = lambda k: self.ux(self.nux + k)
        return self.sp.sum(2 * self.ns, lambda k: s(k) * (self.z(k) + z3.Q(1, 2) * self.Z(k) * s(k)))

    def slackgrad(self, k):
        return self.z(k) + self.Z(k) * self.ux(self.nux + k)

    def grad_post(self, g):
        sp = self.sp
        sp.post("gradient with respect to inputs and states", "memory_->grad.vec[k]", vars="k", when=lambda k: [k >= 0, k < self.nux], value=lambda k: self.scal * g(k))
        sp.post("gradient with respect to the slacks", "memory_->grad.vec[k]", vars="k", when=lambda k: [k >= self.nux, k < self.nux + 2 * self.ns], value=lambda k: self.scal * self.slackgrad(k - self.nux))


def dim(it, st, f):
    g = lambda n: num(it.load(st, ("dims_", "[]", n), (I(0),), "int"))
    return {"nux": lambda: g("nx") + g("nu"), "nuxz": lambda: g("nx") + g("nu") + g("nz")}.get(f, lambda: g(f))()


def mkext(table):
    return ExtFun(table, dim)


def setD(ext, mem, fields=("nx", "nu", "nz", "ny")):
    for f in fields:
        ext.D[f] = mem.current(("dims_", "[]", f), (0,))
    ext.D["nux"] = ext.D["nx"] + ext.D["nu"]
    ext.D["nuxz"] = ext.D["nux"] + ext.D["nz"]


def norm(mem, sc):
    z = (0,)
    for f in ("nx", "nu", "nz", "ny", "ns"):
        k = ("dims_", "[]", f)
        mem.set(k, z, min(2, max(0, mem.current(k, z))))


def ls(chk):
    F = [DIR + "ocp_nlp_cost_ls.c"]
    cc = CheckC(chk, F, contracts_=dict(blasfeo_dpotrf_l=dpotrf), nocall=("ocp_nlp_cost_ls_cast_workspace",))
    P = "ocp_nlp_cost_ls_"
    cast = {(p,): P + p[:-1] for p in ("dims_", "model_", "opts_", "memory_")} | {("work_",): P + "workspace"}
    nul = lambda k: k[0] == "config_"

    def variant(zalg, diag):
        def fix(mem, sc, rng):
            mem.set(("dims_", "[]", "nz"), (0,), rng.randint(1, 2) if zalg else 0)
            mem.set(("model_", "[]", "outer_hess_is_diag"), (0,), 1.0 if diag else 0.0)

        def pre(sp, c):
            sp.pre += [c.nz >= 1 if zalg else c.nz == 0, c.diag if diag else z3.Not(c.diag)]
            sp.fresh_scratch(*["work_." + f for f in ("tmp_nv_ny", "Cyt_tilde", "tmp_ny", "tmp_2ns", "tmp_nz", "y_ref_tilde")])
        nm = f" ({'with' if zalg else 'no'} algebraic variables, {'diagonal' if diag else 'dense'} W)"

        def residual(sp, c):
            cyt, yref = sp.mat("model_->Cyt"), sp.vec("model_->y_ref")
            if not zalg:
                C, y = cyt, yref
            else:
                dz, vz, za = sp.mat("memory_->dzdux_tran[0]"), sp.mat("model_->Vz"), sp.vec("memory_->z_alg[0]")
                C = lambda r, j: cyt(r, j) + sp.sum(c.nz, lambda l: dz(r, l) * vz(j, l))
                t = lambda l: sp.sum(c.nux, lambda r: dz(r, l) * c.ux(r)) - za(l)
                y = lambda j: yref(j) + sp.sum(c.nz, lambda l: vz(j, l) * t(l))
            return C, lambda j: sp.sum(c.nux, lambda r: C(r, j) * c.ux(r)) - y(j)

        def up(sp, A):
            c = Ls(sp, "ls")
            pre(sp, c)
            C, res = residual(sp, c)
            sp.post("residual", "memory_->res.vec[k]", vars="k", when=lambda k: [k >= 0, k < c.ny], value=res)
            w = c.Wv(res, False)
            c.grad_post(lambda r: sp.sum(c.ny, lambda j: C(r, j) * w(j)))
            sp.post("cost value", "memory_->fun", value=lambda: c.scal * (z3.Q(1, 2) * sp.sum(c.ny, lambda j: w(j) * res(j)) + c.slackfun()))
            T_ = c.CL(C, diag)
            add = sp.num("opts_->add_hess_contribution") != 0
            old = sp.mat("memory_->RSQrq[0]")
            if zalg:
                h = lambda p, q: c.scal * sp.sum(c.ny, lambda j: T_(p, j) * T_(q, j))
            else:
                h = sp.mat("memory_->hess")
            sp.post("Hessian", "memory_->RSQrq[0].mat[r,c]", vars="r c", when=lambda r, q: [sp.num("opts_->compute_hess") != 0, r >= 0, q >= 0, q < c.nux, r < c.nux] + ([r >= q] if zalg else []),
                    value=lambda r, q: z3.If(add, old(r, q), R(0)) + h(r, q))

        def fu(sp, A):
            c = Ls(sp, "ls")
            pre(sp, c)
            C, res = residual(sp, c)
            sp.post("residual", "memory_->res.vec[k]", vars="k", when=lambda k: [k >= 0, k < c.ny], value=res)
            t = c.LT(res, diag)
            sp.post("cost value", "memory_->fun", value=lambda: c.scal * (z3.Q(1, 2) * sp.sum(c.ny, lambda j: t(j) * t(j)) + c.slackfun()))
        kw = dict(casts=cast, nullp=nul, fix=fix, norm=norm)
        cc.T(P + "update_qp_matrices", up, name=P + "update_qp_matrices" + nm, **kw)
        cc.T(P + "compute_fun", fu, name=P + "compute_fun" + nm, **kw)
    for zalg in (False, True):
        for diag in (True, False):
            variant(zalg, diag)

    def fact(diag, which):
        def f(sp, A):
            c = Ls(sp, "ls")
            sp.pre += [c.diag if diag else z3.Not(c.diag)]
            sp.fresh_scratch("work_.tmp_nv_ny")
            ch = z3.BoolVal(True) if which == "precompute" else sp.num("model_->W_changed") != 0
            cy = z3.Or(ch, sp.num("model_->Cyt_or_scaling_changed") != 0)
            sq = z3.Function("fn_sqrt", z3.RealSort(), z3.RealSort())
            Ld = lambda j: z3.If(ch, sq(c.W(j, j)), c.Ld(j))
            L = lambda p, q: z3.If(ch, CHOL(c.W(p, q), p, q), c.L(p, q))
            if diag:
                sp.pre.append(sp.forall("j", lambda j: c.W(j, j) >= 0)) if hasattr(sp, "forall") else None
                sp.post("factor of the weighting matrix", "memory_->W_chol_diag.vec[k]", vars="k", when=lambda k: [ch, k >= 0, k < c.ny], value=Ld)
            else:
                sp.post("factor of the weighting matrix", "memory_->W_chol.mat[r,c]", vars="r c", when=lambda r, q: [ch, q >= 0, r >= q, r < c.ny], value=L)
            T_ = c.CL(sp.mat("model_->Cyt"), diag, L, Ld)
            sp.post("Hessian", "memory_->hess.mat[r,c]", vars="r c", when=lambda r, q: [cy, q >= 0, r >= q, r < c.nux], value=lambda r, q: c.scal * sp.sum(c.ny, lambda j: T_(r, j) * T_(q, j)))
            sp.post("the change of W is consumed", "model_->W_changed", value=lambda: I(0))
            sp.post("the change of Vx, Vu, scaling is consumed", "model_->Cyt_or_scaling_changed", value=lambda: I(0))
            if which == "initialize":
                sp.post("slack Hessian", "memory_->Z[0].vec[k]", vars="k", when=lambda k: [k >= 0, k < 2 * c.ns], value=lambda k: c.scal * c.Z(k))

        def fix(mem, sc, rng):
            mem.set(("model_", "[]", "outer_hess_is_diag"), (0,), 1.0 if diag else 0.0)
            for j in range(3):
                mem.set(("model_", "[]", "W", "pA", "*", "[,]"), (0, 0, j, j), rng.randint(0, 4) / 2)
        cc.T(P + which, f, casts=cast, nullp=nul, fix=fix, norm=norm, name=f"{P}{which} ({'diagonal' if diag else 'dense'} W)")
    for diag in (True, False):
        for which in ("precompute", "initialize"):
            fact(diag, which)


def nls(chk):
    F = [DIR + "ocp_nlp_cost_nls.c"]
    ext = mkext(dict(nls_y_fun=(4, [("vec", "ny")]), nls_y_fun_jac=(4, [("vec", "ny"), ("mat", "nux", "ny"), ("mat", "ny", "nz")]),
                     nls_y_hess=(5, [("mat", "nux", "nux")], {3: "ny"})))
    cc = CheckC(chk, F, contracts_=dict(blasfeo_dpotrf_l=dpotrf), nocall=("ocp_nlp_cost_nls_cast_workspace",), indirect=ext.indirect, callbacks=ext.callbacks)
    P = "ocp_nlp_cost_nls_"
    cast = {(p,): P + p[:-1] for p in ("dims_", "model_", "opts_", "memory_")} | {("work_",): P + "workspace"}
    nul = lambda k: k[0] == "config_"

    def norm2(mem, sc):
        norm(mem, sc)
        setD(ext, mem)

    def variant(zalg, diag, integ):
        def fix(mem, sc, rng):
            mem.set(("dims_", "[]", "nz"), (0,), rng.randint(1, 2) if zalg else 0)
            mem.set(("model_", "[]", "outer_hess_is_diag"), (0,), 1.0 if diag else 0.0)
            mem.set(("opts_", "[]", "integrator_cost"), (0,), 1 if integ else 0)
            if zalg:
                mem.set(("opts_", "[]", "gauss_newton_hess"), (0,), 1)

        def pre(sp, c):
            ic = sp.num("opts_->integrator_cost")
            sp.pre += [c.nz >= 1 if zalg else c.nz == 0, c.diag if diag else z3.Not(c.diag), ic == 1 if integ else ic == 0, z3.Or(sp.num("opts_->gauss_newton_hess") == 0, sp.num("opts_->gauss_newton_hess") == 1)]
            if zalg:
                sp.pre += [sp.num("opts_->gauss_newton_hess") != 0]
            if integ:
                sp.fresh_scratch("work_.tmp_2ns")
            else:
                sp.fresh_scratch(*["work_." + f for f in ("tmp_nv_ny", "tmp_nv_nv", "Vz", "Cyt_tilde", "tmp_ny", "tmp_2ns", "tmp_nz")])
        nm = " (cost in the integrator)" if integ else f" ({'with' if zalg else 'no'} algebraic variables, {'diagonal' if diag else 'dense'} W)"

        def args(sp, c):
            za = sp.vec("memory_->z_alg[0]")
            return [lambda e: c.ux(c.nu + e), lambda e: c.ux(e), za, lambda e: sp.num("model_->t")]

        def up(sp, A):
            c = Ls(sp, "nls")
            pre(sp, c)
            if integ:
                sp.post("gradient with respect to the slacks", "memory_->grad.vec[k]", vars="k", when=lambda k: [k >= c.nux, k < c.nux + 2 * c.ns], value=lambda k: c.scal * c.slackgrad(k - c.nux))
                sp.post("cost value: the scaled slack penalty is added", "memory_->fun", value=lambda: sp.num("memory_->fun") + c.scal * c.slackfun())
                return
            a = args(sp, c)
            r0, j0, v0 = sp.vec("memory_->res"), sp.mat("memory_->Jt"), sp.mat("work_->Vz")
            res = lambda j: apply("nls_y_fun_jac", 0, r0(j), [x(j) for x in a]) - sp.vec("model_->y_ref")(j)
            J = lambda r, j: apply("nls_y_fun_jac", 1, j0(r, j), [x(j) for x in a])
            Vz = lambda j, l: apply("nls_y_fun_jac", 2, v0(j, l), [x(l) for x in a])
            dz = sp.mat("memory_->dzdux_tran[0]")
            C = J if not zalg else lambda r, j: J(r, j) + sp.sum(c.nz, lambda l: dz(r, l) * Vz(j, l))
            sp.post("residual", "memory_->res.vec[k]", vars="k", when=lambda k: [k >= 0, k < c.ny], value=res)
            sp.post("Jacobian", "memory_->Jt.mat[r,c]", vars="r c", when=lambda r, q: [r >= 0, r < c.nux, q >= 0, q < c.ny], value=J)
            w = c.Wv(res, False)
            c.grad_post(lambda r: sp.sum(c.ny, lambda j: C(r, j) * w(j)))
            sp.post("cost value", "memory_->fun", value=lambda: c.scal * (z3.Q(1, 2) * sp.sum(c.ny, lambda j: w(j) * res(j)) + c.slackfun()))
            T_ = c.CL(C, diag)
            old = sp.mat("memory_->RSQrq[0]")
            add = sp.num("opts_->add_hess_contribution") != 0
            gn = sp.num("opts_->gauss_newton_hess") != 0
            h0 = sp.mat("work_->tmp_nv_nv")
            Wr = lambda q: sp.sum(q + 1, lambda l: c.W(q, l) * res(l)) + sp.sum(c.ny, lambda l: c.W(l, q) * res(l)) - sp.sum(q + 1, lambda l: c.W(l, q) * res(l))
            full = lambda r, q: c.scal * apply("nls_y_hess", 0, h0(r, q), [a[0](q), a[1](q), a[2](q), z3.If(q < c.ny, Wr(q), R(0)), sp.num("model_->t")])
            ghess = lambda p, q: c.scal * sp.sum(c.ny, lambda j: T_(p, j) * T_(q, j))
            sp.post("Hessian", "memory_->RSQrq[0].mat[r,c]", vars="r c", when=lambda r, q: [q >= 0, r >= q, r < c.nux],
                    value=lambda r, q: z3.If(add, old(r, q), R(0)) + ghess(r, q) + z3.If(gn, R(0), full(r, q)))
            if not zalg:
                sp.post("upper triangle (not used)", "memory_->RSQrq[0].mat[r,c]", vars="r c", when=lambda r, q: [r >= 0, q > r, q < c.nux, z3.Not(gn)], value=lambda r, q: old(r, q) + full(r, q))

        def fu(sp, A):
            c = Ls(sp, "nls")
            pre(sp, c)
            if integ:
                sp.post("cost value: the scaled slack penalty is added", "memory_->fun", value=lambda: sp.num("memory_->fun") + c.scal * c.slackfun())
                return
            a = args(sp, c)
            r0 = sp.vec("memory_->res")
            res = lambda j: apply("nls_y_fun", 0, r0(j), [x(j) for x in a]) - sp.vec("model_->y_ref")(j)
            sp.post("residual", "memory_->res.vec[k]", vars="k", when=lambda k: [k >= 0, k < c.ny], value=res)
            t = c.LT(res, diag)
            sp.post("cost value", "memory_->fun", value=lambda: c.scal * (z3.Q(1, 2) * sp.sum(c.ny, lambda j: t(j) * t(j)) + c.slackfun()))
        kw = dict(casts=cast, nullp=nul, fix=fix, norm=norm2)
        cc.T(P + "update_qp_matrices", up, name=P + "update_qp_matrices" + nm, **kw)
        if not zalg:
            cc.T(P + "compute_fun", fu, name=P + "compute_fun" + (nm if integ else f" ({'diagonal' if diag else 'dense'} W)"), **kw)
    for zalg, diag, integ in ((False, True, False), (False, False, False), (True, True, False), (True, False, False), (False, True, True)):
        variant(zalg, diag, integ)

    def fact(diag, which):
        def f(sp, A):
            c = Ls(sp, "nls")
            sp.pre += [c.diag if diag else z3.Not(c.diag)]
            ch = z3.BoolVal(True) if which == "precompute" else sp.num("model_->W_changed") != 0
            sq = z3.Function("fn_sqrt", z3.RealSort(), z3.RealSort())
            if diag:
                sp.post("factor of the weighting matrix", "memory_->W_chol_diag.vec[k]", vars="k", when=lambda k: [ch, k >= 0, k < c.ny], value=lambda j: sq(c.W(j, j)))
            else:
                sp.post("factor of the weighting matrix", "memory_->W_chol.mat[r,c]", vars="r c", when=lambda r, q: [ch, q >= 0, r >= q, r < c.ny], value=lambda p, q: CHOL(c.W(p, q), p, q))
            sp.post("the change of W is consumed", "model_->W_changed", value=lambda: I(0))
            if which == "initialize":
                sp.post("slack Hessian", "memory_->Z[0].vec[k]", vars="k", when=lambda k: [k >= 0, k < 2 * c.ns], value=lambda k: c.scal * c.Z(k))

        def fix(mem, sc, rng):
            mem.set(("model_", "[]", "outer_hess_is_diag"), (0,), 1.0 if diag else 0.0)
            for j in range(3):
                mem.set(("model_", "[]", "W", "pA", "*", "[,]"), (0, 0, j, j), rng.randint(0, 4) / 2)
        cc.T(P + which, f, casts=cast, nullp=nul, fix=fix, norm=norm2, name=f"{P}{which} ({'diagonal' if diag else 'dense'} W)")
    for diag in (True, False):
        for which in ("precompute", "initialize"):
            fact(diag, which)


def conl(chk):
    F = [DIR + "ocp_nlp_cost_conl.c"]
    outs = [("scalar",), ("vec", "ny"), ("mat", "nux", "ny"), ("mat", "nz", "ny"), ("mat", "ny", "ny"), ("scalar",)]
    ext = mkext(dict(conl_cost_fun=(5, [("scalar",)]), conl_cost_fun_jac_hess=(5, outs)))
    cc = CheckC(chk, F, contracts_=dict(blasfeo_dpotrf_l=dpotrf), nocall=("ocp_nlp_cost_conl_cast_workspace",), indirect=ext.indirect, callbacks=ext.callbacks)
    P = "ocp_nlp_cost_conl_"
    cast = {(p,): P + p[:-1] for p in ("dims_", "model_", "opts_", "memory_")} | {("work_",): P + "workspace"}
    nul = lambda k: k[0] == "config_"

    def norm2(mem, sc):
        norm(mem, sc)
        setD(ext, mem)

    def variant(zalg, diag, integ):
        def norm3(mem, sc):
            norm2(mem, sc)
            if not diag:                # the loss reports a dense outer Hessian
                v = lambda root, f, e, *i: mem.current((root, "[]", f, *(("*", "[]") if i else ()), "pa", "*", "[]"), (0, *i, 0, e)) if root == "memory_" else mem.current((root, "[]", f, "pa", "*", "[]"), (0, 0, e))
                x = [v("memory_", "ux", ext.D["nu"], 0), v("memory_", "ux", 0, 0), v("memory_", "z_alg", 0, 0), v("model_", "y_ref", 0), mem.current(("model_", "[]", "t"), (0,))]
                mem.set(("memory_", "[]", "outer_hess_is_diag"), (0,), -sum(weight(5, k) * y for k, y in enumerate(x)) / 2)
        def fix(mem, sc, rng):
            mem.set(("dims_", "[]", "nz"), (0,), rng.randint(1, 2) if zalg else 0)
            mem.set(("opts_", "[]", "integrator_cost"), (0,), 1 if integ else 0)

        nm = " (cost in the integrator)" if integ else f" ({'with' if zalg else 'no'} algebraic variables, {'diagonal' if diag else 'dense'} outer Hessian)"

        def pre(sp, c, hess=True):
            ic = sp.num("opts_->integrator_cost")
            sp.pre += [c.nz >= 1 if zalg else c.nz == 0, ic == 1 if integ else ic == 0]
            sp.fresh_scratch(*(["work_.tmp_2ns"] if integ else ["work_." + f for f in ("tmp_nv_ny", "Jt_ux", "Jt_ux_tilde", "Jt_z", "W", "tmp_ny", "tmp_2ns")]))

        def args(sp, c):
            za, yr, t = sp.vec("memory_->z_alg[0]"), sp.vec("model_->y_ref"), sp.num("model_->t")
            return lambda e: [c.ux(c.nu + e), c.ux(e), za(e), yr(e), t]

        def jac(sp, c, a):
            f = lambda o, old, e: apply("conl_cost_fun_jac_hess", o, old, a(e))
            g0, j0, z0, w0 = sp.vec("work_->tmp_ny"), sp.mat("work_->Jt_ux"), sp.mat("work_->Jt_z"), sp.mat("work_->W")
            dz = sp.mat("memory_->dzdux_tran[0]")
            g = lambda j: f(1, g0(j), j)
            J = lambda r, j: f(2, j0(r, j), j)
            C = J if not zalg else lambda r, j: J(r, j) + sp.sum(c.nz, lambda l: dz(r, l) * f(3, z0(l, j), j))
            return f, g, C, lambda r, j: f(4, w0(r, j), j)

        def up(sp, A):
            c = Ls(sp, "conl")
            pre(sp, c)
            if integ:
                sp.post("gradient with respect to the slacks", "memory_->grad.vec[k]", vars="k", when=lambda k: [k >= c.nux, k < c.nux + 2 * c.ns], value=lambda k: c.scal * c.slackgrad(k - c.nux))
                sp.post("cost value: the scaled slack penalty is added", "memory_->fun", value=lambda: sp.num("memory_->fun") + c.scal * c.slackfun())
                return
            f, g, C, W = jac(sp, c, args(sp, c))
            isd = f(5, sp.num("memory_->outer_hess_is_diag"), I(0))
            sp.pre.append(isd != 0 if diag else isd == 0)
            sp.post("the flag of the outer Hessian", "memory_->outer_hess_is_diag", value=lambda: isd)
            c.grad_post(lambda r: sp.sum(c.ny, lambda j: C(r, j) * g(j)))
            sp.post("cost value", "memory_->fun", value=lambda: c.scal * (f(0, sp.num("memory_->fun"), I(0)) + c.slackfun()))
            sq = z3.Function("fn_sqrt", z3.RealSort(), z3.RealSort())
            if diag:
                sp.post("factor of the outer Hessian", "memory_->W_chol_diag.vec[k]", vars="k", when=lambda k: [k >= 0, k < c.ny], value=lambda j: sq(W(j, j)))
            else:
                sp.post("factor of the outer Hessian", "memory_->W_chol.mat[r,c]", vars="r c", when=lambda r, q: [q >= 0, r >= q, r < c.ny], value=lambda p, q: CHOL(W(p, q), p, q))
            T_ = c.CL(C, diag, lambda p, q: CHOL(W(p, q), p, q), lambda j: sq(W(j, j)))
            old, add = sp.mat("memory_->RSQrq[0]"), sp.num("opts_->add_hess_contribution") != 0
            sp.post("Hessian", "memory_->RSQrq[0].mat[r,c]", vars="r c", when=lambda r, q: [q >= 0, r >= q, r < c.nux],
                    value=lambda r, q: z3.If(add, old(r, q), R(0)) + c.scal * sp.sum(c.ny, lambda j: T_(r, j) * T_(q, j)))

        def gr(sp, A):
            c = Ls(sp, "conl")
            pre(sp, c)
            if integ:
                sp.post("gradient with respect to the slacks", "memory_->grad.vec[k]", vars="k", when=lambda k: [k >= c.nux, k < c.nux + 2 * c.ns], value=lambda k: c.scal * c.slackgrad(k - c.nux))
                return
            f, g, C, W = jac(sp, c, args(sp, c))
            sp.post("the flag of the outer Hessian", "memory_->outer_hess_is_diag", value=lambda: f(5, sp.num("memory_->outer_hess_is_diag"), I(0)))
            sp.post("value of the loss (not scaled, without slacks)", "memory_->fun", value=lambda: f(0, sp.num("memory_->fun"), I(0)))
            c.grad_post(lambda r: sp.sum(c.ny, lambda j: C(r, j) * g(j)))

        def fu(sp, A):
            c = Ls(sp, "conl")
            ic = sp.num("opts_->integrator_cost")
            sp.pre += [ic == 1 if integ else ic == 0]
            sp.fresh_scratch("work_.tmp_2ns")
            old = sp.num("memory_->fun")
            if integ:
                sp.post("cost value: the scaled slack penalty is added", "memory_->fun", value=lambda: old + c.scal * c.slackfun())
            else:
                sp.post("cost value", "memory_->fun", value=lambda: c.scal * (apply("conl_cost_fun", 0, old, args(sp, c)(I(0))) + c.slackfun()))
        kw = dict(casts=cast, nullp=nul, fix=fix, norm=norm3)
        cc.T(P + "update_qp_matrices", up, name=P + "update_qp_matrices" + nm, **kw)
        if diag:
            cc.T(P + "compute_gradient", gr, name=P + "compute_gradient" + (nm if integ else f" ({'with' if zalg else 'no'} algebraic variables)"), **kw)
            if not zalg:
                cc.T(P + "compute_fun", fu, name=P + "compute_fun" + (nm if integ else ""), **kw)
    for zalg, diag, integ in ((False, True, False), (False, False, False), (True, True, False), (True, False, False), (False, True, True)):
        variant(zalg, diag, integ)

    def ini(sp, A):
        c = Ls(sp, "conl")
        sp.post("slack Hessian", "memory_->Z[0].vec[k]", vars="k", when=lambda k: [k >= 0, k < 2 * c.ns], value=lambda k: c.scal * c.Z(k))
    cc.T(P + "initialize", ini, casts=cast, nullp=nul, norm=norm2)


def external(chk):
    F = [DIR + "ocp_nlp_cost_external.c"]
    jac = [("scalar",), ("vec", "nuxz")]
    ext = mkext(dict(ext_cost_fun=(3, [("scalar",)]), ext_cost_fun_jac=(3, jac), ext_cost_fun_jac_hess=(3, jac + [("mat", "nux", "nux"), ("mat", "nz", "nz"), ("mat", "nz", "nux")])))
    cc = CheckC(chk, F, nocall=("ocp_nlp_cost_external_cast_workspace",), indirect=ext.indirect, callbacks=ext.callbacks)
    P = "ocp_nlp_cost_external_"
    cast = {(p,): P + p[:-1] for p in ("dims_", "model_", "opts_", "memory_")} | {("work_",): P + "workspace"}
    nul = lambda k: k[0] == "config_"

    def norm2(mem, sc):
        k = ("dims_", "[]", "ny")
        for f in ("nx", "nu", "nz", "ns"):
            k = ("dims_", "[]", f)
            mem.set(k, (0,), min(2, max(0, mem.current(k, (0,)))))
        setD(ext, mem, ("nx", "nu", "nz"))

    def args(sp, c):
        za = sp.vec("memory_->z_alg[0]")
        return lambda e: [c.ux(e), c.ux(c.nu + e), za(e)]

    def args2(sp, c):
        a = args(sp, c)
        return lambda e: [a(e)[1], a(e)[0], a(e)[2]]

    def variant(zalg, num_hess):
        def fix(mem, sc, rng):
            mem.set(("dims_", "[]", "nz"), (0,), rng.randint(1, 2) if zalg else 0)
            mem.set(("opts_", "[]", "use_numerical_hessian"), (0,), 1 if num_hess else 0)
        nm = f" ({'with' if zalg else 'no'} algebraic variables" + (", user-supplied Hessian)" if num_hess else ")")

        def pre(sp, c):
            nh = sp.num("opts_->use_numerical_hessian")
            sp.pre += [c.nz >= 1 if zalg else c.nz == 0, nh > 0 if num_hess else nh <= 0]

        def grad(sp, c, fn):
            a = args2(sp, c)
            g0 = sp.vec("work_->tmp_nunxnz")
            g = lambda e: apply(fn, 1, g0(e), a(e))
            dz = sp.mat("memory_->dzdux_tran[0]")
            c.grad_post(g if not zalg else lambda r: g(r) + sp.sum(c.nz, lambda l: dz(r, l) * g(c.nux + l)))
            return a, dz

        def up(sp, A):
            c = Ls(sp, "external")
            pre(sp, c)
            sp.fresh_scratch(*["work_." + f for f in ("tmp_nunxnz", "tmp_2ns") + (() if num_hess else ("tmp_nunx_nunx", "tmp_nz_nz", "tmp_nz_nunx"))])
            fn = "ext_cost_fun_jac" if num_hess else "ext_cost_fun_jac_hess"
            a, dz = grad(sp, c, fn)
            old0 = sp.num("memory_->fun")
            sp.post("cost value", "memory_->fun", value=lambda: c.scal * (apply(fn, 0, old0, a(I(0))) + c.slackfun()))
            old, add = sp.mat("memory_->RSQrq[0]"), sp.num("opts_->add_hess_contribution") != 0
            if num_hess:
                H = sp.mat("model_->numerical_hessian")
            else:
                h, hz, hzu = sp.mat("work_->tmp_nunx_nunx"), sp.mat("work_->tmp_nz_nz"), sp.mat("work_->tmp_nz_nunx")
                Hzz = lambda l, m: apply(fn, 3, hz(l, m), a(m))
                Hzu = lambda l, q: apply(fn, 4, hzu(l, q), a(q))
                H = lambda r, q: apply(fn, 2, h(r, q), a(q))
                if zalg:
                    H0 = H
                    H = lambda r, q: (H0(r, q) + sp.sum(c.nz, lambda l: dz(r, l) * Hzu(l, q)) + sp.sum(c.nz, lambda l: dz(q, l) * Hzu(l, r))
                                      + sp.sum(c.nz, lambda l: dz(r, l) * sp.sum(c.nz, lambda m: Hzz(l, m) * dz(q, m))))
            sp.post("Hessian", "memory_->RSQrq[0].mat[r,c]", vars="r c", when=lambda r, q: [q >= 0, r >= q, r < c.nux], value=lambda r, q: z3.If(add, old(r, q), R(0)) + c.scal * H(r, q))
            sp.post("upper triangle (not used)", "memory_->RSQrq[0].mat[r,c]", vars="r c", when=lambda r, q: [r >= 0, q > r, q < c.nux], check=False)

        def gr(sp, A):
            c = Ls(sp, "external")
            pre(sp, c)
            sp.fresh_scratch("work_.tmp_nunxnz")
            a, dz = grad(sp, c, "ext_cost_fun_jac")
            sp.post("value of the cost (not scaled, without slacks)", "memory_->fun", value=lambda: apply("ext_cost_fun_jac", 0, sp.num("memory_->fun"), a(I(0))))

        def fu(sp, A):
            c = Ls(sp, "external")
            sp.fresh_scratch("work_.tmp_2ns")
            old = sp.num("memory_->fun")
            sp.post("cost value", "memory_->fun", value=lambda: c.scal * (apply("ext_cost_fun", 0, old, args2(sp, c)(I(0))) + c.slackfun()))
        kw = dict(casts=cast, nullp=nul, fix=fix, norm=norm2)
        cc.T(P + "update_qp_matrices", up, name=P + "update_qp_matrices" + nm, **kw)
        if not num_hess:
            cc.T(P + "compute_gradient", gr, name=P + "compute_gradient" + nm, **kw)
            if not zalg:
                cc.T(P + "compute_fun", fu, **kw)
    for zalg in (False, True):
        for nh in (False, True):
            variant(zalg, nh)

    def ini(sp, A):
        c = Ls(sp, "external")
        sp.post("slack Hessian", "memory_->Z[0].vec[k]", vars="k", when=lambda k: [k >= 0, k < 2 * c.ns], value=lambda k: c.scal * c.Z(k))
    cc.T(P + "initialize", ini, casts=cast, nullp=nul, norm=norm2)


def setters(chk):
    """model_set: every field is stored where the evaluation reads it, and what depends on it is marked as changed"""
    for m in ("ls", "nls", "conl", "external"):
        P = f"ocp_nlp_cost_{m}_"
        cc = CheckC(chk, [f"{DIR}ocp_nlp_cost_{m}.c"])
        cast = {(p,): P + p[:-1] for p in ("dims_", "model_")} | {("value_",): "double", ("config_",): "int"}

        def norm_(mem, sc, m=m):
            for f in ("nx", "nu", "nz", "ns") + (("ny",) if m != "external" else ()):
                mem.set(("dims_", "[]", f), (0,), min(6 if f == "ny" else 2, max(0, mem.current(("dims_", "[]", f), (0,)))))

        def fld(field, posts, m=m, cc=cc, P=P, fix=None):
            def f(sp, A):
                d = lambda n: sp.num(f"dims_->{n}")
                v = lambda k: sp.num("value_[k]", k=k)
                posts(sp, d, v)
            cc.T(P + "model_set", f, casts=cast, strs=dict(field=field), norm=norm_, name=f'{P}model_set("{field}")', K=40, fix=fix)

        def seg(arr, lo, n):
            def posts(sp, d, v):
                for i in range(2 if n == "both" else 1):
                    off = d("ns") if lo or i else I(0)
                    cnt = d("ny") if n == "ny" else d("ns")
                    sp.post(f"{arr} is stored" + (" (upper)" if i else ""), f"model_->{arr}.vec[k]", vars="k", when=lambda k: [k >= off, k < off + cnt], value=lambda k: v(k - off))
            return posts
        for a in ("Z", "z"):
            fld(a, seg(a, 0, "both"))
            fld(a + "l", seg(a, 0, "ns"))
            fld(a + "u", seg(a, 1, "ns"))

        def scaling(sp, d, v, m=m):
            sp.post("scaling is stored", "model_->scaling", value=lambda: v(I(0)))
            if m == "ls":
                sp.post("the stored Hessian is out of date", "model_->Cyt_or_scaling_changed", value=lambda: I(1))
        fld("scaling", scaling)
        if m != "external":
            for y in ("yref", "y_ref"):
                fld(y, seg("y_ref", 0, "ny"))
        else:
            def nh(sp, d, v):
                n = d("nx") + d("nu")
                sp.post("the Hessian is stored", "model_->numerical_hessian.mat[r,c]", vars="r c", when=lambda r, q: [r >= 0, r < n, q >= 0, q < n], value=lambda r, q: v(r + q * n))
            fld("ext_cost_num_hess", nh)
        if m in ("ls", "nls"):
            def W(sp, d, v):
                n = d("ny")
                sp.post("W is stored", "model_->W.mat[r,c]", vars="r c", when=lambda r, q: [r >= 0, r < n, q >= 0, q < n], value=lambda r, q: v(r + q * n))
                sp.post("its factor is out of date", "model_->W_changed", value=lambda: I(1))
                row = lambda i: sp.max(n, lambda j: z3.If(z3.And(z3.Not(i == j), z3.Not(v(i + j * n) == 0)), I(1), I(0)), init=I(0))
                off = sp.max(n, lambda i: z3.If(row(i) == 1, I(1), I(0)), init=I(0))
                sp.post("diagonal W detected", "model_->outer_hess_is_diag", value=lambda: z3.If(z3.And(n > 4, z3.Not(off == 1)), R(1), R(0)))

            def Wfix(mem, sc, rng):
                n = rng.choice([0, 1, 2, 5, 5, 6])
                mem.set(("dims_", "[]", "ny"), (0,), n)
                for k in range(n * n):
                    if k % (n + 1) and rng.random() < (0.97 if n > 4 else 0.5):
                        mem.set(("value_", "[]"), (k,), 0.0)
            fld("W", W, fix=Wfix)
        if m == "ls":
            def V(arr, rows, off, tran):
                def posts(sp, d, v):
                    n, o = rows(d), off(d)
                    sp.post(f"{arr} is stored", "model_->Cyt.mat[r,c]", vars="r c", when=lambda r, q: [r >= o, r < o + n, q >= 0, q < d("ny")], value=lambda r, q: v(q + (r - o) * d("ny")) if tran else v(r + q * n))
                    sp.post("the stored Hessian is out of date", "model_->Cyt_or_scaling_changed", value=lambda: I(1))
                return posts
            fld("Vx", V("Vx", lambda d: d("nx"), lambda d: d("nu"), True))
            fld("Vu", V("Vu", lambda d: d("nu"), lambda d: I(0), True))
            fld("Cyt", V("Cyt", lambda d: d("nx") + d("nu"), lambda d: I(0), False))

            def Vz(sp, d, v):
                sp.post("Vz is stored", "model_->Vz.mat[r,c]", vars="r c", when=lambda r, q: [r >= 0, r < d("ny"), q >= 0, q < d("nz")], value=lambda r, q: v(r + q * d("ny")))
            fld("Vz", Vz)


def main():
    chk = Check("C13", "vf/ccheck.py (weakest-precondition interpreter of clang's AST + z3 %s)" % z3.get_version_string(),
                trusted=["z3", "clang AST", "vf/csym.py interpreter", "contracts on BLASFEO in vf/contracts.py", "*_cast_workspace (layout of the workspace: property C01)"],
                assumptions=["double arithmetic is treated as real arithmetic", "distinct pointer fields of the structures do not alias", "W_chol is a Cholesky factor of W (BLASFEO's dpotrf is uninterpreted)"])
    ls(chk)
    nls(chk)
    conl(chk)
    external(chk)
    setters(chk)
    return chk.finish()

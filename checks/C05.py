"""C05: iterate and step vector operations."""
import z3
from vf.core import Check, TIER
from vf.ccheck import CheckC
from vf.cspec import *
from vf.csym import R, I, num, Ptr

FILES = ["acados/ocp_nlp/ocp_nlp_common.c", "acados/ocp_qp/ocp_qp_common.c", "acados/ocp_nlp/ocp_nlp_ddp.c"]


def main():
    chk = Check("C05", "vf/ccheck.py (weakest-precondition interpreter of clang's AST + z3 %s)" % z3.get_version_string(),
                trusted=["z3", "clang AST", "vf/csym.py interpreter", "contracts on BLASFEO in vf/contracts.py"],
                assumptions=["double arithmetic is treated as real arithmetic", "distinct pointer fields of the structures do not alias (except where a contract says so)",
                             "dimensions are nonnegative and nv = nx + nu + 2 ns", "OpenMP pragmas are read as sequential loops"])
    cc = CheckC(chk, FILES, axioms=nlp_axioms)
    T = cc.T

    cast = {("dims_",): "ocp_nlp_dims", ("out_",): "ocp_nlp_out", ("qp_out_",): "ocp_qp_out", ("mem_",): "ocp_nlp_memory", ("out_destination_",): "ocp_nlp_out"}

    def step(dst):
        def spec(sp, A):
            d = D(sp, "dims_")
            N, al, full = d.N, A["alpha"], A["full_step_dual"] != 0
            q = lambda f, i: sp.vec(f"qp_out_->{f}[i]", i=i)
            o = lambda f, i: sp.vec(f"out_->{f}[i]", i=i)
            dual = lambda f: lambda i, k: z3.If(full, q(f, i)(k), (1 - al) * o(f, i)(k) + al * q(f, i)(k))
            sp.post("primal variables take the step", f"{dst}->ux[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < d.nv(i)], value=lambda i, k: o("ux", i)(k) + al * q("ux", i)(k))
            sp.post("inequality multipliers", f"{dst}->lam[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < 2 * d.ni(i)], value=dual("lam"))
            sp.post("dynamics multipliers", f"{dst}->pi[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nx(i + 1)], value=dual("pi"))
            sp.post("algebraic variables", f"{dst}->z[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nz(i)],
                    value=lambda i, k: sp.vec("mem_->z_alg[i]", i=i)(k) + al * sp.sum(d.nu(i) + d.nx(i), lambda j: sp.mat("mem_->dzduxt[i]", i=i)(j, k) * q("ux", i)(j)))
        return spec
    nul = lambda k: k[0] in ("in_", "opts_", "work_", "solver_mem", "config_") or (k[0] == "mem_" and len(k) > 2 and k[2] not in ("z_alg", "dzduxt"))
    kw = dict(casts=cast, fix=setN("dims_"), norm=ndims("dims_"), nullp=nul)
    T("ocp_nlp_update_variables_sqp", step("out_destination_"), **kw)
    T("ocp_nlp_update_variables_sqp", step("out_"), alias={"out_destination_": "out_"}, name="ocp_nlp_update_variables_sqp (in place)", **kw)

    def dstep(sp, A):
        d = D(sp)
        N, al = d.N, A["alpha"]
        q = lambda f, i: sp.vec(f"step->{f}[i]", i=i)
        add = lambda f: lambda i, k: sp.vec(f"out->{f}[i]", i=i)(k) + al * q(f, i)(k)
        sp.post("primal", "out->ux[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < d.nv(i)], value=add("ux"))
        sp.post("lam", "out->lam[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < 2 * d.ni(i)], value=add("lam"))
        sp.post("pi", "out->pi[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nx(i + 1)], value=add("pi"))
        sp.post("z", "out->z[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nz(i)],
                value=lambda i, k: sp.vec("mem->z_alg[i]", i=i)(k) + al * sp.sum(d.nu(i) + d.nx(i), lambda j: sp.mat("mem->dzduxt[i]", i=i)(j, k) * q("ux", i)(j)))
    nul2 = lambda k: k[0] in ("in", "opts", "work", "config", "nlp_work") or (k[0] == "mem" and len(k) > 2 and k[2] not in ("z_alg", "dzduxt"))
    T("ocp_nlp_update_variables_sqp_delta_primal_dual", dstep, fix=setN(), norm=ndims("dims"), nullp=nul2)

    def conv(sp, A):
        d = D(sp)
        N = d.N
        sub = lambda f: lambda i, k: sp.vec(f"step->{f}[i]", i=i)(k) - sp.vec(f"out->{f}[i]", i=i)(k)
        sp.post("lam", "step->lam[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N, k >= 0, k < 2 * d.ni(i)], value=sub("lam"))
        sp.post("pi", "step->pi[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i < N, k >= 0, k < d.nx(i + 1)], value=sub("pi"))
    T("ocp_nlp_convert_primaldelta_absdual_step_to_delta_step", conv, fix=setN(), norm=ndims("dims"), nullp=nul2)

    def cp(sp, A):
        d = D(sp)
        N = d.N

        def c(f, cnt, last):
            sp.post(f, f"to->{f}[i].vec[k]", vars="i k", when=lambda i, k: [i >= 0, i <= N if last else i < N, k >= 0, k < cnt(i)], value=lambda i, k: sp.vec(f"from->{f}[i]", i=i)(k))
        c("ux", d.nv, True)
        c("z", d.nz, True)
        c("lam", lambda i: 2 * d.ni(i), True)
        c("pi", lambda i: d.nx(i + 1), False)
    T("copy_ocp_nlp_out", cp, fix=setN(), norm=ndims("dims"), nullp=nul2)

    # ---------------------------------------------------------------- steps as vectors
    def qni(d):
        return lambda i: d.nbu(i) + d.nbx(i) + d.ng(i) + d.ns(i)

    def qvec(x, z, f, reads):
        """z := f(reads...) on primal, multipliers and slacks of the QP solution"""
        def spec(sp, A):
            d = D(sp, f"{x}->dim")
            N, ni = d.N, qni(d)
            for fld, cnt, last in (("ux", lambda i: d.nx(i) + d.nu(i) + 2 * d.ns(i), True), ("lam", lambda i: 2 * ni(i), True), ("t", lambda i: 2 * ni(i), True), ("pi", lambda i: d.nx(i + 1), False)):
                sp.post(fld, f"{z}->{fld}[i].vec[k]", vars="i k", when=lambda i, k, cnt=cnt, last=last: [i >= 0, i <= N if last else i < N, k >= 0, k < cnt(i)],
                        value=lambda i, k, fld=fld: f(A, *[sp.vec(f"{r}->{fld}[i]", i=i)(k) for r in reads]))
        return spec
    xd = ("x", "[]", "dim", "*", "[]")
    qk = dict(fix=setN(path=xd), norm=qdims(xd), nullp=lambda k: "misc" in k or ("dim" in k and k[0] != "x"))
    T("ocp_qp_out_axpy", qvec("x", "z", lambda A, x, y: A["alpha"] * x + y, ["x", "y"]), **qk)
    T("ocp_qp_out_axpy", qvec("x", "y", lambda A, x, y: A["alpha"] * x + y, ["x", "y"]), alias={"z": "y"}, name="ocp_qp_out_axpy (in place)", **qk)
    T("ocp_qp_out_add", qvec("x", "y", lambda A, x, y: A["alpha"] * x + y, ["x", "y"]), **qk)
    T("ocp_qp_out_sc", qvec("x", "x", lambda A, x: A["alpha"] * x, ["x"]), **qk)
    T("ocp_qp_out_set_to_zero", qvec("x", "x", lambda A: R(0), []), **qk)

    def qdot(sp, A):
        d = D(sp, "x->dim")
        v = lambda r, f, i: sp.vec(f"{r}->{f}[i]", i=i)
        nbg = lambda i: d.nbu(i) + d.nbx(i) + d.ng(i)

        def stage(i):
            a, b = v("x", "lam", i), v("y", "lam", i)
            net = lambda w, k: w(k) - w(nbg(i) + k)
            return (sp.sum(d.nx(i) + d.nu(i) + 2 * d.ns(i), lambda k: v("x", "ux", i)(k) * v("y", "ux", i)(k))
                    + sp.sum(nbg(i), lambda k: net(a, k) * net(b, k))
                    + sp.sum(2 * d.ns(i), lambda k: a(2 * nbg(i) + k) * b(2 * nbg(i) + k)))
        sp.ret = sp.sum(d.N + 1, stage) + sp.sum(d.N, lambda i: sp.sum(d.nx(i + 1), lambda k: v("x", "pi", i)(k) * v("y", "pi", i)(k)))
        sp.fresh_scratch("work_tmp_2ni")
    T("ocp_qp_out_ddot", qdot, **qk)

    qd = ("qp_out", "[]", "dim", "*", "[]")
    qk2 = dict(fix=setN(path=qd), norm=qdims(qd), nullp=lambda k: "misc" in k)

    def pn(sp, A):
        d = D(sp, "qp_out->dim")
        sp.ret = sp.max(d.N + 1, lambda i: sp.max(d.nx(i) + d.nu(i) + 2 * d.ns(i), lambda k: absv(sp.vec("qp_out->ux[i]", i=i)(k))), R(0))
    T("ocp_qp_out_compute_primal_nrm_inf", pn, **qk2)

    def dn(sp, A):
        d = D(sp, "qp_out->dim")
        ni = qni(d)
        a = sp.max(d.N, lambda i: sp.max(d.nx(i + 1), lambda k: absv(sp.vec("qp_out->pi[i]", i=i)(k))), R(0))
        sp.ret = sp.max(d.N + 1, lambda i: sp.max(2 * ni(i), lambda k: absv(sp.vec("qp_out->lam[i]", i=i)(k))), a)
    T("ocp_qp_out_compute_dual_nrm_inf", dn, **qk2)
    return chk.finish(min_obligations=40)

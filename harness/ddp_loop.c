#include "acados/ocp_nlp/ocp_nlp_ddp.c"
#define SOLVER_DDP
#include "nlp_ghost.h"
static ocp_nlp_ddp_opts SO; static ocp_nlp_ddp_memory SM; static ocp_nlp_ddp_workspace SW;
static int g_trial, g_feas, ZERO_DIMS[1];
static double g_step;
static struct blasfeo_dvec UX[3], LAM[3];

// number of the current iteration = number of QPs solved before it
#define IT g_nqp

void blasfeo_daxpy(int n, double alpha, struct blasfeo_dvec *x, int xi, struct blasfeo_dvec *y, int yi, struct blasfeo_dvec *z, int zi)
{
    if (z != TMPOUT.ux) return;
    REQUIRE(alpha == 1.0 && x == QPOUT.ux && y == OUT.ux, "the forward simulation from an infeasible guess takes a full step");
    g_trial = g_nqp;
}
void blasfeo_dveccp(int n, struct blasfeo_dvec *x, int xi, struct blasfeo_dvec *y, int yi) { }
void blasfeo_daxpby(int n, double a, struct blasfeo_dvec *x, int xi, double b, struct blasfeo_dvec *y, int yi, struct blasfeo_dvec *z, int zi) { }
static int rule(void)
{
    int evaluated = IT < NO.max_iter || NO.eval_residual_at_max_iter;
    if (g_r0 != g_r0 || g_r1 != g_r1 || g_r2 != g_r2) return ACADOS_NAN_DETECTED;
    if (evaluated && g_r1 < NO.tol_eq && g_r0 < NO.tol_stat) return ACADOS_SUCCESS;
    if (evaluated && g_r1 < NO.tol_eq && NO.with_adaptive_levenberg_marquardt && g_cost < SO.tol_zero_res) return ACADOS_SUCCESS;
    if (IT > 0 && g_step < NO.tol_eq) return ACADOS_MINSTEP;
    if (IT >= NO.max_iter) return ACADOS_MAXITER;
    return -100;
}
static void rows_ok(void)
{
    REQUIRE(STAT[SM.stat_n * IT] == g_r0 || g_r0 != g_r0, "statistics: stationarity residual of iteration i in row i");
    REQUIRE(STAT[SM.stat_n * IT + 1] == g_r1 || g_r1 != g_r1, "statistics: equality residual of iteration i in row i");
    REQUIRE(STAT[SM.stat_n * IT + 2] == g_cost || g_cost != g_cost, "statistics: cost of iteration i in row i");
    if (NO.store_iterates) REQUIRE(g_stored_it == IT && g_stored_ver == v_out, "the current iterate is stored");
}
static void at_solve(void)
{
    REQUIRE(v_mat == v_out, "the QP matrices belong to the current iterate");
    REQUIRE(g_reg_rhs == 1, "the QP is regularized, once");
    REQUIRE(v_res == v_out && v_norm == v_out, "the residual of the current iterate is available");
    REQUIRE(IT < NO.max_iter, "at most max_iter QPs are solved");
    REQUIRE(rule() == -100, "a QP is only solved when no termination criterion is met");
    rows_ok();
    if (IT == 0)
    {
        REQUIRE(NO.warm_start_first_qp || g_warm == 0, "the first QP is not warm started unless requested");
        REQUIRE(!NO.warm_start_first_qp || g_warm == NO.qp_warm_start, "the first QP is warm started when requested");
        REQUIRE(((g_n_first & 2) != 0) == (NO.warm_start_first_qp && NO.warm_start_first_qp_from_nlp), "the first QP is initialized from the NLP iterate exactly when requested");
        REQUIRE((g_qp_init != 0) == (NO.warm_start_first_qp && NO.warm_start_first_qp_from_nlp), "the QP solver is told to use the initial guess");
    }
    else REQUIRE(g_warm == NO.qp_warm_start, "later QPs use the warm start option");
    g_trial = 0; g_feas |= !(g_r1 > NO.tol_eq);
}
static void step_checks(void)
{
    int i = g_nqp - 1;
    g_step = SM.step_norm;
    REQUIRE(g_step_norm_fresh, "the step norm that is checked belongs to the current step");
    REQUIRE(g_warm == NO.qp_warm_start, "the warm start option is restored after the first QP");
    if (i + 1 < SM.stat_m)
    {
        REQUIRE(STAT[SM.stat_n * (i + 1) + 4] == g_qp_status, "statistics: QP status of iteration i in row i+1");
        REQUIRE(STAT[SM.stat_n * (i + 1) + 5] == QPINFO.num_iter, "statistics: QP iterations of iteration i in row i+1");
    }
}
static void after_step(void)
{
    REQUIRE(g_feas, "globalization is only used once the dynamics are satisfied");
    step_checks();
}
void copy_ocp_nlp_out(ocp_nlp_dims *d, ocp_nlp_out *from, ocp_nlp_out *to)
{
    if (to == &OUT)
    {
        REQUIRE(from == &TMPOUT && g_trial == g_nqp && g_nqp > 0, "the new iterate is the forward simulation along the current QP solution");
        REQUIRE(v_qp == v_out && (g_qp_status == ACADOS_SUCCESS || g_qp_status == ACADOS_MAXITER), "no step is taken after a failed QP");
        REQUIRE(!g_feas, "globalization is only skipped for an infeasible initial guess");
        v_out++; g_feas = 1; step_checks();
        return;
    }
    REQUIRE(from == &OUT, "the stored iterate is the current iterate");
    REQUIRE(to == ITER[g_nqp], "iterate i is stored at index i");
    g_stored_it = g_nqp; g_stored_ver = v_out;
}
void harness(void)
{
    setup_common();
    CFG.step_update = ocp_nlp_ddp_compute_trial_iterate;
    DIMS.N = 0; DIMS.nx = DIMS.nu = DIMS.nz = DIMS.ni = DIMS.nv = ZERO_DIMS;
    OUT.ux = UX; TMPOUT.ux = UX + 1; QPOUT.ux = UX + 2; OUT.lam = LAM; TMPOUT.lam = LAM + 1; QPOUT.lam = LAM + 2;
    SO.nlp_opts = &NO; SO.tol_zero_res = nd_double();
    SM.nlp_mem = &NM; SM.stat_n = 7 + 4 * NO.ext_qp_res; SM.stat_m = NO.max_iter + 1; stat_rows(SM.stat_m, SM.stat_n, NO.max_iter); SM.stat = STAT;
    SM.alpha = nd_double(); SM.step_norm = nd_double();
    SW.nlp_work = &NW; g_scaled = 1;
#ifdef KKT
    ocp_nlp_ddp_eval_kkt_residual(&CFG, &DIMS, &NLPIN, &OUT, &SO, &SM, &SW);
    REQUIRE(v_res == v_out && v_vec == v_out && v_mat == v_out, "the residual of the given iterate is evaluated");
#ifdef VF_COVER
    COVER("residual evaluated");
#endif
    return;
#endif
    int ret = ocp_nlp_ddp(&CFG, &DIMS, &NLPIN, &OUT, &SO, &SM, &SW);
    REQUIRE(ret == NM.status, "the returned status is the stored status");
    REQUIRE(NM.iter >= 0 && NM.iter <= NO.max_iter, "the number of iterations is at most max_iter");
    REQUIRE(g_nqp == NM.iter || g_glob_failed, "nlp_iter is the number of QPs solved");
    if (g_nqp > 0) REQUIRE(g_warm == NO.qp_warm_start, "the warm start option is restored");
    if (g_glob_failed) REQUIRE(ret == ACADOS_QP_FAILURE, "a globalization failure is returned");
    else if (v_qp == v_out)
    {
        REQUIRE(g_qp_status != ACADOS_SUCCESS && g_qp_status != ACADOS_MAXITER && ret == ACADOS_QP_FAILURE, "a failed QP is reported as QP failure");
        if (NM.iter < SM.stat_m) REQUIRE(STAT[SM.stat_n * NM.iter + 4] == g_qp_status, "statistics: status of the failed QP");
    }
    else
    {
        REQUIRE(ret == rule(), "the status is that of the first termination criterion met");
        if (ret == ACADOS_SUCCESS)
        {
            REQUIRE(v_res == v_out && v_norm == v_out, "success is reported for the residual of the returned iterate");
            REQUIRE(g_r1 < NO.tol_eq, "success means the dynamics are satisfied");
        }
        if (NO.eval_residual_at_max_iter || NM.iter < NO.max_iter) { REQUIRE(v_res == v_out && v_norm == v_out, "the residual of the returned iterate is available"); rows_ok(); }
    }
#ifdef VF_COVER
    if (ret == ACADOS_SUCCESS && v_res == v_out) COVER("success is returned");
    if (ret == ACADOS_QP_FAILURE && !g_glob_failed) COVER("QP failure is returned");
    if (ret == ACADOS_MAXITER && NM.iter == NO.max_iter && g_nqp == NO.max_iter && NO.max_iter > 0) COVER("maximum iterations are reached");
    if (g_trial) COVER("forward simulation");
    if (g_glob_calls) COVER("globalized step");
#endif
}

#ifndef SOLVER_SQP
#define SOLVER_SQP
#endif
#include "acados/ocp_nlp/ocp_nlp_sqp.c"
#include "nlp_ghost.h"
static ocp_nlp_sqp_opts SO; static ocp_nlp_sqp_memory SM; static ocp_nlp_sqp_workspace SW;
static int g_jumped;
static double g_step;
static double g_tot, g_est; static int g_tot_known, g_est_known;   // time and estimate at the previous check

void copy_ocp_nlp_out(ocp_nlp_dims *d, ocp_nlp_out *from, ocp_nlp_out *to)
{
    REQUIRE(from == &OUT, "the stored iterate is the current iterate");
    REQUIRE(NM.iter >= 0 && to == ITER[NM.iter], "iterate i is stored at index i");
    g_stored_it = NM.iter; g_stored_ver = v_out;
}

// the documented termination rule, in its order of precedence; -100: continue
static int rule(int with_time)
{
    int i = NM.iter;
    if (g_r0 != g_r0 || g_r1 != g_r1 || g_r2 != g_r2 || g_r3 != g_r3) return ACADOS_NAN_DETECTED;
    if (!NO.eval_residual_at_max_iter && i >= NO.max_iter) return ACADOS_MAXITER;
    if (g_r0 < NO.tol_stat && g_r1 < NO.tol_eq && g_r2 < NO.tol_ineq && g_r3 < NO.tol_comp) return ACADOS_SUCCESS;
    if (NO.tol_min_step_norm > 0.0 && i > 0 && g_step < NO.tol_min_step_norm) return ACADOS_MINSTEP;
    if (g_cost <= NO.tol_unbounded) return ACADOS_UNBOUNDED;
    if (i >= NO.max_iter) return ACADOS_MAXITER;
    if (with_time && SO.timeout_max_time > 0 && SO.timeout_max_time <= TIM.time_tot + SM.timeout_estimated_per_iteration_time) return ACADOS_TIMEOUT;
    return -100;
}
static void status_ok(int ret)
{
    int r = rule(0);    // the time was taken before the check
    if (r != -100) REQUIRE(ret == r, "the status is that of the first termination criterion met");
    else REQUIRE(ret == ACADOS_TIMEOUT && SO.timeout_max_time > 0, "the solver stops early only when the time limit is reached");
}
static void rows_ok(void)
{
    int i = NM.iter;
    REQUIRE(STAT[SM.stat_n * i] == g_r0 || g_r0 != g_r0, "statistics: stationarity residual of iteration i in row i");
    REQUIRE(STAT[SM.stat_n * i + 1] == g_r1 || g_r1 != g_r1, "statistics: equality residual of iteration i in row i");
    REQUIRE(STAT[SM.stat_n * i + 2] == g_r2 || g_r2 != g_r2, "statistics: inequality residual of iteration i in row i");
    REQUIRE(STAT[SM.stat_n * i + 3] == g_r3 || g_r3 != g_r3, "statistics: complementarity residual of iteration i in row i");
    if (g_alpha_known && i > 0) REQUIRE(STAT[SM.stat_n * i + 6] == g_alpha || g_alpha != g_alpha, "statistics: size of the step to iterate i in row i");
    if (NO.store_iterates && (i < NO.max_iter || NO.eval_residual_at_max_iter)) REQUIRE(g_stored_it == i && g_stored_ver == v_out, "the current iterate is stored");
}
static void est_ok(void)
{
    if (!(SO.timeout_max_time > 0)) return;
    double est = SM.timeout_estimated_per_iteration_time;
    if (SO.timeout_heuristic == ZERO) REQUIRE(est == 0.0, "timeout heuristic ZERO predicts 0");
    if (SO.timeout_heuristic != MAX_OVERALL && NM.iter == 0) REQUIRE(est == 0.0, "no per-iteration time is predicted before the first iteration is finished");
#ifdef EST     // covers every iteration (the time and the estimate at the previous check are known)
    if (g_tot_known && NM.iter > 0)
    {
        double last = TIM.time_tot - g_tot;
        if (SO.timeout_heuristic == LAST) REQUIRE(est == last, "timeout heuristic LAST predicts the time of the previous iteration");
        if (SO.timeout_heuristic == AVERAGE && NM.iter == 1) REQUIRE(est == last, "timeout heuristic AVERAGE starts with the time of the first iteration");
        if (SO.timeout_heuristic == MAX_CALL || SO.timeout_heuristic == MAX_OVERALL) REQUIRE(est == (last > g_est ? last : g_est), "timeout heuristics MAX_* predict the longest iteration");
    }
#endif
    g_tot = TIM.time_tot; g_est = est; g_tot_known = 1;
}
static void at_solve(void)
{
    REQUIRE(v_mat == v_out, "the QP matrices belong to the current iterate");
    REQUIRE(g_scaled == 1, "the QP is scaled exactly once");
    REQUIRE(g_reg_rhs == 1 && g_seq_scaled < g_seq_reg, "the scaled QP is regularized, once");
    REQUIRE(v_res == v_out && v_norm == v_out, "the residual of the current iterate is available");
    REQUIRE(g_glob_init == 1 || g_jumped, "globalization memory is initialized once, before the first step");
    REQUIRE(NM.iter < NO.max_iter, "at most max_iter QPs are solved");
    REQUIRE(rule(1) == -100, "a QP is only solved when no termination criterion is met");
    rows_ok(); est_ok();
    if (NM.iter == 0)
    {
        REQUIRE(NO.warm_start_first_qp || g_warm == 0, "the first QP is not warm started unless requested");
        REQUIRE(!NO.warm_start_first_qp || g_warm == NO.qp_warm_start, "the first QP is warm started when requested");
        REQUIRE(((g_n_first & 2) != 0) == (NO.warm_start_first_qp && NO.warm_start_first_qp_from_nlp), "the first QP is initialized from the NLP iterate exactly when requested");
        REQUIRE((g_qp_init != 0) == (NO.warm_start_first_qp && NO.warm_start_first_qp_from_nlp), "the QP solver is told to use the initial guess");
    }
    else REQUIRE(g_warm == NO.qp_warm_start, "later QPs use the warm start option");
}
static int g_pre_iter;
static void havoc_iterate(void)
{
    RES.inf_norm_res_stat = g_r0 = nd_double(); RES.inf_norm_res_eq = g_r1 = nd_double(); RES.inf_norm_res_ineq = g_r2 = nd_double(); RES.inf_norm_res_comp = g_r3 = nd_double();
    NM.cost_value = g_cost = nd_double();
}
static void after_step(void)
{
    int i = NM.iter;
    g_step = SM.step_norm;
    REQUIRE(!(NO.tol_min_step_norm > 0) || g_step_norm_fresh, "the step norm that is checked belongs to the current step");
    REQUIRE(g_warm == NO.qp_warm_start, "the warm start option is restored after the first QP");
    if (i + 1 < SM.stat_m)
    {
        REQUIRE(STAT[SM.stat_n * (i + 1) + 4] == g_qp_status, "statistics: QP status of iteration i in row i+1");
        REQUIRE(STAT[SM.stat_n * (i + 1) + 5] == QPINFO.num_iter, "statistics: QP iterations of iteration i in row i+1");
    }
    if (NO.log_primal_step_norm) REQUIRE(PSN[i] == SM.step_norm || SM.step_norm != SM.step_norm, "primal step norm of iteration i is logged at i");
#ifdef JUMP
    if (!g_jumped)
    {   // continue from an arbitrary later iteration: any memory state satisfying the loop invariant
        g_jumped = 1;
        NM.iter = nd_int();
        ASSUME(NM.iter >= i && NM.iter < NO.max_iter);
        NM.status = nd_int(); SM.timeout_estimated_per_iteration_time = nd_time();
        if (SO.timeout_heuristic == ZERO) ASSUME(SM.timeout_estimated_per_iteration_time == 0.0);
        g_nqp = NM.iter + 1; ASSUME(SM.timeout_estimated_per_iteration_time >= 0.0); g_est = SM.timeout_estimated_per_iteration_time;
    }
    else { REQUIRE(g_nqp == NM.iter + 1, "one QP is solved per iteration"); ASSUME(0); }    // invariant re-established: end of the inductive step
#endif
}
void harness(void)
{
    setup_common();
    SO.nlp_opts = &NO; SO.log_primal_step_norm = nd_range(0, 1); SO.timeout_max_time = nd_double(); ASSUME(SO.timeout_max_time == SO.timeout_max_time);
    SO.timeout_heuristic = nd_range(0, 4);
    SM.nlp_mem = &NM; SM.stat_n = 7 + 4 * NO.ext_qp_res; SM.stat_m = NO.max_iter + 1; stat_rows(SM.stat_m, SM.stat_n, NO.max_iter); SM.stat = STAT;
    SM.alpha = nd_double(); SM.step_norm = nd_double(); SM.timeout_estimated_per_iteration_time = nd_time(); ASSUME(SM.timeout_estimated_per_iteration_time >= 0.0 && (SM.timeout_estimated_per_iteration_time == 0.0 || SO.timeout_heuristic != ZERO));
    SW.nlp_work = &NW;
#ifdef KKT
    ocp_nlp_sqp_eval_kkt_residual(&CFG, &DIMS, &NLPIN, &OUT, &SO, &SM, &SW);
    REQUIRE(v_res == v_out && v_vec == v_out && v_mat == v_out, "the residual of the given iterate is evaluated");
#ifdef VF_COVER
    COVER("residual evaluated");
#endif
    return;
#endif
    int ret = ocp_nlp_sqp(&CFG, &DIMS, &NLPIN, &OUT, &SO, &SM, &SW);
    REQUIRE(ret == NM.status, "the returned status is the stored status");
    REQUIRE(NM.iter >= 0 && NM.iter <= NO.max_iter, "the number of iterations is at most max_iter");
    REQUIRE(g_nqp == NM.iter || g_glob_failed, "nlp_iter is the number of QPs solved");
    if (g_nqp > 0) REQUIRE(g_warm == NO.qp_warm_start, "the warm start option is restored");
    if (g_glob_failed) REQUIRE(ret == g_last_glob, "a globalization failure is returned");
    else if (v_qp == v_out)
    {
        REQUIRE(g_qp_status != ACADOS_SUCCESS && g_qp_status != ACADOS_MAXITER && ret == ACADOS_QP_FAILURE, "a failed QP is reported as QP failure");
        if (NM.iter < SM.stat_m) REQUIRE(STAT[SM.stat_n * NM.iter + 4] == g_qp_status, "statistics: status of the failed QP");
    }
    else
    {
        status_ok(ret);
        if (ret == ACADOS_SUCCESS)
        {
            REQUIRE(v_res == v_out && v_norm == v_out, "success is reported for the residual of the returned iterate");
            REQUIRE(g_r0 < NO.tol_stat && g_r1 < NO.tol_eq && g_r2 < NO.tol_ineq && g_r3 < NO.tol_comp, "success means all residuals are below their tolerances");
        }
        if (NO.eval_residual_at_max_iter || NM.iter < NO.max_iter) { REQUIRE(v_res == v_out && v_norm == v_out, "the residual of the returned iterate is available"); rows_ok(); }
    }
#ifdef VF_COVER
    if (ret == ACADOS_SUCCESS && v_res == v_out) COVER("success is returned");
    if (ret == ACADOS_QP_FAILURE) COVER("QP failure is returned");
    if (ret == ACADOS_MAXITER && NM.iter == NO.max_iter && g_nqp == NO.max_iter && NO.max_iter > 0) COVER("maximum iterations are reached");
    if (ret == ACADOS_TIMEOUT) COVER("timeout");
#endif
}

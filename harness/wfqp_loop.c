#include "acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c"
static ocp_nlp_sqp_wfqp_opts SO; static ocp_nlp_sqp_wfqp_memory SM; static ocp_nlp_sqp_wfqp_workspace SW;
#define SOLVER_WFQP
static ocp_qp_in RQP; static ocp_qp_out RQO; static qp_info RINFO;
#define SOLVER_RELAXED_QP (&RQP)
#define SOLVER_RELAXED_OUT (&RQO)
static int g_addhess, g_cost_ptr, g_con_ptr, g_hess_con, g_hess_cost;
#include "nlp_ghost.h"
static int g_jumped, g_mode, g_wd, g_zero_grad;
static double g_step, g_prev_alpha;
static ocp_qp_in RSQP, SQP_IN; static ocp_qp_out RSQO, SQP_OUT; static ocp_qp_dims QDIM;
static int Z0[1], Z1[1], *ZP[1], HF[1], XD1, XD2, RSM, NSM; static ocp_nlp_cost_config CC; static ocp_nlp_constraints_config CO; static ocp_nlp_cost_config *CCP[1]; static ocp_nlp_constraints_config *COP[1];
static struct blasfeo_dmat M_COST[1], M_CON[1], M_HESS[1], M_RHESS[1], M_DC[1]; static struct blasfeo_dvec V[12];
static void *PTR[1];
static int g_rscaled, g_rvec, g_rvec_scaled;
static int g_ev[4], g_evs[4], g_evi[4], g_nev;     // QPs solved in this iteration: 1 nominal, 2 feasibility

static void co_opts_set(void *c, void *o, const char *f, void *v) { if (!strcmp(f, "add_hess_contribution")) g_addhess = *(int *) v; }
static void co_set_ptr(struct blasfeo_dmat *m, void *mem) { g_cost_ptr = m == M_COST; }
static void cn_set_ptr(struct blasfeo_dmat *m, void *mem) { g_con_ptr = m == M_CON; }
double ocp_nlp_compute_dual_pi_norm_inf(ocp_nlp_dims *d, ocp_nlp_out *o) { REQUIRE(o == &OUT, "norm of the multipliers of the current iterate"); return nd_double(); }
double ocp_nlp_compute_dual_lam_norm_inf(ocp_nlp_dims *d, ocp_nlp_out *o) { REQUIRE(o == &OUT, "norm of the multipliers of the current iterate"); return nd_double(); }
void copy_ocp_nlp_out(ocp_nlp_dims *d, ocp_nlp_out *from, ocp_nlp_out *to)
{
    REQUIRE(from == &OUT, "the stored iterate is the current iterate");
    REQUIRE(NM.iter >= 0 && to == ITER[NM.iter], "iterate i is stored at index i");
    g_stored_it = NM.iter; g_stored_ver = v_out;
}
static int rule(int with_time)
{
    int i = NM.iter;
    if (g_r0 != g_r0 || g_r1 != g_r1 || g_r2 != g_r2 || g_r3 != g_r3) return ACADOS_NAN_DETECTED;
    if (!NO.eval_residual_at_max_iter && i >= NO.max_iter) return ACADOS_MAXITER;
    if (g_r0 < NO.tol_stat && g_r1 < NO.tol_eq && g_r2 < NO.tol_ineq && g_r3 < NO.tol_comp) return ACADOS_SUCCESS;
    if (NO.tol_min_step_norm > 0.0 && i > 0 && g_step < NO.tol_min_step_norm) return ACADOS_MINSTEP;
    if (g_cost <= NO.tol_unbounded) return ACADOS_UNBOUNDED;
    if (i >= NO.max_iter) return ACADOS_MAXITER;
    if (with_time && SO.timeout_max_time > 0 && SO.timeout_max_time <= TIM.time_tot + SM.timeout_estimated_per_iteration_time) return ACADOS_TIMEOUT;
    return -100;
}
static void rows_ok(void)
{
    int i = NM.iter;
    REQUIRE(STAT[SM.stat_n * i] == g_r0 || g_r0 != g_r0, "statistics: stationarity residual of iteration i in row i");
    REQUIRE(STAT[SM.stat_n * i + 1] == g_r1 || g_r1 != g_r1, "statistics: equality residual of iteration i in row i");
    REQUIRE(STAT[SM.stat_n * i + 2] == g_r2 || g_r2 != g_r2, "statistics: inequality residual of iteration i in row i");
    REQUIRE(STAT[SM.stat_n * i + 3] == g_r3 || g_r3 != g_r3, "statistics: complementarity residual of iteration i in row i");
    if (g_alpha_known && i > 0) REQUIRE(STAT[SM.stat_n * i + 10] == g_alpha || g_alpha != g_alpha, "statistics: size of the step to iterate i in row i");
    if (NO.store_iterates && (i < NO.max_iter || NO.eval_residual_at_max_iter)) REQUIRE(g_stored_it == i && g_stored_ver == v_out, "the current iterate is stored");
}
static int g_ver_ev;
static void new_event(int kind)
{
    if (g_ver_ev != v_out) { g_nev = 0; g_ver_ev = v_out; }
    REQUIRE(NM.iter < NO.max_iter, "at most max_iter iterations solve QPs");
    REQUIRE(rule(g_nev == 0) == -100, "a QP is only solved when no termination criterion is met");
    REQUIRE(v_mat == v_out && v_vec == v_out, "the QPs belong to the current iterate");
    REQUIRE(g_scaled == 1 && g_rscaled == v_out, "both QPs are scaled exactly once");
    REQUIRE(g_rvec == v_out && g_rvec_scaled == v_out, "the constraint vectors of the feasibility QP belong to the current iterate");
    REQUIRE(v_res == v_out && v_norm == v_out, "the residual of the current iterate is available");
    REQUIRE(g_glob_init == 1 || g_jumped, "globalization memory is initialized once, before the first step");
    rows_ok();
    if (NM.iter == 0)
    {
        REQUIRE(NO.warm_start_first_qp || g_warm == 0, "the first QP is not warm started unless requested");
        REQUIRE(!NO.warm_start_first_qp || g_warm == NO.qp_warm_start, "the first QP is warm started when requested");
    }
    else REQUIRE(g_warm == NO.qp_warm_start, "later QPs use the warm start option");
    REQUIRE(g_nev == 0 || g_evs[g_nev - 1] == ACADOS_SUCCESS || g_ev[g_nev - 1] == 1, "no QP is solved after a failed feasibility QP");
    REQUIRE(g_nev < 3, "at most three QPs per iteration");
    REQUIRE(g_nev == 0 || g_ev[g_nev - 1] != kind, "nominal and feasibility QPs alternate");
    if (g_nev == 2) REQUIRE(g_ev[0] == 1, "after a nominal QP with relaxed bounds no further QP is solved");
    if (g_nev == 1 && g_ev[0] == 1) REQUIRE(g_evs[0] != ACADOS_SUCCESS, "the feasibility QP is only solved after the nominal QP failed");
    if (g_nev == 0) REQUIRE(kind == (g_mode == NOMINAL_QP ? 1 : 2), "the first QP of an iteration is the one of the current search direction mode");
    g_ev[g_nev] = kind;
}
static void at_solve(void) { new_event(1); }
static int nominal(void)
{
    int s = qp_solved(0);
    g_evs[g_nev] = s; g_evi[g_nev] = QPINFO.num_iter; g_nev++;
    return s;
}
static int feasibility(void)
{
    new_event(2);
    RINFO.num_iter = nd_int();
    g_evs[g_nev] = nd_int(); g_evi[g_nev] = RINFO.num_iter; g_nev++;
    return g_evs[g_nev - 1];
}
static void after_step(void)
{
    int i = NM.iter;
    g_step = SM.step_norm;
    REQUIRE(!(NO.tol_min_step_norm > 0) || g_step_norm_fresh, "the step norm that is checked belongs to the current step");
    REQUIRE(g_warm == NO.qp_warm_start, "the warm start option is restored after the first QP");
    REQUIRE(g_ver_ev == v_out - 1 && g_nev > 0 && g_ev[g_nev - 1] == 1 && g_evs[g_nev - 1] == ACADOS_SUCCESS, "the step is the solution of a nominal QP that was solved successfully");
    double *row = STAT + SM.stat_n * i;
    if (g_nev > 1)
    {   // no constraints here, the slacks are zero
        g_mode = BYRD_OMOJOKUN; g_wd++;
        if (SO.allow_direction_mode_switch_to_nominal && g_wd == SO.watchdog_zero_slacks_max) { g_wd = 0; g_mode = NOMINAL_QP; }
    }
    if (g_nev == 1) REQUIRE(row[4] == ACADOS_SUCCESS && row[5] == g_evi[0], "statistics: nominal QP");
    else
    {
        int k = g_nev - 2;
        REQUIRE(g_ev[k] == 2, "with relaxed bounds, the feasibility QP is solved first");
        REQUIRE(row[6] == ACADOS_SUCCESS && row[7] == g_evi[k], "statistics: feasibility QP");
        REQUIRE(row[8] == ACADOS_SUCCESS && row[9] == g_evi[k + 1], "statistics: nominal QP with relaxed bounds");
        if (k == 1) REQUIRE(row[4] != ACADOS_SUCCESS && row[5] == g_evi[0], "statistics: failed nominal QP");
    }
    if (NO.log_primal_step_norm) REQUIRE(PSN[i] == SM.step_norm || SM.step_norm != SM.step_norm, "primal step norm of iteration i is logged at i");
#ifdef JUMP
    if (!g_jumped)
    {
        g_jumped = 1;
        NM.iter = nd_int();
        ASSUME(NM.iter >= i && NM.iter < NO.max_iter);
        NM.status = nd_int(); SM.timeout_estimated_per_iteration_time = nd_double();
        g_wd = SM.watchdog_zero_slacks_counter = nd_range(0, 100000); g_mode = SM.search_direction_mode = nd_bool() ? BYRD_OMOJOKUN : NOMINAL_QP;
    }
    else ASSUME(0);
#endif
}
int ocp_nlp_solve_qp(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w, ocp_qp_in *qi, ocp_qp_out *qo, ocp_qp_xcond_solver *x)
{
    if (x == &SM.relaxed_qp_solver) { REQUIRE(qi == &RSQP && qo == &RSQO, "the feasibility QP solver solves the scaled feasibility QP"); return feasibility(); }
    return nominal();
}
int wf_solve(ocp_qp_xcond_solver *x, ocp_qp_in *si, ocp_qp_in *qi, ocp_qp_out *so, ocp_qp_out *qo)
{
    if (x == &SM.relaxed_qp_solver) { REQUIRE(qi == &RQP && si == &RSQP && so == &RSQO && qo == &RQO, "the feasibility QP solver solves the feasibility QP"); return feasibility(); }
    REQUIRE(qi == 0 || qi == &QPIN, "the nominal QP is solved");
    return nominal();
}
int ocp_nlp_solve_qp_and_correct_dual(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w, bool precondensed, ocp_qp_in *si, ocp_qp_in *qi, ocp_qp_out *so, ocp_qp_out *qo, ocp_qp_xcond_solver *x)
{ return wf_solve(x, si, qi, so, qo); }
void ocp_nlp_qpscaling_rescale_solution(ocp_nlp_qpscaling_dims *d, void *o, void *m, ocp_qp_in *qi, ocp_qp_out *qo)
{ REQUIRE(qi == &RQP && qo == &RQO && (int *) m == &RSM && g_nev > 0 && g_ev[g_nev - 1] == 2, "the solution of the feasibility QP is scaled back"); }
void ocp_nlp_qpscaling_scale_qp(ocp_nlp_qpscaling_dims *d, void *o, void *m, ocp_qp_in *qp)
{
    if (qp == &RQP) { REQUIRE((void *) d == &XD2 && (int *) m == &RSM && g_rvec == v_out, "the feasibility QP is scaled with its own dimensions and memory"); REQUIRE(g_rscaled != v_out, "the feasibility QP is scaled once"); g_rscaled = v_out; return; }
    REQUIRE(qp == &QPIN && (void *) d == &XD1 && (int *) m == &NSM, "the nominal QP is scaled with its own dimensions and memory");
    g_scaled++; g_seq_scaled = ++g_seq;
}
// copying the bounds of the QP into the feasibility QP
void blasfeo_dveccp(int n, struct blasfeo_dvec *x, int xi, struct blasfeo_dvec *y, int yi)
{
    if (y == RQP.d && x == QPIN.d) { REQUIRE(v_vec == v_out, "bounds of the feasibility QP are those of the current QP"); g_rvec = v_out; }
    if (y == RSQP.d && x == SQP_IN.d) { REQUIRE(v_vec == v_out && g_scaled == 1, "scaled bounds of the feasibility QP are those of the scaled QP"); g_rvec_scaled = v_out; }
}
void blasfeo_dgecp(int m, int n, struct blasfeo_dmat *a, int ai, int aj, struct blasfeo_dmat *b, int bi, int bj)
{ if (b == M_HESS) { REQUIRE(a == M_CON && v_mat == v_out && !g_lm && !g_scaled && !g_reg_lhs, "Hessian of the QP: constraint part of the current linearization"); g_hess_con = v_out; g_hess_cost = 0; } }
void blasfeo_dgead(int m, int n, double alpha, struct blasfeo_dmat *a, int ai, int aj, struct blasfeo_dmat *b, int bi, int bj)
{ if (b == M_HESS) { REQUIRE(a == M_COST && alpha == 1.0 && v_mat == v_out && g_hess_con == v_out && !g_hess_cost && !g_lm, "Hessian of the QP: cost part is added once"); g_hess_cost = v_out; } }
void blasfeo_dvecse(int n, double a, struct blasfeo_dvec *x, int xi) { }
void blasfeo_dgese(int m, int n, double a, struct blasfeo_dmat *x, int ai, int aj) { }
void blasfeo_ddiare(int n, double a, struct blasfeo_dmat *x, int ai, int aj) { }
void blasfeo_dveccpsc(int n, double a, struct blasfeo_dvec *x, int xi, struct blasfeo_dvec *y, int yi) { }
void blasfeo_dgemv_t(int m, int n, double alpha, struct blasfeo_dmat *A, int ai, int aj, struct blasfeo_dvec *x, int xi, double beta, struct blasfeo_dvec *y, int yi, struct blasfeo_dvec *z, int zi) { }
void harness(void)
{
    setup_common();
    NO.ext_qp_res = 0;
    DIMS.N = 0; DIMS.nx = DIMS.nu = DIMS.nz = DIMS.ni = DIMS.nv = DIMS.ns = DIMS.nb = DIMS.ng = DIMS.ni_nl = Z0;
    DIMS.qpscaling = (void *) &XD1; DIMS.relaxed_qpscaling = (void *) &XD2; SM.relaxed_qpscaling_mem = &RSM; NM.qpscaling = (void *) &NSM;
    CC.opts_set = co_opts_set; CC.memory_set_RSQrq_ptr = co_set_ptr; CO.memory_set_RSQrq_ptr = cn_set_ptr; CCP[0] = &CC; COP[0] = &CO; CFG.cost = (void *) CCP; CFG.constraints = (void *) COP;
    NM.compute_hess = 1; NM.cost = PTR; NM.constraints = PTR; NO.cost = PTR; g_addhess = nd_range(0, 1);
    ZP[0] = Z1;
    NM.scaled_qp_in = &SQP_IN; NM.scaled_qp_out = &SQP_OUT;
    QDIM.nb = Z0; QDIM.ng = Z0; QDIM.ns = Z0; QPIN.dim = RQP.dim = RSQP.dim = SQP_IN.dim = &QDIM;
    QPIN.d = V; RQP.d = V + 1; RSQP.d = V + 2; SQP_IN.d = V + 3; QPIN.d_mask = V + 4; RQP.d_mask = V + 5; SQP_IN.d_mask = V + 6; RSQP.d_mask = V + 7;
    QPIN.RSQrq = M_HESS; RQP.RSQrq = M_RHESS; QPIN.Z = V + 8; RQP.Z = V + 9; RQP.rqz = V + 10; RQP.diag_H_flag = HF; QPIN.DCt = RQP.DCt = M_DC; RQO.ux = V + 11; QPOUT.ux = V + 11; RSQO.ux = V + 11;
    SO.nlp_opts = &NO; SO.timeout_max_time = nd_double(); ASSUME(SO.timeout_max_time == SO.timeout_max_time); SO.timeout_heuristic = nd_bool() ? ZERO : MAX_OVERALL;
    SO.log_pi_norm_inf = nd_bool(); SO.log_lam_norm_inf = nd_bool(); SO.use_constraint_hessian_in_feas_qp = nd_bool(); SO.use_QP_l1_inf_from_slacks = nd_bool();
    SO.search_direction_mode = nd_bool() ? BYRD_OMOJOKUN : NOMINAL_QP; SO.watchdog_zero_slacks_max = nd_range(0, 100000); SO.allow_direction_mode_switch_to_nominal = nd_bool(); SO.feasibility_qp_hessian_scalar = 1.0; SO.byrd_omojokon_slack_relaxation_factor = 1.0;
    SM.nlp_mem = &NM; SM.stat_n = 13; SM.stat_m = NO.max_iter + 1; stat_rows(SM.stat_m, SM.stat_n, NO.max_iter); SM.stat = STAT; SM.nns = Z0; SM.idxns = ZP; SM.Z_cost_module = V; SM.RSQ_cost = M_COST; SM.RSQ_constr = M_CON;
    SM.relaxed_qp_in = &RQP; SM.relaxed_qp_out = &RQO; SM.relaxed_scaled_qp_in = &RSQP; SM.relaxed_scaled_qp_out = &RSQO;
    SM.alpha = nd_double(); SM.step_norm = nd_double(); SM.timeout_estimated_per_iteration_time = nd_double();
    SM.search_direction_mode = nd_range(0, 2); SM.watchdog_zero_slacks_counter = nd_range(0, 100000); SM.l1_infeasibility = nd_double();
    SW.nlp_work = &NW; g_mode = SO.search_direction_mode; g_wd = 0;
#ifdef KKT
    ocp_nlp_sqp_wfqp_eval_kkt_residual(&CFG, &DIMS, &NLPIN, &OUT, &SO, &SM, &SW);
    REQUIRE(v_res == v_out && v_vec == v_out && v_mat == v_out, "the residual of the given iterate is evaluated");
#ifdef VF_COVER
    COVER("residual evaluated");
#endif
    return;
#endif
    int ret = ocp_nlp_sqp_wfqp(&CFG, &DIMS, &NLPIN, &OUT, &SO, &SM, &SW);
    REQUIRE(ret == NM.status, "the returned status is the stored status");
    REQUIRE(NM.iter >= 0 && NM.iter <= NO.max_iter, "the number of iterations is at most max_iter");
    if (g_nev > 0) REQUIRE(g_warm == NO.qp_warm_start, "the warm start option is restored");
    if (g_glob_failed) REQUIRE(ret == g_last_glob, "a globalization failure is returned");
    else if (g_nev > 0 && g_ver_ev == v_out)
        REQUIRE(g_evs[g_nev - 1] != ACADOS_SUCCESS && ret == ACADOS_QP_FAILURE && (g_nev == 3 || g_ev[g_nev - 1] == 2 || (g_nev == 2 && g_ev[0] == 2)), "a QP failure is reported when the fallback fails as well");
    else
    {
        int r = rule(0);
        if (r != -100) REQUIRE(ret == r, "the status is that of the first termination criterion met");
        else REQUIRE(ret == ACADOS_TIMEOUT && SO.timeout_max_time > 0, "the solver stops early only when the time limit is reached");
        if (ret == ACADOS_SUCCESS)
        {
            REQUIRE(v_res == v_out && v_norm == v_out, "success is reported for the residual of the returned iterate");
            REQUIRE(g_r0 < NO.tol_stat && g_r1 < NO.tol_eq && g_r2 < NO.tol_ineq && g_r3 < NO.tol_comp, "success means all residuals are below their tolerances");
        }
        if (NO.eval_residual_at_max_iter || NM.iter < NO.max_iter) { REQUIRE(v_res == v_out && v_norm == v_out, "the residual of the returned iterate is available"); rows_ok(); }
    }
#ifdef VF_COVER
    if (ret == ACADOS_SUCCESS && v_res == v_out) COVER("success is returned");
    if (ret == ACADOS_QP_FAILURE && !g_glob_failed) COVER("QP failure is returned");
    if (g_nev == 3 && g_ver_ev == v_out - 1) COVER("fallback step");
    if (ret == ACADOS_MAXITER && NM.iter == NO.max_iter && g_glob_calls == NO.max_iter && NO.max_iter > 0) COVER("maximum iterations are reached");
#endif
}

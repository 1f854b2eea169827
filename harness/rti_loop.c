#include "acados/ocp_nlp/ocp_nlp_sqp_rti.c"
#define SOLVER_RTI
#include "nlp_ghost.h"
static ocp_nlp_sqp_rti_opts SO; static ocp_nlp_sqp_rti_memory SM; static ocp_nlp_sqp_rti_workspace SW;
static int Z2[2], v_tmp, g_full, g_adv, g_adv_val, g_first, g_pre, g_x0_set; static ocp_qp_xcond_solver_config *QPSP;
static ocp_nlp_cost_config CC; static ocp_nlp_constraints_config CO; static ocp_nlp_dynamics_config DY;
static ocp_nlp_cost_config *CCP[2]; static ocp_nlp_constraints_config *COP[2]; static ocp_nlp_dynamics_config *DYP[2];
static struct blasfeo_dvec V[8], FUN[1], ADJ[1]; static void *PTR[2]; static double TMPX[2];

static void co_update(void *c, void *d, void *m, void *o, void *me, void *w) { g_full |= 1; }
static void co_grad(void *c, void *d, void *m, void *o, void *me, void *w) { g_full |= 2; }
static struct blasfeo_dvec *get_adj(void *m) { return ADJ; }
static struct blasfeo_dvec *get_fun(void *m) { return FUN; }
static void co_dims_get(void *c, void *d, const char *f, int *v) { *v = 0; }
static void qp_dims_get(void *c, void *d, int s, const char *f, int *v) { *v = 0; }
static void dy_fun(void *c, void *d, void *m, void *o, void *me, void *w) { g_adv_val = 1; }
void blasfeo_daxpy(int n, double alpha, struct blasfeo_dvec *x, int xi, struct blasfeo_dvec *y, int yi, struct blasfeo_dvec *z, int zi) { if (z == FUN) { REQUIRE(g_adv_val == 1 && alpha == 1.0 && x == OUT.ux + 1, "predicted state: defect plus next state"); g_adv_val = 2; } }
void blasfeo_unpack_dvec(int n, struct blasfeo_dvec *x, int xi, double *y, int s) { if (x == FUN) { REQUIRE(g_adv_val == 2, "predicted state"); g_adv_val = 3; } else if (x == OUT.ux + 1) g_adv_val = 4; }
void blasfeo_dveccp(int n, struct blasfeo_dvec *x, int xi, struct blasfeo_dvec *y, int yi) { }
void blasfeo_dvecse(int n, double a, struct blasfeo_dvec *x, int xi) { }
int ocp_nlp_constraints_model_set(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, int stage, const char *field, void *value)
{
    REQUIRE(stage == 0 && value == TMPX && g_adv_val >= 3, "the predicted state becomes the initial state of the advanced problem");
    g_x0_set |= !strcmp(field, "lbx") ? 1 : (!strcmp(field, "ubx") ? 2 : 4);
    return 0;
}
void ocp_nlp_zero_order_qp_update(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{ REQUIRE(out == &OUT && m == &NM && SO.as_rti_level == LEVEL_B, "zero-order update at the current iterate"); v_vec = v_out; g_reg_rhs = 0; g_full = 0; }
void ocp_nlp_level_c_update(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{ REQUIRE(out == &OUT && m == &NM && SO.as_rti_level == LEVEL_C, "level C update at the current iterate"); v_vec = v_out; g_reg_rhs = 0; g_full = 0; }
static void st_condense(void *c, void *d, void *qi, void *qo, void *o, void *m, void *w)
{
    REQUIRE(qi == &QPIN && v_mat == v_out, "the QP matrices of the current iterate are condensed");
    REQUIRE(g_lm && g_reg_lhs == 1, "the QP is regularized before it is condensed");
    g_cond = 1;
}
static void st_correct2(void *c, ocp_nlp_reg_dims *d, void *o, void *m) { REQUIRE(g_nqp > 0, "the dual solution is corrected after the QP is solved"); }
void copy_ocp_nlp_out(ocp_nlp_dims *d, ocp_nlp_out *from, ocp_nlp_out *to)
{
    REQUIRE(SO.as_rti_level == LEVEL_A, "the iterate is only backed up in level A");
    if (to == &OUT) { REQUIRE(from == &TMPOUT && !SM.is_first_call, "the iterate of the last linearization is loaded"); v_out = v_tmp; }
    else { REQUIRE(from == &OUT && to == &TMPOUT && v_mat == v_out && g_cond, "the iterate of the linearization is backed up"); v_tmp = v_out; }
}
static void at_solve(void)
{
    if (SO.as_rti_level == LEVEL_D || SO.as_rti_level == LEVEL_A || SO.rti_phase != PREPARATION) REQUIRE(v_mat == v_out, "the QP matrices belong to the current iterate");
    if (SO.rti_phase == FEEDBACK || (SO.rti_phase == PREPARATION && SO.as_rti_level != LEVEL_D)) REQUIRE(g_pre && g_cond, "the prepared, condensed matrices are used");
    else REQUIRE(!g_pre, "matrices that were not condensed since the last linearization are condensed in the solve");
    REQUIRE(g_reg_rhs == 1, "gradients are regularized once");
    if (SO.rti_phase != PREPARATION)
    {
        if (SM.is_first_call)
        {
            REQUIRE(NO.warm_start_first_qp || g_warm == 0, "the first QP is not warm started unless requested");
            REQUIRE(!NO.warm_start_first_qp || g_warm == NO.qp_warm_start, "the first QP is warm started when requested");
            REQUIRE(((g_n_first & 2) != 0) == (NO.warm_start_first_qp && NO.warm_start_first_qp_from_nlp), "the first QP is initialized from the NLP iterate exactly when requested");
            REQUIRE((g_qp_init != 0) == (NO.warm_start_first_qp && NO.warm_start_first_qp_from_nlp), "the QP solver is told to use the initial guess");
        }
        else REQUIRE(g_warm == NO.qp_warm_start && !g_qp_init, "later QPs use the warm start option");
    }
}
int ocp_nlp_solve_qp_and_correct_dual(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w, bool precondensed, ocp_qp_in *si, ocp_qp_in *qi, ocp_qp_out *so, ocp_qp_out *qo, ocp_qp_xcond_solver *x)
{ g_pre = precondensed; return qp_solved(precondensed); }
static void after_step(void)
{
    if (NM.iter < SM.stat_m)
    {
        REQUIRE(STAT[SM.stat_n * NM.iter] == g_qp_status, "statistics: QP status");
        REQUIRE(STAT[SM.stat_n * NM.iter + 1] == QPINFO.num_iter, "statistics: QP iterations");
    }
    g_full = 0;
}
void ocp_nlp_res_compute(ocp_nlp_dims *d, ocp_nlp_opts *o, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_res *r, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{
    REQUIRE(out == &OUT && r == &RES && m == &NM, "residual of the current iterate");
    REQUIRE(v_mat == v_out || g_full == 3, "the residual uses function values at the current iterate");
    g_r0 = RES.inf_norm_res_stat = nd_double(); g_r1 = RES.inf_norm_res_eq = nd_double(); g_r2 = RES.inf_norm_res_ineq = nd_double(); g_r3 = RES.inf_norm_res_comp = nd_double();
    v_res = v_out;
}
void harness(void)
{
    setup_common();
    REG.correct_dual_sol = st_correct2; QPS.condense_lhs = st_condense; QPS.dims_get = qp_dims_get;
    DIMS.N = 0; DIMS.nx = DIMS.nu = DIMS.nz = DIMS.ni = DIMS.nv = DIMS.ns = DIMS.nb = DIMS.ng = DIMS.ni_nl = Z2;
    CO.update_qp_matrices = co_update; CO.memory_get_adj_ptr = get_adj; CO.dims_get = co_dims_get; CC.compute_gradient = co_grad; CC.memory_get_grad_ptr = get_adj; DY.compute_fun = dy_fun; DY.memory_get_fun_ptr = get_fun; DY.memory_get_adj_ptr = get_adj;
    CCP[0] = &CC; COP[0] = &CO; DYP[0] = &DY; CFG.cost = CCP; CFG.constraints = COP; CFG.dynamics = DYP;
    DIMS.cost = DIMS.constraints = DIMS.dynamics = PTR; NLPIN.cost = NLPIN.constraints = NLPIN.dynamics = PTR; NO.cost = NO.constraints = NO.dynamics = PTR; NM.cost = NM.constraints = NM.dynamics = PTR; NW.cost = NW.constraints = NW.dynamics = PTR;
    OUT.ux = V; NM.ineq_adj = NM.cost_grad = NM.dyn_adj = V + 4; NW.tmp_nv_double = TMPX;
    NO.with_adaptive_levenberg_marquardt = 0; NO.with_anderson_acceleration = 0;
    SO.nlp_opts = &NO; SO.rti_phase = nd_range(PREPARATION_AND_FEEDBACK, FEEDBACK); SO.as_rti_level = nd_range(LEVEL_A, STANDARD_RTI); SO.as_rti_advancement_strategy = nd_range(SHIFT_ADVANCE, NO_ADVANCE);
    SO.as_rti_iter = nd_range(0, MAXIT); SO.rti_log_residuals = nd_range(0, 1); SO.rti_log_only_available_residuals = nd_range(0, 1);
    SM.nlp_mem = &NM; SM.stat_n = 2 + 4 * SO.rti_log_residuals + 4 * NO.ext_qp_res; SM.stat_m = 2 + SO.as_rti_iter; stat_rows(SM.stat_m, SM.stat_n, NO.max_iter); SM.stat = STAT; SM.is_first_call = nd_bool();
    SW.nlp_work = &NW; g_scaled = 0; needs_obj = needs_qp_obj = 0;
    ASSUME(NM.iter >= 0 && NM.iter < 1000000);
#ifdef KKT
    ocp_nlp_sqp_rti_eval_kkt_residual(&CFG, &DIMS, &NLPIN, &OUT, &SO, &SM, &SW);
    REQUIRE(v_res == v_out && v_vec == v_out && v_mat == v_out, "the residual of the given iterate is evaluated");
#ifdef VF_COVER
    COVER("residual evaluated");
#endif
    return;
#endif
    v_out = 3;
    if (SO.rti_phase == FEEDBACK) { v_mat = v_out; v_tmp = v_out; g_lm = g_reg_lhs = g_cond = 1; g_submod_init = 1; }      // prepared
    else if (!SM.is_first_call) { v_mat = v_tmp = 2; g_lm = g_reg_lhs = 1; g_cond = SO.rti_phase == PREPARATION; }  // last preparation
    ASSUME(SO.rti_phase != PREPARATION_AND_FEEDBACK || SO.as_rti_level == STANDARD_RTI);                            // the solver exits otherwise
    ASSUME(!(SO.rti_phase == PREPARATION && SO.as_rti_level == LEVEL_A && !SM.is_first_call) || v_tmp == v_mat);
    g_first = SM.is_first_call;
    int status0 = NM.status, v_before = v_out, iter0 = NM.iter;
    int ret = ocp_nlp_sqp_rti(&CFG, &DIMS, &NLPIN, &OUT, &SO, &SM, &SW);
    REQUIRE(ret == NM.status, "the returned status is the stored status");
    int failed = g_nqp > 0 && g_qp_status != ACADOS_SUCCESS && g_qp_status != ACADOS_MAXITER;
    if (failed) REQUIRE(ret == ACADOS_QP_FAILURE && v_qp == v_out, "a failed QP is reported and no step is taken");
    if (SO.rti_phase == PREPARATION)
    {
        int n = g_nqp, want = SO.as_rti_level == STANDARD_RTI ? 0 : SO.as_rti_level == LEVEL_A ? !g_first : SO.as_rti_level == LEVEL_D ? SO.as_rti_iter : (g_first ? 0 : SO.as_rti_iter);
        if (!failed)
        {
            REQUIRE(n == want && g_glob_calls == want, "number of advanced steps");
            REQUIRE(ret == status0, "a successful preparation leaves the status unchanged");
            REQUIRE(v_mat == v_out && g_lm && g_reg_lhs == 1 && g_cond, "after the preparation the regularized, condensed matrices of the current iterate are available");
            REQUIRE(SO.as_rti_level != LEVEL_A || v_tmp == v_out, "level A: the iterate of the linearization is backed up");
        }
        else REQUIRE(n <= want && n == g_glob_calls + 1, "the preparation stops at a failed QP");
        REQUIRE(SM.is_first_call == g_first, "the preparation does not end the first call");
        if (SO.as_rti_level != STANDARD_RTI && !g_first) REQUIRE(g_x0_set == (SO.as_rti_advancement_strategy == NO_ADVANCE ? 0 : 3) && (SO.as_rti_advancement_strategy != SIMULATE_ADVANCE || g_adv_val == 3) && (SO.as_rti_advancement_strategy != SHIFT_ADVANCE || g_adv_val == 4), "both bounds of the initial state are set to the predicted state");
        else REQUIRE(g_x0_set == 0, "the initial state is not changed");
    }
    else
    {
        REQUIRE(g_nqp == 1, "one QP is solved");
        REQUIRE(g_warm == NO.qp_warm_start, "the warm start option is restored");
        REQUIRE(NM.iter == (SO.rti_phase == FEEDBACK ? iter0 + 1 : 1), "the iteration counter is increased by the feedback");
        if (NM.iter < SM.stat_m) REQUIRE(STAT[SM.stat_n * NM.iter] == g_qp_status && STAT[SM.stat_n * NM.iter + 1] == QPINFO.num_iter, "statistics: QP status and iterations");
        if (!failed)
        {
            REQUIRE(v_out == v_before + 1 && g_glob_calls == 1, "one step is taken");
            REQUIRE(ret == ACADOS_SUCCESS && !SM.is_first_call, "success is returned");
        }
        else REQUIRE(SM.is_first_call == g_first, "a failed first QP does not end the first call");
        if (SO.rti_log_residuals && !SO.rti_log_only_available_residuals && !failed)
        {
            REQUIRE(v_res == v_out, "the logged residual is that of the returned iterate");
            double *row = STAT + SM.stat_n * NM.iter + 2 + 4 * NO.ext_qp_res;
            if (NM.iter < SM.stat_m) REQUIRE((row[0] == g_r0 || g_r0 != g_r0) && (row[1] == g_r1 || g_r1 != g_r1) && (row[2] == g_r2 || g_r2 != g_r2) && (row[3] == g_r3 || g_r3 != g_r3), "statistics: residuals");
        }
        else if (SO.rti_log_residuals) REQUIRE(v_res == v_before, "the logged residual is that of the linearization");
    }
#ifdef VF_COVER
    if (SO.rti_phase == FEEDBACK && !failed) COVER("feedback");
    if (SO.rti_phase == PREPARATION_AND_FEEDBACK && !failed) COVER("preparation and feedback");
    if (SO.rti_phase == PREPARATION && SO.as_rti_level == LEVEL_A && g_nqp == 1 && !failed) COVER("level A");
    if (SO.rti_phase == PREPARATION && SO.as_rti_level == LEVEL_B && g_nqp == MAXIT && !failed) COVER("level B");
    if (SO.rti_phase == PREPARATION && SO.as_rti_level == LEVEL_C && g_nqp == MAXIT && !failed) COVER("level C");
    if (SO.rti_phase == PREPARATION && SO.as_rti_level == LEVEL_D && g_nqp == MAXIT && !failed) COVER("level D");
    if (failed) COVER("failed QP");
#endif
}

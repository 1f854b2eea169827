// Contracts (ghost-state form) of the functions the NLP solver loops call.  Each stand-in asserts the
// callee's precondition, then leaves every location it assigns in an arbitrary state satisfying its
// postcondition.  Ghost counters record for which iterate each piece of data was computed.
#include "nd.h"
static int v_out = 1, v_mat, v_vec, v_res, v_cost, v_norm;      // iterate version; version of QP matrices, vectors, residuals, cost
static int g_lm, g_scaled, g_reg_lhs, g_reg_rhs, g_cond, g_seq, g_seq_scaled, g_seq_reg;
static int v_qp = 0, g_qp_status, g_nqp, g_qp_obj, g_step_norm_fresh, g_glob_init, g_nit, g_n_first;
static double g_r0, g_r1, g_r2, g_r3, g_cost, g_alpha, g_dd, g_qobjv, g_l1; static int g_alpha_known;
static int g_warm, g_qp_init, g_warm_at_solve;
static int g_last_glob, g_glob_calls, g_glob_failed, g_submod_init, g_time_bad;

static ocp_nlp_config CFG; static ocp_nlp_dims DIMS; static ocp_nlp_in NLPIN; static ocp_nlp_out OUT, TMPOUT;
static ocp_nlp_opts NO; static ocp_nlp_memory NM; static ocp_nlp_res RES; static ocp_nlp_timings TIM; static ocp_nlp_workspace NW;
static ocp_qp_in QPIN; static ocp_qp_out QPOUT; static qp_info QPINFO; static ocp_qp_xcond_solver_config QPS; static int QPOPTS;
static ocp_nlp_reg_config REG; static ocp_nlp_globalization_config GLOB; static int DUMMY;
#ifdef SOLVER_DDP
#define NEED_QP_OBJ 1
#else
#define NEED_QP_OBJ 3
#endif
#ifndef EXTQP
#define EXTQP 0
#endif
#ifndef MAXIT
#ifdef BIG
#define MAXIT 100000
#else
#define MAXIT 3
#endif
#endif
static int g_stored_it = -1, g_stored_ver;
#ifdef BIG      // arrays of the size the solver allocates, for any max_iter
static double *STAT, *PSN, *DSN; static ocp_nlp_out **ITER;
static void *array(int n, int size) { void *p = malloc((size_t) n * size); ASSUME(p != 0); return p; }
#else
#define ROWS 7
static double STAT[ROWS * 13], PSN[ROWS], DSN[ROWS]; static ocp_nlp_out ITERS[ROWS], *ITER[ROWS];
#endif
static int needs_obj, needs_qp_obj;

// --- timing, printing
void acados_tic(acados_timer *t) { }
#ifdef EST      // measured times: multiples of 0.25 up to 64
static double nd_time(void) { return 0.25 * nd_range(0, 255); }
double acados_toc(acados_timer *t) { return nd_time(); }
#else           // instantaneous calls; the time limit can still be exceeded by the estimate carried over from earlier calls
static double nd_time(void) { return nd_double(); }
double acados_toc(acados_timer *t) { return 0.0; }
#endif
void ocp_nlp_timings_reset(ocp_nlp_timings *t) { REQUIRE(t == &TIM, "timings reset on the solver's timings"); TIM.time_tot = 0; }
void ocp_nlp_common_print_iteration_header(void) { }
void ocp_nlp_common_print_iteration(int i, ocp_nlp_res *r) { }
void print_ocp_qp_dims(ocp_qp_dims *d) { }
void print_debug_output(char *m, int l, int e) { }
void print_ocp_qp_in(ocp_qp_in *q) { }
void print_ocp_qp_out(ocp_qp_out *q) { }
const char *status_to_string(return_values_t s) { return "status"; }
static void st_print_h() { }
static void st_print_it(double o, void *a, void *b) { }
void ocp_nlp_dump_qp_in_to_file(ocp_qp_in *q, int i, int j) { }
void ocp_nlp_dump_qp_out_to_file(ocp_qp_out *q, int i, int j) { }

// --- linearisation
void ocp_nlp_initialize_submodules(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{ REQUIRE(out == &OUT && m == &NM && o == &NO, "initialize_submodules: the solver's own data"); g_submod_init = 1; }
void ocp_nlp_approximate_qp_matrices(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{
    REQUIRE(g_submod_init, "submodules are initialized before the linearization");
    REQUIRE(out == &OUT && m == &NM && o == &NO, "linearization at the current iterate");
#if defined(SOLVER_WFQP) && !defined(KKT)
    REQUIRE(g_cost_ptr && g_con_ptr && !g_addhess, "the cost Hessian is evaluated separately from the constraint Hessian");
#endif
    v_mat = v_out; g_lm = g_scaled = g_reg_lhs = g_reg_rhs = g_cond = 0; v_vec = 0;
}
void ocp_nlp_approximate_qp_vectors_sqp(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{
    REQUIRE(out == &OUT && m == &NM && o == &NO, "QP vectors at the current iterate");
    REQUIRE(v_mat > 0, "QP vectors are updated after a linearization");
    v_vec = v_out; g_reg_rhs = 0;
}
void ocp_nlp_get_cost_value_from_submodules(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{ REQUIRE(v_mat == v_out, "the cost value is read after the linearization at the current iterate"); NM.cost_value = nd_double(); g_cost = NM.cost_value; v_cost = v_out; }
void ocp_nlp_add_levenberg_marquardt_term(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w, double alpha, int iter, ocp_qp_in *qp)
{
#ifdef SOLVER_WFQP
    if (qp == SOLVER_RELAXED_QP) { REQUIRE(v_mat == v_out, "the Levenberg-Marquardt term of the feasibility QP uses the current iterate"); return; }
    REQUIRE(g_hess_con == v_out && g_hess_cost == v_out, "the Hessian of the QP is set before the Levenberg-Marquardt term is added");
#endif
    REQUIRE(v_mat == v_out && !g_scaled && !g_reg_lhs && !g_cond, "the Levenberg-Marquardt term is added to the fresh Hessian, before scaling and regularization");
    REQUIRE(!g_lm, "the Levenberg-Marquardt term is added once per linearization");
    REQUIRE(qp == &QPIN, "the Levenberg-Marquardt term is added to the solver's QP");
    REQUIRE(!NO.with_adaptive_levenberg_marquardt || v_cost == v_out, "adaptive Levenberg-Marquardt needs the cost of the current iterate");
#ifndef SOLVER_RTI
    if (g_alpha_known) REQUIRE(alpha == g_alpha || alpha != alpha, "adaptive Levenberg-Marquardt uses the size of the last step");
#endif
    g_lm = 1;
}
#ifndef SOLVER_RTI
void ocp_nlp_res_compute(ocp_nlp_dims *d, ocp_nlp_opts *o, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_res *r, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{
    REQUIRE(out == &OUT && r == &RES && m == &NM, "residual of the current iterate");
    REQUIRE(v_mat == v_out, "the residual uses the linearization at the current iterate");
    g_r0 = RES.inf_norm_res_stat = nd_double(); g_r1 = RES.inf_norm_res_eq = nd_double(); g_r2 = RES.inf_norm_res_ineq = nd_double(); g_r3 = RES.inf_norm_res_comp = nd_double();
    v_res = v_out;
}
#endif
void ocp_nlp_res_get_inf_norm(ocp_nlp_res *r, double *p)
{ REQUIRE(r == &RES && v_res == v_out && p == &OUT.inf_norm_res, "reported residual norm is that of the current iterate"); OUT.inf_norm_res = nd_double(); v_norm = v_out; }

// --- QP
#ifndef SOLVER_WFQP
void ocp_nlp_qpscaling_scale_qp(ocp_nlp_qpscaling_dims *d, void *o, void *m, ocp_qp_in *qp)
{ REQUIRE(qp == &QPIN, "scaling of the solver's QP"); g_scaled++; g_seq_scaled = ++g_seq; }
#endif
static void st_reg(void *c, ocp_nlp_reg_dims *d, void *o, void *m) { g_reg_lhs++; g_reg_rhs++; g_seq_reg = ++g_seq; }
static void st_reg_lhs(void *c, ocp_nlp_reg_dims *d, void *o, void *m) { g_reg_lhs++; g_seq_reg = ++g_seq; }
static void st_reg_rhs(void *c, ocp_nlp_reg_dims *d, void *o, void *m) { REQUIRE(v_vec == v_out, "right-hand side regularization after the QP vectors are updated"); g_reg_rhs++; }
static void st_correct_dual(void *c, ocp_nlp_reg_dims *d, void *o, void *m) { REQUIRE(0, "the dual solution is corrected once per QP, by ocp_nlp_solve_qp_and_correct_dual"); }
static void st_qp_opts_set(void *c, void *o, const char *field, void *value)
{
    if (!strcmp(field, "warm_start")) g_warm = *(int *) value;
    else if (!strcmp(field, "initialize_next_xcond_qp_from_qp_out")) g_qp_init = *(int *) value;
}
void ocp_nlp_initialize_qp_from_nlp(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_qp_in *qi, ocp_nlp_out *out, ocp_qp_out *qo)
{
#ifdef SOLVER_WFQP
    if (qi == SOLVER_RELAXED_QP) { REQUIRE(out == &OUT && qo == SOLVER_RELAXED_OUT, "initial guess of the feasibility QP"); return; }
#endif
    REQUIRE(qi == &QPIN && out == &OUT && qo == &QPOUT, "QP initial guess from the current iterate"); g_n_first |= 2;
}
void ocp_qp_out_get(ocp_qp_out *q, int s, const char *field, void *value) { *(qp_info **) value =
#ifdef SOLVER_WFQP
    q == SOLVER_RELAXED_OUT ? &RINFO :
#endif
    &QPINFO; }
void ocp_qp_res_compute_nrm_inf(ocp_qp_res *r, double *res) { res[0] = nd_double(); res[1] = nd_double(); res[2] = nd_double(); res[3] = nd_double(); }
static void at_solve(void);
static int qp_solved(int precondensed)
{
    REQUIRE(v_vec == v_out, "the QP vectors belong to the current iterate");
    REQUIRE(g_lm, "the QP Hessian contains the Levenberg-Marquardt term");
    REQUIRE(g_reg_lhs >= 1 && g_reg_rhs >= 1, "the QP is regularized before it is solved");
#ifndef SOLVER_WFQP
    REQUIRE(g_reg_lhs == 1, "the QP is regularized once per linearization");
#endif
    at_solve();
    g_nqp++; v_qp = v_out; g_qp_obj = 0; g_step_norm_fresh = 0; g_warm_at_solve = g_warm;
    QPINFO.num_iter = nd_int();
    g_qp_status = nd_int();
    return g_qp_status;
}
#if !defined(SOLVER_WFQP) && !defined(SOLVER_RTI)
int ocp_nlp_solve_qp_and_correct_dual(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w, bool precondensed, ocp_qp_in *si, ocp_qp_in *qi, ocp_qp_out *so, ocp_qp_out *qo, ocp_qp_xcond_solver *x)
{ return qp_solved(precondensed); }
#endif
double ocp_qp_out_compute_primal_nrm_inf(ocp_qp_out *q) { REQUIRE(q == &QPOUT && v_qp == v_out, "step norm of the current QP solution"); double d = nd_double(); ASSUME(d >= 0 || d != d); g_step_norm_fresh = 1; return d; }
double ocp_nlp_compute_delta_dual_norm_inf(ocp_nlp_dims *d, ocp_nlp_workspace *w, ocp_nlp_out *out, ocp_qp_out *q) { REQUIRE(q == &QPOUT && out == &OUT && v_qp == v_out, "dual step norm before the step is taken"); return nd_double(); }
double ocp_nlp_compute_qp_objective_value(ocp_nlp_dims *d, ocp_qp_in *qi, ocp_qp_out *qo, ocp_nlp_workspace *w) { REQUIRE(qi == &QPIN && qo == &QPOUT && v_qp == v_out, "QP objective of the current QP"); g_qp_obj |= 1; return g_qobjv = nd_double(); }
double ocp_nlp_get_l1_infeasibility(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_memory *m) { REQUIRE(v_mat == v_out, "infeasibility of the current iterate"); g_qp_obj |= 4; return g_l1 = nd_double(); }
double ocp_nlp_compute_gradient_directional_derivative(ocp_nlp_dims *d, ocp_qp_in *qi, ocp_qp_out *qo) { REQUIRE(qi == &QPIN && qo == &QPOUT && v_qp == v_out, "directional derivative along the current QP step"); g_qp_obj |= 2; return g_dd = nd_double(); }

// --- globalization
static int st_needs_obj() { return needs_obj; }
static int st_needs_qp_obj() { return needs_qp_obj; }
static void st_glob_init(void *c, void *d, void *m, void *o) { if (NO.max_iter == 0 && !NO.eval_residual_at_max_iter) { g_glob_init++; return; } REQUIRE(v_mat == v_out && v_out == 1, "globalization memory is initialized at the initial iterate"); REQUIRE(!needs_obj || v_cost == v_out, "globalization is initialized with the cost of the initial iterate"); g_glob_init++; }
static void after_step(void);
static int st_find(void *c, void *d, void *in, void *out, void *m, void *sm, void *w, void *o, double *step)
{
    REQUIRE(out == &OUT && m == &NM && o == &NO, "globalization works on the solver's iterate");
    REQUIRE(v_qp == v_out, "a step is only taken along the solution of the QP of the current iterate");
    REQUIRE(g_qp_status == ACADOS_SUCCESS || g_qp_status == ACADOS_MAXITER, "no step is taken after a failed QP");
    REQUIRE(!needs_qp_obj || (g_qp_obj & NEED_QP_OBJ) == NEED_QP_OBJ, "the predicted reductions are computed for the current QP");
    if (needs_qp_obj)
    {
        REQUIRE(NM.qp_cost_value == g_qobjv || g_qobjv != g_qobjv, "the QP objective is passed to the globalization");
#ifndef SOLVER_DDP
        REQUIRE(NM.predicted_optimality_reduction == -g_dd || g_dd != g_dd, "the predicted reduction of the objective is minus the directional derivative");
#endif
#if !defined(SOLVER_WFQP) && !defined(SOLVER_DDP)
        REQUIRE((g_qp_obj & 4) && (NM.predicted_infeasibility_reduction == g_l1 || g_l1 != g_l1), "the predicted reduction of the infeasibility is that of a full step");
#endif
    }
    REQUIRE(!needs_obj || v_cost == v_out, "globalization uses the cost of the current iterate");
    *step = nd_double(); g_alpha = *step; g_alpha_known = 1;
    v_out++; g_glob_calls++;
    g_last_glob = nd_int();
    ASSUME(g_last_glob >= ACADOS_SUCCESS && g_last_glob <= ACADOS_INFEASIBLE);
#ifdef SOLVER_RTI
    ASSUME(g_last_glob == ACADOS_SUCCESS);      // postcondition of the fixed step globalization, the only one available with RTI
#endif
    if (g_last_glob != ACADOS_SUCCESS) g_glob_failed = 1; else after_step();
    return g_last_glob;
}
void copy_ocp_nlp_out(ocp_nlp_dims *d, ocp_nlp_out *from, ocp_nlp_out *to);

// statistics: one row per iteration plus one; contents left by earlier calls
static void stat_rows(int rows, int n, int max_iter)
{
#ifdef BIG
    STAT = array(rows * n, sizeof(double)); PSN = array(max_iter, sizeof(double)); DSN = array(max_iter, sizeof(double)); ITER = array(max_iter + 1, sizeof(void *));
#ifdef NATIVE
    for (int i = 0; i <= max_iter; i++) ITER[i] = (ocp_nlp_out *) ((char *) &OUT + 1 + i);
#endif
#else
    for (int i = 0; i < ROWS; i++) ITER[i] = &ITERS[i];
#endif
    NM.iterates = ITER; NM.primal_step_norm = PSN; NM.dual_step_norm = DSN;
}
static void setup_common(void)
{
    CFG.qp_solver = &QPS; CFG.regularize = &REG; CFG.globalization = &GLOB;
    QPS.opts_set = st_qp_opts_set; REG.regularize = st_reg; REG.regularize_lhs = st_reg_lhs; REG.regularize_rhs = st_reg_rhs; REG.correct_dual_sol = st_correct_dual;
    GLOB.find_acceptable_iterate = st_find; GLOB.print_iteration_header = st_print_h; GLOB.print_iteration = st_print_it;
    GLOB.needs_objective_value = st_needs_obj; GLOB.needs_qp_objective_value = st_needs_qp_obj; GLOB.initialize_memory = st_glob_init;
    needs_obj = nd_range(0, 1); needs_qp_obj = nd_range(0, 1);
    NM.nlp_res = &RES; NM.nlp_timings = &TIM; NM.qp_in = &QPIN; NM.qp_out = &QPOUT; NM.scaled_qp_in = &QPIN; NM.scaled_qp_out = &QPOUT;
    NW.tmp_nlp_out = &TMPOUT;
    NO.qp_solver_opts = (void *) &QPOPTS;
    NO.max_iter = nd_range(0, MAXIT); NO.print_level = nd_range(0, 5);
    NO.with_adaptive_levenberg_marquardt = nd_bool(); NO.eval_residual_at_max_iter = nd_bool(); NO.store_iterates = nd_bool();
    NO.warm_start_first_qp = nd_bool(); NO.warm_start_first_qp_from_nlp = nd_bool(); NO.qp_warm_start = nd_range(0, 2);
    NO.ext_qp_res = EXTQP; NO.log_dual_step_norm = nd_range(0, 1); NO.log_primal_step_norm = nd_range(0, 1); NO.with_anderson_acceleration = nd_bool();
    NO.tol_stat = nd_double(); NO.tol_eq = nd_double(); NO.tol_ineq = nd_double(); NO.tol_comp = nd_double(); NO.tol_unbounded = nd_double(); NO.tol_min_step_norm = nd_double();
    ASSUME(NO.tol_stat > 0 && NO.tol_eq > 0 && NO.tol_ineq > 0 && NO.tol_comp > 0);
    NO.levenberg_marquardt = nd_double();
#ifdef EST
    NO.print_level = 0; NO.with_adaptive_levenberg_marquardt = NO.store_iterates = NO.warm_start_first_qp = 0; NO.qp_warm_start = 0; NO.log_dual_step_norm = NO.log_primal_step_norm = 0; needs_obj = needs_qp_obj = 0; NO.tol_min_step_norm = 0; NO.tol_unbounded = -1e30;
#endif
    g_warm = NO.qp_warm_start; g_qp_init = 0;
    // state left by earlier calls
    RES.inf_norm_res_stat = g_r0 = nd_double(); RES.inf_norm_res_eq = g_r1 = nd_double(); RES.inf_norm_res_ineq = g_r2 = nd_double(); RES.inf_norm_res_comp = g_r3 = nd_double();
    NM.cost_value = g_cost = nd_double(); NM.status = nd_int(); NM.iter = nd_int(); OUT.inf_norm_res = nd_double();
    QPINFO.num_iter = nd_int(); TIM.time_tot = nd_double();
}

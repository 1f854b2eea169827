#include "acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c"
#include "glob_common.h"
static ocp_nlp_globalization_merit_backtracking_opts FO; static ocp_nlp_globalization_merit_backtracking_memory FM;
static struct blasfeo_dvec UX[3][2], W[4];
static int NV[2], NXU[2], NS[2], ZDIM[2], g_stages, g_judged, g_phase, g_evaluated, g_qpv, g_soc, g_grad, g_status0, g_iter, g_viol_known;
static double g_m, g_m0, g_dm, g_v0, g_v1; static int g_m0_known, g_w, g_backup = -1;
static void on_cost(int i) { }
static void on_constr(int i) { }
// weights: 0 those of the last iteration; 10+q initialized from QP solution q; 20+q updated once with QP solution q; 99 anything else
static int w_wanted(void) { return (g_iter == 0 ? 10 : 20) + g_qpv; }
void weights_init_contract(ocp_nlp_dims *d, ocp_nlp_out *w, ocp_qp_out *q) { REQUIRE(w == &WEIGHTS && q == &QPOUT && g_iter == 0, "weights are initialized in the first iteration"); g_w = 10 + g_qpv; }
void weights_update_contract(ocp_nlp_dims *d, ocp_nlp_out *w, ocp_qp_out *q) { REQUIRE(w == &WEIGHTS && q == &QPOUT && g_iter != 0, "weights are updated in later iterations"); g_w = g_w == 0 ? 20 + g_qpv : 99; }
void backup_contract(ocp_nlp_dims *d, ocp_nlp_out *from, ocp_qp_out *to) { REQUIRE(from == &WEIGHTS && to == &TMPQP, "the weights are saved"); g_backup = g_w; }
void restore_contract(ocp_nlp_dims *d, ocp_qp_out *from, ocp_nlp_out *to) { REQUIRE(from == &TMPQP && to == &WEIGHTS && g_backup >= 0, "the saved weights are restored"); g_w = g_backup; }
static double limit(void) { double d = g_grad && g_dm < 0 ? g_dm : 0.0; return g_m0 + GO.eps_sufficient_descent * d * g_alpha; }
static int finite_(double x) { return x == x && x - x == 0.0; }
static bool acceptable(void)
{
    REQUIRE(g_evaluated, "the merit function is evaluated at every trial iterate");
    REQUIRE(!GO.line_search_use_sufficient_descent || g_grad, "the directional derivative is computed when sufficient descent is requested");
    return finite_(g_m) && g_m < limit();
}
static int g_searched;
static void line_search_entered(void)
{
    g_phase = 2; g_m0_known = 0;
    REQUIRE(g_evaluated && g_alpha == 1.0, "the full step is checked before the line search");
    REQUIRE(!(finite_(g_m) && g_m < g_m0 && g_v1 < g_v0), "a full step that reduces merit function and violation is taken");
    REQUIRE(!(finite_(g_m) && !g_soc), "a rejected full step triggers the second order correction");
}
// a trial iterate is computed stage by stage
static void stage(int i, double alpha)
{
    if (g_stages == 0 || g_stages == (2 << N) - 1)
    {
        REQUIRE(!g_steps, "no trial iterates after the step");
        if (!GO.use_SOC) g_phase = 2;
        else if (g_trial == 2 && g_phase == 0) line_search_entered();
        if (alpha == 0.0) ;
        else if (g_phase == 2)
        {
            double last = g_alpha;
            if (!g_searched) REQUIRE(alpha == 1.0, "the first trial is the full step");
            else
            {
                REQUIRE(!acceptable(), "the first acceptable trial step is taken");
                REQUIRE(alpha == last * GO.alpha_reduction, "the step size is reduced by the given factor");
            }
            REQUIRE(alpha * GO.alpha_reduction > GO.alpha_min, "no trials beyond the minimal step size");
            g_searched++;
        }
        else REQUIRE(alpha == 1.0, "the full step is checked first");
        new_trial(alpha); g_evaluated = 0; g_stages = 0;
    }
    REQUIRE(g_alpha == alpha, "all stages use the same step size");
    REQUIRE(!(g_stages >> i & 1), "every stage is updated once");
    g_stages |= 1 << i;
}
void blasfeo_dveccp(int n, struct blasfeo_dvec *x, int xi, struct blasfeo_dvec *y, int yi)
{
    if (y != UX[1] && y != UX[1] + 1) return;
    int i = y == UX[1] + 1;
    REQUIRE(i <= N && x == UX[0] + i && n == NV[i] && xi == 0 && yi == 0, "the reference point is the current iterate");
    stage(i, 0.0);
}
void blasfeo_daxpy(int n, double alpha, struct blasfeo_dvec *x, int xi, struct blasfeo_dvec *y, int yi, struct blasfeo_dvec *z, int zi)
{
    if (z != UX[1] && z != UX[1] + 1) return;
    int i = z == UX[1] + 1;
    REQUIRE(i <= N && x == UX[2] + i && y == UX[0] + i && n == NV[i] && xi == 0 && yi == 0 && zi == 0, "the trial iterate is the current iterate plus the scaled step");
    stage(i, alpha);
}
double merit_contract(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{
    REQUIRE(out == &OUT && m == &NM && o == &NO && w == &NW, "merit function of the solver's iterate");
    REQUIRE(g_trial && g_stages == (2 << N) - 1, "all stages of the trial iterate are set before the merit function is evaluated");
    REQUIRE(g_w == w_wanted(), "the weights are initialized or updated once, with the current QP solution");
    g_evaluated = 1;
    if (g_alpha == 0.0) { if (!g_m0_known) g_m0 = nd_bool() ? any() : 0.0 / 0.0; g_m0_known = 1; return g_m = g_m0; }
    g_m = nd_bool() ? any() : nd_bool() ? 0.0 / 0.0 : 1.0 / 0.0;
    return g_m;
}
double viol_contract(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{
    REQUIRE(g_evaluated, "the constraint violation belongs to the trial iterate");
    if (g_alpha == 0.0) return g_v0;
    g_viol_known = 1; return g_v1;
}
double gradient_contract(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w)
{
    REQUIRE(out == &OUT && m == &NM && w == &NW, "directional derivative of the solver's merit function");
    REQUIRE(g_evaluated && g_alpha == 0.0 && g_w == w_wanted(), "the directional derivative is that at the current iterate");
    g_grad = 1; return g_dm = any();
}
int ocp_nlp_perform_second_order_correction(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_opts *o, ocp_nlp_memory *m, ocp_nlp_workspace *w, ocp_qp_in *qi, ocp_qp_out *qo)
{
    REQUIRE(GO.use_SOC && m == &NM && out == &OUT && qi == &QPIN && qo == &QPOUT, "second order correction on request");
    REQUIRE(g_evaluated && g_alpha == 1.0 && g_trial == 2 && !g_soc, "second order correction uses the functions at the full step");
    REQUIRE(finite_(g_m) && !(g_m < g_m0 && g_v1 < g_v0), "second order correction only if the full step is rejected");
    g_soc = 1 + nd_bool(); g_qpv++; g_m0_known = 0;
    if (g_soc == 2) { NM.status = ACADOS_QP_FAILURE; return 1; }
    return 0;
}
void harness(void)
{
    N = nd_range(0, 1);
    setup_common();
    NV[0] = 3; NV[1] = 2; DIMS.nv = NV; NXU[0] = 1; NXU[1] = 2; DIMS.nx = NXU; DIMS.nu = NXU; DIMS.ni = ZDIM; DIMS.nz = ZDIM; DIMS.ns = ZDIM;
    OUT.ux = UX[0]; TMPOUT.ux = UX[1]; QPOUT.ux = UX[2];
    OUT.lam = W; OUT.pi = W + 1; TMPOUT.lam = W; TMPOUT.pi = W + 1; QPOUT.lam = W + 2; QPOUT.pi = W + 3;
    NO.globalization = &FO; FO.globalization_opts = &GO; NM.globalization = &FM;
    GO.use_SOC = nd_bool(); GO.line_search_use_sufficient_descent = nd_bool();
    GO.alpha_min = GO.alpha_reduction == 0.5 ? (nd_bool() ? 0.2 : 0.1) : (nd_bool() ? 0.05 : 0.01);
    g_v0 = pos(); g_v1 = pos();
    NM.iter = g_iter = nd_int(); ASSUME(g_iter >= 0);
    NM.status = g_status0 = nd_int(); ASSUME(g_status0 != ACADOS_QP_FAILURE);
    FM.alpha = pos();
    double step = -1;
    int ret = ocp_nlp_globalization_merit_backtracking_find_acceptable_iterate(&CFG, &DIMS, &NLPIN, &OUT, &NM, &SOLVERMEM, &NW, &NO, &step);
    if (g_soc == 2)
    {
        REQUIRE(ret == ACADOS_QP_FAILURE && !g_steps, "no step is taken if the correction QP fails");
        return;
    }
    if (g_phase != 2)
    {
        REQUIRE(GO.use_SOC && g_trial == 2 && g_alpha == 1.0 && g_evaluated && g_viol_known, "the line search is only skipped after a successful full step check");
        REQUIRE(finite_(g_m) && g_m < g_m0 && g_v1 < g_v0, "the full step is taken if merit function and violation decrease");
        REQUIRE(ret == ACADOS_SUCCESS && g_steps == 1 && g_applied == 1.0 && step == 1.0 && FM.alpha == 1.0, "the full step is applied and returned");
        REQUIRE(g_w == w_wanted(), "the weights are those of this iteration");
        return;
    }
    REQUIRE(g_searched, "at least one trial step");
    bool acc = acceptable();
    REQUIRE(acc || g_alpha * GO.alpha_reduction * GO.alpha_reduction <= GO.alpha_min, "all step sizes above the minimum are tried");
    if (!acc && !finite_(g_m))
    {
        REQUIRE(ret == ACADOS_NAN_DETECTED && NM.status == ACADOS_NAN_DETECTED && !g_steps, "no step to a point where the merit function is not finite");
        return;
    }
    REQUIRE(ret == ACADOS_SUCCESS && g_steps == 1, "the step is applied once");
    REQUIRE(g_applied == (acc ? g_alpha : g_alpha * GO.alpha_reduction), "the first acceptable step size is applied, the smallest one if there is none");
    REQUIRE(step == g_applied && FM.alpha == g_applied, "the applied step size is returned");
    REQUIRE(g_w == w_wanted(), "the weights are those of this iteration");
#ifdef VF_COVER
    if (acc && g_searched == 1) COVER("full step");
    if (acc && g_searched > 1 && g_grad) COVER("reduced step with sufficient descent");
    if (!acc) COVER("smallest step");
    if (g_soc) COVER("second order correction");
#endif
}

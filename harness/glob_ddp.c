#include "acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c"
#define TRIAL_BY_STEP
#define COST_ONLY
static void before_trial(double alpha);
#include "glob_common.h"
static ocp_nlp_globalization_merit_backtracking_opts FO; static ocp_nlp_globalization_merit_backtracking_memory FM;
static double COSTV[2], g_cost0, g_pred;
static void on_cost(int i) { COSTV[i] = nd_bool() ? any() : 0.0 / (nd_bool() ? 0.0 : 1.0); }
static void on_constr(int i) { }
static double *st_cost_ptr(void *m) { return &COSTV[idx(m)]; }
static double trial_cost(void) { return N ? COSTV[0] + COSTV[1] : COSTV[0]; }
static bool acceptable(void)
{
    REQUIRE(all_evaluated(), "the cost of the trial iterate is evaluated");
    double r = g_pred > 0 ? GO.eps_sufficient_descent * g_alpha * g_pred : 0.0;
    return trial_cost() <= g_cost0 - r;
}
static void before_trial(double alpha)
{
    if (!g_trial) { REQUIRE(alpha == 1.0, "the first trial is the full step"); return; }
    double last = g_alpha;
    REQUIRE(!acceptable(), "the first acceptable trial step is taken");
    REQUIRE(alpha == last * GO.alpha_reduction, "the step size is reduced by the given factor");
    REQUIRE(alpha >= GO.alpha_min, "no trials beyond the minimal step size");
}
void harness(void)
{
    N = nd_range(0, 1);
    setup_common();
    COST[0]->memory_get_fun_ptr = COST[1]->memory_get_fun_ptr = st_cost_ptr;
    NO.globalization = &FO; FO.globalization_opts = &GO; NM.globalization = &FM;
    FM.alpha = pos(); NM.cost_value = g_cost0 = any(); g_pred = any(); NM.qp_cost_value = -g_pred;
    double step = -1;
    int ret = ocp_nlp_globalization_merit_backtracking_find_acceptable_iterate_for_ddp(&CFG, &DIMS, &NLPIN, &OUT, &NM, &SOLVERMEM, &NW, &NO, &step);
    REQUIRE(!g_at_trial, "functions are evaluated at the current iterate again");
    REQUIRE(g_trial > 0, "at least one trial step");
    bool acc = acceptable();
    if (ret == ACADOS_SUCCESS)
    {
        REQUIRE(acc, "only a trial iterate with sufficient decrease is accepted");
        REQUIRE(g_copies == 1 && g_applied == g_alpha, "the accepted trial iterate becomes the current iterate");
        REQUIRE(step == g_alpha && FM.alpha == g_alpha, "the accepted step size is returned");
        REQUIRE(NM.cost_value == trial_cost(), "the cost value is that of the accepted iterate");
    }
    else
    {
        REQUIRE(ret == ACADOS_MINSTEP, "a failed line search reports a minimal step");
        REQUIRE(!acc && g_alpha * GO.alpha_reduction < GO.alpha_min, "failure means that no step size is acceptable");
        REQUIRE(!g_copies && NM.cost_value == g_cost0, "a failed line search leaves the iterate unchanged");
        REQUIRE(FM.alpha == 0.0, "a failed line search sets the step size to zero");
    }
#ifdef VF_COVER
    if (ret == ACADOS_SUCCESS && g_trial == 1) COVER("full step");
    if (ret == ACADOS_SUCCESS && g_trial > 1) COVER("reduced step");
    if (ret != ACADOS_SUCCESS) COVER("failed line search");
#endif
}

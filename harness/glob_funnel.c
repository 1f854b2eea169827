#include "acados/ocp_nlp/ocp_nlp_globalization_funnel.c"
#define TRIAL_BY_STEP
static void before_trial(double alpha);
#include "glob_common.h"
static ocp_nlp_globalization_funnel_opts FO; static ocp_nlp_globalization_funnel_memory FM;
static double COSTV[2], g_inf, g_pobj, g_pinf, g_cost0, g_inf0; static int g_inf_trial, g_judged;
static void on_cost(int i) { COSTV[i] = any(); }
static void on_constr(int i) { }
static double *st_cost_ptr(void *m) { return &COSTV[idx(m)]; }
double ocp_nlp_get_l1_infeasibility(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_memory *m)
{
    REQUIRE(all_evaluated(), "the infeasibility is that of the trial iterate");
    g_inf_trial = g_trial; g_inf = pos(); return g_inf;
}
static double trial_cost(void) { return N ? COSTV[0] + COSTV[1] : COSTV[0]; }
// contract of the acceptance test (its body: obligations of is_trial_iterate_acceptable_to_funnel)
static int g_accept, g_penalty; static double g_width, g_mu; static bool g_mode; static char g_type;
bool accept_contract(ocp_nlp_globalization_funnel_memory *mem, ocp_nlp_opts *o, double pobj, double aobj, double alpha, double inf0, double inf, double c0, double c,
                     double merit0, double merit, double pmerit, double pinf)
{
    REQUIRE(all_evaluated() && g_inf_trial == g_trial, "the trial iterate is evaluated before it is judged");
    REQUIRE(g_judged != g_trial, "a trial iterate is judged once"); g_judged = g_trial;
    REQUIRE(mem == &FM && o == &NO && g_penalty, "the acceptance test uses the funnel of the solver");
    REQUIRE(pobj == g_pobj && pinf == g_pinf && pmerit == g_mu * g_pobj + g_pinf, "acceptance test: predicted reductions");
    REQUIRE(c0 == g_cost0 && c == trial_cost() && aobj == g_cost0 - c, "acceptance test: cost of current and trial iterate");
    REQUIRE(inf0 == g_inf0 && inf == g_inf, "acceptance test: infeasibility of current and trial iterate");
    REQUIRE(merit0 == g_mu * g_cost0 + g_inf0 && merit == g_mu * c + g_inf, "acceptance test: merit of current and trial iterate");
    REQUIRE(alpha == g_alpha, "acceptance test: step size of the trial iterate");
    mem->funnel_width = g_width = pos(); mem->funnel_penalty_mode = g_mode = nd_bool(); mem->funnel_iter_type = g_type = nd_bool() ? 'f' : 'h';
    return g_accept = nd_bool();
}
void penalty_contract(ocp_nlp_globalization_funnel_memory *mem, ocp_nlp_globalization_funnel_opts *o, ocp_nlp_opts *no, double pobj, double pinf)
{
    REQUIRE(mem == &FM && o == &FO && no == &NO && pobj == g_pobj && pinf == g_pinf && !g_trial, "the penalty parameter is updated for the predicted reductions");
    REQUIRE(mem->penalty_parameter == NM.objective_multiplier, "the penalty parameter is the objective multiplier of the solver");
    REQUIRE(!g_penalty, "the penalty parameter is updated once");
    g_penalty = 1; mem->penalty_parameter = g_mu = pos();
}
static bool acceptable(void) { REQUIRE(g_judged == g_trial, "the acceptance test decides on every trial iterate"); return g_accept; }
static void before_trial(double alpha)
{
    if (!g_trial) { REQUIRE(alpha == 1.0, "the first trial is the full step"); return; }
    double last = g_alpha;
    REQUIRE(!acceptable(), "the first acceptable trial step is taken");
    REQUIRE(last >= GO.alpha_min, "no trials beyond the minimal step size");
    REQUIRE(alpha == last * GO.alpha_reduction, "the step size is reduced by the given factor");
}
void harness(void)
{
    N = nd_range(0, 1);
    setup_common();
    COST[0]->memory_get_fun_ptr = COST[1]->memory_get_fun_ptr = st_cost_ptr;
    NO.globalization = &FO; FO.globalization_opts = &GO; NM.globalization = &FM;
    FO.initialization_increase_factor = pos(); FO.initialization_upper_bound = pos(); FO.sufficient_decrease_factor = 0.5; FO.kappa = 0.5;
    FO.fraction_switching_condition = 0.25; FO.initial_penalty_parameter = 1.0; FO.penalty_contraction = 0.5; FO.penalty_eta = 0.5; FO.use_merit_fun_only = nd_bool();
    FM.funnel_width = pos(); FM.funnel_penalty_mode = nd_bool(); FM.alpha = pos(); FM.funnel_iter_type = '-'; FM.penalty_parameter = pos(); FM.l1_infeasibility = g_inf0 = pos();
    NM.objective_multiplier = pos(); NM.cost_value = g_cost0 = any();
    NM.predicted_optimality_reduction = g_pobj = any(); NM.predicted_infeasibility_reduction = g_pinf = pos();
    double step = -1;
    int ret = ocp_nlp_globalization_funnel_find_acceptable_iterate(&CFG, &DIMS, &NLPIN, &OUT, &NM, &SOLVERMEM, &NW, &NO, &step);
    REQUIRE(!g_at_trial, "functions are evaluated at the current iterate again");
    REQUIRE(g_trial > 0, "at least one trial step");
    bool acc = acceptable();
    REQUIRE(ret == ACADOS_SUCCESS || ret == ACADOS_MINSTEP, "the search succeeds or reports a minimal step");
    if (ret == ACADOS_SUCCESS)
    {
        REQUIRE(acc, "only an acceptable trial iterate is accepted");
        REQUIRE(g_copies == 1 && g_applied == g_alpha, "the accepted trial iterate becomes the current iterate");
        REQUIRE(step == g_alpha && FM.alpha == g_alpha, "the accepted step size is returned");
        REQUIRE(NM.cost_value == trial_cost(), "the cost value is that of the accepted iterate");
        REQUIRE(FM.l1_infeasibility == g_inf, "the infeasibility is that of the accepted iterate");
    }
    else
    {
        REQUIRE(!acc && g_alpha < GO.alpha_min, "failure means that no step size is acceptable");
        REQUIRE(!g_copies, "a failed line search leaves the iterate unchanged");
        REQUIRE(NM.cost_value == g_cost0 && FM.l1_infeasibility == g_inf0, "a failed line search leaves cost and infeasibility of the iterate unchanged");
    }
    REQUIRE(FM.funnel_width == g_width && FM.funnel_penalty_mode == g_mode && FM.funnel_iter_type == g_type, "the funnel is updated for the accepted step");
    REQUIRE(FM.penalty_parameter == g_mu && NM.objective_multiplier == g_mu, "the penalty parameter is updated");
#ifdef VF_COVER
    if (ret == ACADOS_SUCCESS && g_trial == 1) COVER("full step");
    if (ret == ACADOS_SUCCESS && g_trial > 1) COVER("reduced step");
    if (ret != ACADOS_SUCCESS) COVER("failed line search");
#endif
}

// Contracts of what the globalization calls: stage modules evaluate at the point the primal variable
// pointers are set to; ghost counters record which trial step has been computed and evaluated.
#include "nd.h"
static ocp_nlp_config CFG; static ocp_nlp_dims DIMS; static ocp_nlp_in NLPIN; static ocp_nlp_out OUT, TMPOUT, WEIGHTS;
static ocp_nlp_opts NO; static ocp_nlp_memory NM; static ocp_nlp_workspace NW; static ocp_qp_in QPIN; static ocp_qp_out QPOUT, TMPQP;
static ocp_nlp_globalization_opts GO;
static ocp_nlp_dynamics_config DYNC, *DYN[2]; static ocp_nlp_cost_config COSTC, *COST[2]; static ocp_nlp_constraints_config CONC, *CON[2];
static int SOLVERMEM, MODM[3][2]; static void *PD[2], *PC[2], *PN[2], *DD[2], *DC[2], *DN[2], *OD[2], *OC[2], *ON[2], *WD[2], *WC[2], *WN[2], *ID[2], *IC[2], *IN[2];
static int N;
// a dyadic number: sums, products with dyadic factors and comparisons of these are exact
static double pos(void)
{
    bool a = nd_bool(), b = nd_bool(), c = nd_bool();
    return a ? (b ? (c ? 0.0 : 0.5) : (c ? 1.0 : 1.5)) : (b ? (c ? 2.0 : 3.0) : (c ? 4.0 : 0.25));
}
static double any(void)
{
    bool a = nd_bool(), b = nd_bool(), c = nd_bool(), d = nd_bool();
    return a ? (b ? (c ? 0.0 : (d ? -0.5 : 0.5)) : (c ? (d ? 1.0 : -1.0) : (d ? 1.5 : -1.5))) : (b ? (c ? 2.0 : (d ? 3.0 : -3.0)) : (c ? (d ? 4.0 : -4.0) : (d ? 0.25 : -2.0)));
}

static int g_trial, g_eval_d, g_eval_c, g_eval_n, g_steps, g_copies, g_at_trial;   // trial number; modules evaluated for this trial
static double g_alpha, g_applied;                 // step size of the trial
static void new_trial(double alpha) { g_trial++; g_alpha = alpha; g_eval_d = g_eval_c = g_eval_n = 0; }
static void on_cost(int i);
static void on_constr(int i);
static int idx(void *m) { return m == PD[1] || m == PC[1] || m == PN[1]; }
void ocp_nlp_set_primal_variable_pointers_in_submodules(ocp_nlp_config *c, ocp_nlp_dims *d, ocp_nlp_in *in, ocp_nlp_out *out, ocp_nlp_memory *m)
{
    REQUIRE(out == &TMPOUT || out == &OUT, "functions are evaluated at the trial or the current iterate");
    g_at_trial = out == &TMPOUT;
}
static void st_dyn(void *c, void *d, void *in, void *o, void *m, void *w)
{
    int i = idx(m);
    REQUIRE(i < N && c == DYN[i] && d == DD[i] && in == ID[i] && o == OD[i] && m == PD[i] && w == WD[i], "the dynamics of a stage are evaluated with the data of that stage");
    REQUIRE(g_at_trial && g_trial, "the dynamics are evaluated at the trial iterate");
    g_eval_d |= 1 << i;
}
static void st_cost(void *c, void *d, void *in, void *o, void *m, void *w)
{
    int i = idx(m);
    REQUIRE(i <= N && c == COST[i] && d == DC[i] && in == IC[i] && o == OC[i] && m == PC[i] && w == WC[i], "the cost of a stage is evaluated with the data of that stage");
    REQUIRE(g_at_trial && g_trial, "the cost is evaluated at the trial iterate");
#ifndef COST_ONLY
    REQUIRE(i == N || (g_eval_d >> i & 1), "the dynamics are evaluated before the cost");
#endif
    g_eval_c |= 1 << i; on_cost(i);
}
static void st_con(void *c, void *d, void *in, void *o, void *m, void *w)
{
    int i = idx(m);
    REQUIRE(i <= N && c == CON[i] && d == DN[i] && in == IN[i] && o == ON[i] && m == PN[i] && w == WN[i], "the constraints of a stage are evaluated with the data of that stage");
    REQUIRE(g_at_trial && g_trial, "the constraints are evaluated at the trial iterate");
    g_eval_n |= 1 << i; on_constr(i);
}
static int all_evaluated(void) { return g_eval_c == (2 << N) - 1
#ifndef COST_ONLY
    && g_eval_d == (1 << N) - 1 && g_eval_n == (2 << N) - 1
#endif
    ; }
static void st_step(void *c, void *d, void *in, void *out, void *qo, void *o, void *m, void *w, void *dest, void *sm, double alpha, bool fsd)
{
    REQUIRE(c == &CFG && d == &DIMS && in == &NLPIN && out == &OUT && qo == &QPOUT && o == &NO && m == &NM && w == &NW && sm == &SOLVERMEM, "the step starts from the current iterate, along the QP solution");
    REQUIRE(fsd == GO.full_step_dual, "full dual steps as requested");
    REQUIRE(!g_at_trial, "functions are evaluated at the current iterate again before a step is computed");
    REQUIRE(!g_steps && !g_copies, "the iterate is updated once");
#ifdef TRIAL_BY_STEP
    REQUIRE(dest == &TMPOUT, "a trial step leaves the current iterate unchanged");
    before_trial(alpha);
    new_trial(alpha);
#else
    REQUIRE(dest == &OUT, "the current iterate is updated");
    g_steps++; g_applied = alpha;
#endif
}
void copy_ocp_nlp_out(ocp_nlp_dims *d, ocp_nlp_out *from, ocp_nlp_out *to)
{
    REQUIRE(from == &TMPOUT && to == &OUT, "the accepted trial iterate becomes the current one");
    g_copies++; g_applied = g_alpha;
}
void print_debug_output(char *m, int l, int e) { }
void print_debug_output_double(char *m, double v, int l, int e) { }
static void setup_common(void)
{
    DIMS.N = N; CFG.dynamics = DYN; CFG.cost = COST; CFG.constraints = CON; CFG.step_update = st_step;
    DYNC.compute_fun = st_dyn; COSTC.compute_fun = st_cost; CONC.compute_fun = st_con;
    for (int i = 0; i < 2; i++)
    {
        // the stages use separate objects, so that data of the wrong stage is noticed
        static ocp_nlp_dynamics_config dyn[2]; static ocp_nlp_cost_config cost[2]; static ocp_nlp_constraints_config con[2];
        dyn[i] = DYNC; cost[i] = COSTC; con[i] = CONC;
        DYN[i] = dyn + i; COST[i] = cost + i; CON[i] = con + i;
        static char x[15][2];
        ID[i] = x[0] + i; IC[i] = x[1] + i; IN[i] = x[2] + i; OD[i] = x[3] + i; OC[i] = x[4] + i; ON[i] = x[5] + i; WD[i] = x[6] + i; WC[i] = x[7] + i; WN[i] = x[8] + i;
        DD[i] = x[9] + i; DC[i] = x[10] + i; DN[i] = x[11] + i; PD[i] = x[12] + i; PC[i] = x[13] + i; PN[i] = x[14] + i;
    }
    DIMS.dynamics = DD; DIMS.cost = DC; DIMS.constraints = DN; NLPIN.dynamics = ID; NLPIN.cost = IC; NLPIN.constraints = IN;
    NO.dynamics = OD; NO.cost = OC; NO.constraints = ON; NW.dynamics = WD; NW.cost = WC; NW.constraints = WN; NM.dynamics = PD; NM.cost = PC; NM.constraints = PN;
    NM.qp_in = &QPIN; NM.qp_out = &QPOUT; NW.tmp_nlp_out = &TMPOUT; NW.weight_merit_fun = &WEIGHTS; NW.tmp_qp_out = &TMPQP;
    GO.full_step_dual = nd_bool(); GO.use_SOC = 0; GO.line_search_use_sufficient_descent = 0;
    // at most 3 trial steps
    GO.alpha_reduction = nd_bool() ? 0.5 : 0.25;
    GO.alpha_min = GO.alpha_reduction == 0.5 ? (nd_bool() ? 0.75 : 0.3) : (nd_bool() ? 0.2 : 0.3);
    GO.eps_sufficient_descent = nd_bool() ? 0.125 : 0.25;
    NO.print_level = 0;
}

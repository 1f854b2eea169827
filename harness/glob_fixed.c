#include "acados/ocp_nlp/ocp_nlp_globalization_fixed_step.c"
#include "glob_common.h"
static ocp_nlp_globalization_fixed_step_opts FO;
static void on_cost(int i) { }
static void on_constr(int i) { }
void harness(void)
{
    setup_common();
    NO.globalization = &FO; FO.globalization_opts = &GO; FO.step_length = nd_double(); ASSUME(FO.step_length >= 0 && FO.step_length <= 1);
    NO.with_anderson_acceleration = 0; NM.iter = nd_int();
    double step = -1;
    int ret = ocp_nlp_globalization_fixed_step_find_acceptable_iterate(&CFG, &DIMS, &NLPIN, &OUT, &NM, &SOLVERMEM, &NW, &NO, &step);
    REQUIRE(ret == ACADOS_SUCCESS, "the fixed step always succeeds");
    REQUIRE(g_steps == 1 && g_applied == FO.step_length, "the step with the given length is taken once");
    REQUIRE(step == FO.step_length, "the applied step size is returned");
#ifdef VF_COVER
    COVER("step taken");
#endif
}

"""The property list.  Each entry: the properties.jsonl fields, plus `check` (claimed) or `na` (why not)."""
AT = "interfaces/acados_template/acados_template/"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, check=None, na=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or []))
    if check:
        d["check"] = check
    else:
        d["na"] = na or "check not built yet"
    assert len(title) <= 80, title
    PROPS.append(d)


PYT = "contracts on the real Python functions: path-exhaustive symbolic execution over arrays of symbolic size, each path's postcondition discharged by z3"
P("P01", "make_consistent accepts exactly dimension-consistent OCPs, stores dims",
  "For every OCP description, the cost, constraint and slack parts of AcadosOcp.make_consistent succeed exactly when the sizes of all bounds, index vectors, weights, references, selection matrices, slack bounds, slack penalties and symbolic expressions agree with each other and with nx, nu, nz at each of initial, path and terminal stage, all indices are in range, and index/slack maps are valid; otherwise they raise. "
  "On success every stored dimension (ny, nbx, nbu, ng, nh, nphi, nr, ns and their _0/_e and soft variants, nbxe_0) equals the size of the data, unset slack bounds become zeros of the number of slacks, an unset initial cost becomes a copy of the path cost, and nothing else is changed.",
  ["inputs", "configurations"], "all array shapes and entries, all dimensions, all cost types",
  "The stable tests build a few valid descriptions; the thousands of inconsistent or partially specified ones are not sampled.",
  [AT + "acados_ocp.py", AT + "utils.py"],
  [("cost parts", "AcadosOcp._make_consistent_cost_initial/_path/_terminal, copy_path_cost_to_stage_0"), ("constraint parts", "AcadosOcp._make_consistent_constraints_initial/_path/_terminal"), ("slack parts", "AcadosOcp._make_consistent_slacks_*, utils.ns_from_idxs_rev")],
  check=dict(technique=PYT, note="proof for all sizes and entries of each scenario; verify_weighting_matrix bounded (generated matrices), idxs_rev lengths up to 4; trusts z3, the path explorer and the model of the numpy/CasADi operations used"))

P("P04", "Cost and constraint reformulations keep the value of the OCP's cost",
  "Translating costs to EXTERNAL or CONVEX_OVER_NONLINEAR form, reading a stage cost expression, adding an L2 or Huber penalty for a constraint, adding a linear constraint and translating to the feasibility problem leave at each of initial, path and terminal stage exactly the documented cost: unchanged for translations, plus the penalty of the given bounds, weight and shape for penalties, the sum of the penalties of all constraints (and the kept cost) for the feasibility problem. "
  "References, weights, residuals, parameters and their values stay in step (new entries appended in order), the Gauss-Newton and outer Hessians equal their definition in the order of the residuals, and invalid requests are rejected.",
  ["inputs", "configurations"], "all weights, references, selection matrices, expression coefficients, bounds and penalty parameters; all cost types at each stage",
  "No stable test compares the value of a cost before and after a reformulation.",
  [AT + "acados_ocp.py"],
  [("translations", "AcadosOcp.translate_cost_to_external_cost, translate_nls_cost_to_conl"), ("expressions", "AcadosOcp._get_cost_expression"), ("penalties", "AcadosOcp.formulate_constraint_as_L2_penalty, formulate_constraint_as_Huber_penalty"), ("feasibility problem", "AcadosOcp.translate_to_feasibility_problem, remove_all_constraints"), ("linear constraints", "AcadosOcp.add_linear_constraint")],
  check=dict(technique="contracts on the real methods: executed on symbolic data, the resulting CasADi graphs proved equal to the documented cost by z3 (polynomial normal form and real arithmetic)",
             note="proof for all values with dimensions up to 3; floating point treated as real arithmetic; trusts z3, CasADi's expression construction and differentiation, the graph conversion"))

P("P18", "Exported model functions compute the model and its exact derivatives",
  "For every model, generate_external_functions exports the functions the C solver calls for the chosen dynamics type (DISCRETE, ERK, IRK, LIFTED_IRK, GNSF), the cost types and constraint types of initial, path and terminal stage and the selected options (exact Hessian, forward/adjoint solution sensitivities, value sensitivities, parameter sensitivities of the integrator). Each takes its arguments in the order and sizes the C side passes and returns the model's value and its exact derivatives (Jacobians, Hessians of the Lagrangian or the user's custom ones, adjoints, sensitivities with respect to p_global), each in the shape, orientation and variable order the C side reads: (u, x) for cost and constraints, (x, xdot, z, u) for the implicit Hessian. "
  "Precomputing the parts that depend on p_global only does not change any value; every generated file is listed.",
  ["inputs", "configurations"], "all values of states, controls, algebraic variables, parameters, multipliers, seeds and model coefficients; all cost, constraint and dynamics types and sensitivity options",
  "The stable tests generate code for a few models and do not evaluate it.",
  [AT + "casadi_function_generation.py", AT + "gnsf.py", AT + "acados_ocp.py", AT + "acados_sim.py"],
  [("dynamics", "generate_c_code_discrete_dynamics, generate_c_code_explicit_ode, generate_c_code_implicit_ode, generate_c_code_gnsf"), ("cost", "generate_c_code_external_cost, generate_c_code_nls_cost, generate_c_code_conl_cost"), ("constraints", "generate_c_code_constraint"), ("global parameters", "GenerateContext.finalize, __setup_p_global_precompute_fun"), ("orchestration", "AcadosOcp._setup_code_generation_context, AcadosSim.generate_external_functions")],
  check=dict(technique="contracts on the real generators: executed, every function they export compared with its contract (value and derivatives of a model with free coefficients) by z3 as polynomial identities over all inputs",
             note="proof for all values with dimensions up to 4 and polynomial models with free coefficients; floating point treated as real arithmetic; trusts z3, CasADi's graphs and C emission, the graph conversion, the polynomial differentiator"))

P("P14", "Time grid and integrator settings are completed consistently or rejected",
  "For every horizon N, final time and user-given time steps or shooting nodes, make_consistent produces N time steps and N+1 shooting nodes that describe the same grid and sum to tf (uniform by default, taken from whichever was given otherwise), and rejects grids of wrong length or not summing to tf. "
  "Integrator steps, stages and Jacobian reuse given as a number or array become integer arrays of length N with the given values, anything else is rejected, the integrator time is the first time step, and the integrator type requires its model expression.",
  ["inputs", "configurations"], "all horizon lengths, all final times, all arrays of time steps and shooting nodes, all integrator settings",
  "The stable tests use uniform grids with fixed N only.",
  [AT + "acados_ocp.py"],
  [("time grid", "AcadosOcp._make_consistent_discretization"), ("integrator settings", "AcadosOcp._make_consistent_simulation")],
  check=dict(technique=PYT, note="proof for all lengths and values; floating point sums treated as real arithmetic; trusts z3, the path explorer and the model of the numpy operations used"))

P("P17", "make_consistent rejects exactly the unsupported option combinations",
  "AcadosOcp.make_consistent raises for every option combination documented as unsupported (cost integration, fixed Hessian, one-sided bounds with QP solvers that lack them, negative indices, mixed slack formulations, condensing sizes, parametric sensitivities, tau_min, DDP, QP scaling, adaptive QP tolerances, AS-RTI, funnel, Anderson, QP warm start, zoRO without horizon, terminal expressions using u or z, horizon or parameter size mismatch) and accepts all others. "
  "It completes unset options with the documented default for the chosen solver and globalization, keeps given ones, carries moved options over to the code generation options, and runs each consistency part once, in an order that provides the data it reads.",
  ["configurations", "inputs"], "all values of the options each rule reads, all horizon lengths, dimensions, bound vectors and index vectors",
  "The stable tests exercise a handful of supported combinations and almost no rejected ones.",
  [AT + "acados_ocp.py"],
  [("option rules", "AcadosOcp.make_consistent")],
  check=dict(technique=PYT, note="proof per rule group with the other options at their defaults; callees by their contracts (P01, P14); trusts z3, the path explorer, casadi.which_depends/depends_on"))

P("P02", "Options accept exactly their documented values and store them unchanged",
  "Assigning a solver, integrator, QP, code-generation, cost-type, constraint-type or dimension option succeeds exactly when the value lies in that option's documented domain (listed strings, flag, integer or float range), and afterwards reading the option gives that value back. "
  "An assignment, accepted or rejected, changes no other option; a combined tolerance sets all of its components and reads as their maximum.",
  ["inputs", "configurations"], "every option of the option, dimension, cost-type and constraint-type classes, every integer, every finite float, every string, and the other Python types",
  "The stable tests assign a handful of valid values; the domain boundary of some 190 options over all integers, floats and strings is not sampled.",
  [AT + "acados_ocp_options.py", AT + "acados_sim.py", AT + "acados_code_gen_options.py", AT + "acados_dims.py", AT + "acados_ocp_cost.py", AT + "acados_ocp_constraints.py"],
  [("property setters", "every @x.setter of AcadosOcpOptions, AcadosOcpQpOptions, AcadosSimOptions, AcadosCodeGenOptions, AcadosOcpDims, AcadosSimDims, AcadosOcpCost, AcadosOcpConstraints"), ("integer checks", "acados_dims.check_int_value")],
  check=dict(technique="contracts on the real setters, path-exhaustive symbolic execution with z3 discharging each path's postcondition",
             note="proof over all integers and all finite floats per setter; strings by exhaustive equality classes; NaN/inf as listed representatives; trusts z3, the path explorer and the table of documented domains"))

P("P03", "Huber penalties equal their piecewise definition, gradient and Hessians",
  "For every length delta > 0, slope or curvature, Hessian floor and argument, the one-sided and symmetric Huber penalties equal zero inside the feasible region, the quadratic of the requested curvature on the transition region of length 2*delta and the line of the requested slope beyond it, the returned gradient is the derivative of that function, and the returned Hessians are the second derivative and the secant (generalised Gauss-Newton) curvature of the loss, raised to the floor when one is given. "
  "A negative delta, or giving both or neither of slope and curvature, is rejected.",
  ["inputs"], "all real arguments u, all delta, slope, curvature and floor values",
  "The stable test draws two plots with a few fixed parameters and compares nothing.",
  [AT + "penalty_utils.py"],
  [("huber_loss", "penalty_utils.huber_loss"), ("one-sided penalty", "penalty_utils.one_sided_huber_penalty"), ("symmetric penalty", "penalty_utils.symmetric_huber_penalty")],
  check=dict(technique="contracts on the real functions: symbolic execution, CasADi result graphs discharged against the closed form by z3 over the reals",
             note="proof for all real parameters and arguments; floating point treated as real arithmetic; trusts z3, CasADi's expression construction and the graph conversion"))

AC = "acados/"
CNOTE = "proof for all dimensions, horizon lengths and values; double arithmetic treated as real arithmetic; BLASFEO calls by assumed contracts, cross-checked by native runs against a reference implementation; trusts clang's AST, the interpreter vf/csym.py and z3"
CTECH = "function contracts on the real C source: weakest-precondition style symbolic interpretation of clang's AST with loop summaries, obligations discharged by z3"

P("C01", "Memory blocks are large enough for what is carved from them, aligned, disjoint",
  "For every calculate_size/assign pair of acados (dims, options, memory, workspace, in/out structures and solvers), and every dimensions and options structure, the bytes assign carves out of the caller's block, including alignment padding, are at most what calculate_size returned; "
  "each carved array holds every element that is initialised or addressed through it, structures do not overlap, and each is placed on its required alignment (8 bytes for structures, 64 bytes for matrix memory). The shared carving helpers advance the pointer by exactly what they hand out.",
  ["inputs", "configurations"], "every horizon length, every stage dimension, every options value, every start address aligned to 8 bytes",
  "No stable test allocates through these pairs; an undersized block usually goes unnoticed because of padding, and depends on which dimensions differ from each other.",
  [AC + "utils/mem.c", AC + "ocp_nlp/", AC + "ocp_qp/", AC + "dense_qp/", AC + "sim/"],
  [("pairs", "all *_calculate_size / *_assign, workspace casts"), ("helpers", "assign_and_advance_*, make_int_multiple_of, align_char_to")],
  check=dict(technique=CTECH, note="proof for all dimensions; sizes as mathematical integers (no overflow of acados_size_t), except mem.c helpers with 64-bit bit-vectors; BLASFEO/HPIPM sizes by assumed contracts; trusts clang's AST, the interpreter vf/cmem.py and z3"))

P("C04", "globalization accepts only steps that pass the documented test",
  "The line searches take the first of the step lengths 1, r, r^2, ... whose trial iterate passes the documented acceptance test, never another: merit function: finite l1 merit function below its value at the current iterate (plus the sufficient decrease term with the directional derivative of the merit function); DDP: Armijo condition; funnel: inside the funnel with switching condition and Armijo decrease, sufficient infeasibility decrease, or penalty function decrease. "
  "Merit weights follow Leineweber's rule, are initialized in the first iteration and updated once per iteration; funnel width and penalty parameter change as specified. The merit function, its directional derivative and the violation norm are those of the trial iterate. The second order correction QP has the constraint values of the full step. A failed search leaves the iterate unchanged, the reported step size is the one applied, and evaluation points are reset to the current iterate.",
  ["inputs", "histories", "configurations"], "every horizon, dimension, trial value, predicted reduction, multiplier, weight, option value; every sequence of trial values (line search drivers: bounded number of trial steps)",
  "No stable test runs a line search; rejected full steps, failed second order corrections, penalty mode and exact ties need particular histories.",
  [AC + "ocp_nlp/ocp_nlp_globalization_funnel.c", AC + "ocp_nlp/ocp_nlp_globalization_merit_backtracking.c", AC + "ocp_nlp/ocp_nlp_globalization_fixed_step.c", AC + "ocp_nlp/ocp_nlp_common.c"],
  [("funnel acceptance test", "is_trial_iterate_acceptable_to_funnel"), ("merit function and weights", "ocp_nlp_evaluate_merit_fun, ocp_nlp_compute_merit_gradient, merit_backtracking_update_weights"), ("line searches", "ocp_nlp_line_search, ocp_nlp_ddp_backtracking_line_search, backtracking_line_search"), ("second order correction", "ocp_nlp_perform_second_order_correction")],
  check=dict(technique="pre/postcondition contracts on the real C functions, VCs discharged by z3; ghost-state contracts on the line search drivers discharged by CBMC",
             note="proved for all inputs: acceptance tests, funnel and weight updates, merit function, directional derivative, violation norm, second order correction; bounded (3-4 trial steps, 2 stages): the line search drivers, with contract stand-ins for the proved functions; real arithmetic in the z3 part; Anderson acceleration not specified"))

P("C05", "Iterate and step vector operations compute exactly their formula",
  "After an NLP step of size alpha the new primal variables are the old ones plus alpha times the QP step, multipliers are replaced by the QP multipliers (full dual step) or interpolated with weight alpha, and algebraic variables are the stored value plus alpha times the stored sensitivity applied to the step; the delta step, conversion of absolute to delta multipliers and the copy of an iterate are correct at every stage and nothing else is written. "
  "The vector operations on QP solutions (axpy, add, scale, zero, inner product with net multipliers, primal and dual infinity norms) compute their defining formula over every stage and component, also in place.",
  ["inputs", "configurations"], "every horizon length, every stage dimension, every step size and every value of the vectors",
  "No stable test runs the C solver; the examples run a few horizon lengths and dimensions.",
  [AC + "ocp_nlp/ocp_nlp_common.c", AC + "ocp_qp/ocp_qp_common.c"],
  [("step update", "ocp_nlp_update_variables_sqp, ocp_nlp_update_variables_sqp_delta_primal_dual"), ("multiplier conversion", "ocp_nlp_convert_primaldelta_absdual_step_to_delta_step"), ("iterate copy", "copy_ocp_nlp_out"), ("QP solution vectors", "ocp_qp_out_axpy, _add, _sc, _set_to_zero, _ddot, _compute_primal_nrm_inf, _compute_dual_nrm_inf")],
  check=dict(technique=CTECH, note=CNOTE))

P("C06", "KKT residuals, QP slacks and merit quantities equal their definitions",
  "The stationarity, equality, inequality and complementarity residuals and their infinity norms equal the KKT conditions of the linearised data at every stage (with tau_min: shifted complementarity, zero at equalities and masked constraints), and the reported residual is the largest of the four norms. "
  "The QP objective value, directional derivative, l1 infeasibility, cost sum, multiplier norms, QP slack vector, QP residual norms and the QP initial guess equal their definitions over all stages.",
  ["inputs", "configurations"], "every horizon length, every stage dimension, every value of the vectors and every tau_min",
  "No stable test runs the C solver; residuals at stages without constraints, masked or relaxed constraints are not sampled.",
  [AC + "ocp_nlp/ocp_nlp_common.c", AC + "ocp_qp/ocp_qp_common.c"],
  [("residuals", "ocp_nlp_res_compute, ocp_nlp_res_get_inf_norm"), ("merit quantities", "ocp_nlp_compute_gradient_directional_derivative, ocp_nlp_compute_qp_objective_value, ocp_nlp_get_l1_infeasibility, ocp_nlp_cost_compute, ocp_nlp_get_cost_value_from_submodules"), ("norms", "ocp_nlp_compute_dual_pi_norm_inf, ocp_nlp_compute_dual_lam_norm_inf, ocp_nlp_compute_delta_dual_norm_inf, ocp_qp_res_compute_nrm_inf"), ("QP slacks and start", "ocp_qp_compute_t, ocp_nlp_initialize_qp_from_nlp")],
  check=dict(technique=CTECH, note=CNOTE + "; the norm of the shifted complementarity residual is bounded (random native executions), its elements are proved"))


P("C03", "NLP solver loops: QPs of the current iterate, documented termination",
  "SQP, SQP_WITH_FEASIBLE_QP, DDP and SQP_RTI solve every QP with matrices, vectors, scaling, Levenberg-Marquardt term and regularization of the current iterate, take steps only along the solution of a QP that did not fail, and pass the globalization data of this QP. "
  "They return the status of the first termination criterion met in the documented order (NaN, tolerances, step size, unboundedness, iteration limit, time limit, QP or globalization failure), success only for the residuals of the returned iterate, solve at most max_iter QPs, report the number of iterations, log iteration i in row i of the statistics without writing outside them, store iterate i at index i, and restore the warm start option.",
  ["histories", "configurations", "fault_sequences"], "every sequence of QP statuses, globalization results, residuals and measured times, every option value, every memory content left by earlier calls",
  "No stable test runs a C solver; failed QPs, NaN, time limits, exact hits of the iteration limit and repeated calls need specific histories.",
  [AC + "ocp_nlp/ocp_nlp_sqp.c", AC + "ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c", AC + "ocp_nlp/ocp_nlp_ddp.c", AC + "ocp_nlp/ocp_nlp_sqp_rti.c"],
  [("main loops", "ocp_nlp_sqp, ocp_nlp_sqp_wfqp, ocp_nlp_ddp, ocp_nlp_sqp_rti"), ("termination", "check_termination in each file"), ("residual evaluation", "ocp_nlp_*_eval_kkt_residual")],
  check=dict(technique="ghost-state contracts on the real C source, discharged by CBMC (goto code of the real files, contract stand-ins for callees, loop invariant as inductive step)",
             note="SQP: proof by loop invariant for any iteration (max_iter up to 100000); DDP, SQP_WITH_FEASIBLE_QP, SQP_RTI and the time prediction are bounded (1-2 iterations); calls take no time except in the time limit job; RTI with fixed-step globalization; trusts CBMC and the callee contracts in harness/nlp_ghost.h"))
P("C13", "Cost modules: value, gradient and Hessian are those of the stated cost",
  "For linear and nonlinear least squares, convex-over-nonlinear and external cost, at every stage: the cost value is scaling times (stage cost plus slack penalty z's + 1/2 s'Zs), the gradient is that of this value with respect to inputs, states (through the algebraic variables, where present) and slacks, the Hessian is the (generalised) Gauss-Newton or exact Hessian that was selected, added to or replacing the dynamics contribution as the option says; with the cost in the integrator only the scaled slack part is added. "
  "compute_fun and update_qp_matrices agree with the same formulas, for diagonal and dense weights. Model functions get the arguments and outputs of their signature. Every setter stores its data where the evaluation reads it (and nothing else changes), and a changed W, Vx, Vu or scaling makes the stored factor and Hessian be recomputed before the next use.",
  ["inputs", "configurations", "histories"], "every dimension, every value of states, weights, references, multipliers and model function, every order of setter calls",
  "No stable test evaluates the C cost modules; algebraic variables in the cost, exact Hessians, slack scaling and data changed between solves need particular problems.",
  [AC + "ocp_nlp/ocp_nlp_cost_ls.c", AC + "ocp_nlp/ocp_nlp_cost_nls.c", AC + "ocp_nlp/ocp_nlp_cost_conl.c", AC + "ocp_nlp/ocp_nlp_cost_external.c"],
  [("evaluation", "ocp_nlp_cost_*_update_qp_matrices, _compute_fun, _compute_gradient"), ("stored factors", "ocp_nlp_cost_*_precompute, _initialize, _update_W_factorization"), ("data", "ocp_nlp_cost_*_model_set")],
  check=dict(technique=CTECH, note=CNOTE))


"""C03: main loops of the NLP solvers: data of the current iterate, termination, statistics."""
import os
from vf.core import Check, TIER, REPO
from vf.cbmcrun import Job, check
from vf.par import run_tasks

B2 = "at most 2 NLP iterations"
JOBS = [
    ("sqp", Job("SQP, up to 2 iterations", "sqp_loop.c", ["-DMAXIT=2"], 4, bound=B2), "ocp_nlp_sqp: data of the current iterate, termination rule, statistics"),
    ("sqp inductive step", Job("SQP, any iteration", "sqp_loop.c", ["-DJUMP", "-DBIG"], 3, cover=False, funcs=("ocp_nlp_sqp", "check_termination")), "ocp_nlp_sqp: every iteration preserves the loop invariant"),
    ("sqp timeout", Job("SQP, time limit", "sqp_loop.c", ["-DJUMP", "-DEST", "-DBIG"], 3, bound="times are multiples of 0.25 up to 64", cover=False), "ocp_nlp_sqp: predicted time per iteration"),
    ("sqp kkt", Job("SQP, residual", "sqp_loop.c", ["-DKKT"], 3, cover=False), "ocp_nlp_sqp_eval_kkt_residual evaluates the given iterate"),
    ("ddp", Job("DDP, up to 2 iterations", "ddp_loop.c", ["-DMAXIT=2"], 5, bound=B2), "ocp_nlp_ddp: data of the current iterate, termination rule, statistics"),
    ("ddp kkt", Job("DDP, residual", "ddp_loop.c", ["-DKKT"], 3, cover=False), "ocp_nlp_ddp_eval_kkt_residual evaluates the given iterate"),
    ("wfqp", Job("SQP_WITH_FEASIBLE_QP, 1 iteration", "wfqp_loop.c", ["-DMAXIT=1"], 4, bound="at most 1 NLP iteration"), "ocp_nlp_sqp_wfqp: fallback QPs, termination rule, statistics"),
    ("wfqp inductive step", Job("SQP_WITH_FEASIBLE_QP, later iterations", "wfqp_loop.c", ["-DMAXIT=2", "-DJUMP"], 4, bound="max_iter at most 2", solver="cadical", cover=False), "ocp_nlp_sqp_wfqp: every iteration preserves the loop invariant"),
    ("wfqp kkt", Job("SQP_WITH_FEASIBLE_QP, residual", "wfqp_loop.c", ["-DKKT"], 3, cover=False), "ocp_nlp_sqp_wfqp_eval_kkt_residual evaluates the given iterate"),
    ("rti", Job("SQP_RTI", "rti_loop.c", ["-DMAXIT=2"], 5, bound="at most 2 advanced-step iterations"), "ocp_nlp_sqp_rti: preparation, feedback, advanced steps"),
    ("rti kkt", Job("SQP_RTI, residual", "rti_loop.c", ["-DKKT"], 3, cover=False), "ocp_nlp_sqp_rti_eval_kkt_residual evaluates the given iterate"),
]
if TIER == "thorough":
    JOBS += [
        ("sqp external residual", Job("SQP, QP residuals, any iteration", "sqp_loop.c", ["-DJUMP", "-DBIG", "-DEXTQP=1"], 3, cover=False), "ocp_nlp_sqp with ext_qp_res"),
        ("ddp 3", Job("DDP, up to 3 iterations", "ddp_loop.c", ["-DMAXIT=3"], 6, bound="at most 3 NLP iterations", cover=False), "ocp_nlp_ddp"),
        ("sqp 3", Job("SQP, up to 3 iterations", "sqp_loop.c", ["-DMAXIT=3"], 5, bound="at most 3 NLP iterations", cover=False), "ocp_nlp_sqp"),
    ]


def only(n):
    o = os.environ.get("VF_ONLY", "")
    return n == o[1:] if o.startswith("=") else o in n


def main():
    chk = Check("C03", "cbmc 6.11.0 (SAT: minisat, cadical) on goto code of the real source, vf/cbmcrun.py",
                trusted=["cbmc", "contracts of the callees in harness/nlp_ghost.h (ghost counters of the iterate each datum belongs to)", "HPIPM/BLASFEO structure layout in stubs/include"],
                assumptions=["calls are instantaneous except in the time limit job (acados_toc returns 0)", "max_iter is at most 100000 in the inductive step",
                             "with RTI the globalization is the fixed step one, which always succeeds, and adaptive Levenberg-Marquardt is off",
                             "the QP solver may return any status and any solution", "tolerances are positive numbers (any floating point value, not NaN)"])
    for f, names in {"ocp_nlp_sqp.c": ["ocp_nlp_sqp", "check_termination", "prepare_qp", "ocp_nlp_sqp_eval_kkt_residual", "log_qp_stats"],
                     "ocp_nlp_ddp.c": ["ocp_nlp_ddp", "check_termination", "ocp_nlp_ddp_eval_kkt_residual", "is_feasible"],
                     "ocp_nlp_sqp_with_feasible_qp.c": ["ocp_nlp_sqp_wfqp", "check_termination", "prepare_and_solve_QP", "calculate_search_direction", "byrd_omojokun_direction_computation", "prepare_feasibility_qp", "prepare_nominal_qp", "ocp_nlp_sqp_wfqp_eval_kkt_residual"],
                     "ocp_nlp_sqp_rti.c": ["ocp_nlp_sqp_rti", "ocp_nlp_sqp_rti_preparation_step", "ocp_nlp_sqp_rti_feedback_step", "ocp_nlp_sqp_rti_preparation_advanced_step", "ocp_nlp_sqp_rti_eval_kkt_residual"]}.items():
        src = open(os.path.join(REPO, "acados/ocp_nlp", f)).read()
        chk.fn(*[f"{f}:{n}" for n in names if n + "(" in src])
    run_tasks(chk, [(n, (lambda rec, j=j, w=w: check(rec, j, w)), None) for n, j, w in JOBS if only(n)])
    return chk.finish(level="proof")

ENGINE = "engine/pbt.cc"
EXC = ["gcs/exception.cc", "gcs/innards/integer_overflow.cc"]

SPECS = {
    "C01": {
        "own": ["checks/c01_integer.cc", ENGINE],
        "repo": EXC + ["gcs/innards/power.cc", "gcs/variable_id.cc"],
    },
}
SPECS["C02"] = {"own": ["checks/c02_interval_set.cc", ENGINE], "repo": EXC + ["gcs/innards/power.cc"]}
SPECS["C03"] = {"own": ["checks/c03_regex.cc", ENGINE], "repo": EXC + ["gcs/innards/power.cc", "gcs/constraints/regular/regex.cc"]}
SPECS["C04"] = {"own": ["checks/c04_s_expr.cc", ENGINE], "repo": EXC + ["gcs/innards/s_expr.cc"]}
SPECS["C06"] = {"own": ["checks/c06_difference.cc", ENGINE], "repo": EXC + ["gcs/constraints/difference/difference_incremental.cc",
    "gcs/constraints/difference/difference_simplify.cc", "gcs/stats.cc", "gcs/constraint.cc"]}
SPECS["C05"] = {"own": ["checks/c05_vocabulary.cc", ENGINE], "repo": EXC + ["gcs/variable_id.cc", "gcs/variable_condition.cc",
    "gcs/innards/literal.cc", "gcs/innards/variable_id_utils.cc", "gcs/constraints/linear/utils.cc",
    "gcs/constraints/innards/task_presence.cc", "gcs/constraint.cc"]}
SPECS["C07"] = {"own": ["checks/c07_reporting.cc", ENGINE], "repo": EXC + ["gcs/restarts.cc", "gcs/stats.cc", "gcs/constraint.cc",
    "gcs/constraints/cumulative/derived_cumulative_stats.cc", "gcs/constraints/difference/difference_simplify.cc"]}
SPECS["C08"] = {"own": ["checks/c08_proof_text.cc", ENGINE], "repo": EXC + ["gcs/innards/power.cc", "gcs/innards/proofs/bits_encoding.cc",
    "gcs/innards/proofs/pol_builder.cc", "gcs/innards/proofs/proof_error.cc", "gcs/innards/proofs/names_and_ids_tracker.cc"]}
SOLVER = ["checks/solver/model.cc", "checks/solver/enumerate.cc", "checks/solver/cat_arith.cc", "checks/solver/cat_linear.cc",
    "checks/solver/cat_count.cc", "checks/solver/cat_ext.cc", "checks/solver/cat_sched.cc", "checks/solver/cat_order.cc", ENGINE]
for _id, _f in [("C10", "c10_arithmetic"), ("C11", "c11_linear"), ("C12", "c12_counting"), ("C13", "c13_extensional"),
        ("C14", "c14_scheduling"), ("C15", "c15_ordering")]:
    SPECS[_id] = {"own": ["checks/" + _f + ".cc"] + SOLVER, "repo": "library"}
for _id, _f in [("C16", "c16_optimisation"), ("C17", "c17_search")]:
    SPECS[_id] = {"own": ["checks/" + _f + ".cc", "checks/solver/presolve.cc"] + SOLVER, "repo": "library"}
SPECS["C18"] = {"own": ["checks/c18_proofs.cc", "checks/solver/presolve.cc", "checks/solver/prove.cc", "checks/proof/pbp.cc"] + SOLVER, "repo": "library"}
SPECS["C19"] = {"own": ["checks/c19_encodings.cc", "checks/solver/prove.cc", "checks/proof/pbp.cc"] + SOLVER, "repo": "library"}
SPECS["C20"] = {"own": ["checks/c20_documents.cc", "checks/frontends/mains.cc", "checks/frontends/scp_main.cc", "checks/solver/prove.cc", "checks/proof/pbp.cc"] + SOLVER, "repo": "library"}
SPECS["C21"] = {"own": ["checks/c21_flatzinc.cc", "checks/frontends/mains.cc", "checks/frontends/fzn_main.cc", "checks/solver/prove.cc", "checks/proof/pbp.cc"] + SOLVER,
    "repo": "library"}
SPECS["C22"] = {"own": ["checks/c22_invalid.cc", ENGINE], "repo": "library"}
SPECS["C23"] = {"own": ["checks/c23_state.cc", ENGINE], "repo": "library"}

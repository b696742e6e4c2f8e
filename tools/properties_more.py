_CORE = ["gcs/innards/propagators.cc", "gcs/innards/state.cc", "gcs/solve.cc", "gcs/search_heuristics.cc"]
_NOTE = ("Random models of up to 4000 assignments, with views, constants, repeated variables, every variant and level of consistency the constraint "
         "offers, and random search strategies, compared with brute force evaluation of the definition; also conjunctions of two to four constraints.")
_OBS = "the solutions reported when all are asked for, compared as a multiset with those of the definition; and the values left at each search node"


def _fam(id, title, what, files, mech, extra=""):
    prop(id, title,
         f"For every model made of {what}, over any domains and with operands that are variables, views, constants, or the same variable more than once, "
         "asking for all solutions reports every assignment that satisfies the documented meaning exactly once and no other, whichever variant, level of "
         "consistency and search order is used. Where a level of consistency is promised, no unsupported value is left at any search node." + extra,
         ["inputs", "configurations"], "for every model of these constraints, every variant of each, and every search order",
         "Each test file samples fixed or a few dozen random instances, mostly over distinct plain variables; propagators have states (caches, watches, "
         "incremental counts) that only matter for particular orders of events and aliasing.",
         files + _CORE, mech + [("propagation queue", "gcs/innards/propagators.cc")], _OBS, _NOTE)


_fam("C10", "Arithmetic constraints have exactly their solutions",
     "sums, differences, products, quotients, remainders, powers, absolute values, minima and maxima",
     ["gcs/constraints/plus_minus/", "gcs/constraints/multiply/", "gcs/constraints/divide_modulus/", "gcs/constraints/power/", "gcs/constraints/abs/",
      "gcs/constraints/min_max/", "gcs/constraints/innards/"],
     [("bounds propagation in stages", "gcs/constraints/innards/"), ("tabulation", "gcs/constraints/innards/tabulation.cc")])
_fam("C11", "Linear, comparison and logical constraints have exactly their solutions",
     "linear equalities and inequalities, comparisons, equalities, logical connectives, parities, networks of differences and nogoods, each possibly conditional on another condition",
     ["gcs/constraints/linear/", "gcs/constraints/comparison/", "gcs/constraints/equals/", "gcs/constraints/logical/", "gcs/constraints/difference/",
      "gcs/constraints/nogoods/", "gcs/constraints/parity/"],
     [("linear propagation", "gcs/constraints/linear/propagate.cc"), ("reification", "gcs/constraints/innards/reified_dispatcher.hh")],
     " A condition that is attached one way only says nothing in the other direction.")
_fam("C12", "Counting constraints have exactly their solutions",
     "all different, counts, occurrences of given values, global cardinality, numbers of distinct values, at most one, all equal and membership of a set",
     ["gcs/constraints/all_different/", "gcs/constraints/among/", "gcs/constraints/count/", "gcs/constraints/global_cardinality/",
      "gcs/constraints/n_value/", "gcs/constraints/at_most_one/", "gcs/constraints/all_equal/", "gcs/constraints/in.hh"],
     [("matching", "gcs/constraints/all_different/"), ("flow", "gcs/constraints/global_cardinality/gac_global_cardinality.cc")])
_fam("C13", "Extensional constraints have exactly their solutions",
     "tables, negative tables, smart tables, regular expressions and automata, decision diagrams, elements of arrays in one or two dimensions, and knapsacks",
     ["gcs/constraints/table/", "gcs/constraints/smart_table/", "gcs/constraints/regular/", "gcs/constraints/mdd/", "gcs/constraints/element/",
      "gcs/constraints/extensional_utils.cc", "gcs/constraints/knapsack/"],
     [("table propagation", "gcs/constraints/extensional_utils.cc"), ("layered graphs", "gcs/constraints/regular/regular.cc")])
_fam("C14", "Scheduling and packing constraints have exactly their solutions",
     "cumulative and disjunctive resources with fixed or variable durations, demands, capacities and optional tasks, rectangles that may not overlap, "
     "bin packing, and minimum distances",
     ["gcs/constraints/cumulative/", "gcs/constraints/disjunctive/", "gcs/constraints/disjunctive_2d/",
      "gcs/constraints/bin_packing/", "gcs/constraints/min_distance/"],
     [("time tables and edge finding", "gcs/constraints/cumulative/"), ("disjunctive reasoning", "gcs/constraints/disjunctive/")])
_fam("C15", "Ordering and permutation constraints have exactly their solutions",
     "increasing sequences, lexicographic orders, value precedence, inverses, sorting, symmetric permutations and circuits",
     ["gcs/constraints/increasing/", "gcs/constraints/lex/", "gcs/constraints/value_precede/", "gcs/constraints/seq_precede_chain/",
      "gcs/constraints/inverse/", "gcs/constraints/sort/", "gcs/constraints/circuit/"],
     [("lexicographic propagation", "gcs/constraints/lex/"), ("circuit propagation", "gcs/constraints/circuit/")])
prop("C16", "Optimising gives improving solutions, ending with an optimal one",
     "When a problem has an objective, every solution given satisfies all the constraints and is strictly better than the one before it; when the search "
     "completes, the last one given is optimal, and none is given exactly when there are none. This holds for objectives that are variables, views, constants "
     "or linked by constraints, for minimising and maximising, whichever search order, restarts and presolvers are used, and the completion callback is "
     "called exactly when the search was exhaustive. Where the search is stopped early the solutions given are still improving solutions.",
     ["inputs", "configurations"], "for every model, objective, direction, search order, restart schedule and presolver",
     "Optimality is a statement about all assignments; the tests optimise a handful of models, and the bound on the objective is enforced by a separate "
     "mechanism at each node, restart and presolve.",
     ["gcs/solve.cc", "gcs/problem.cc", "gcs/innards/propagators.cc", "gcs/presolvers/"],
     [("bound on the objective at each node", "gcs/solve.cc"), ("minimise and maximise", "gcs/problem.cc")],
     "the sequence of solutions given to the solution callback, the completion callback and the statistics",
     "Random models with up to a few thousand assignments; the best value is found by brute force evaluation of the definitions. Objectives include sums.")
prop("C17", "How the search is done does not change which solutions there are",
     "Presolvers (automatic tables, inferred and strengthened resources, difference logic), restarts with learned nogoods, variable and value orders, and "
     "the tuning settings read from the environment never add, lose or repeat a solution. Solving the same problem again gives the same solutions in the same "
     "order with the same statistics. Stopping from a callback or the abort flag gives a prefix of the whole list, no further callback, and no claim of "
     "completion. What a callback can ask about the state (values, bounds, sizes, membership, copies) is consistent with itself and copies do not change.",
     ["inputs", "configurations", "schedules"], "for every model, presolver, restart schedule, search order, setting and point at which the search is stopped",
     "The tests run each presolver on a few models and use the default settings; interactions of presolvers, restarts and incremental propagator state need "
     "particular models and orders of events.",
     ["gcs/presolvers/", "gcs/solve.cc", "gcs/search_heuristics.cc", "gcs/innards/propagators.cc", "gcs/constraints/nogoods/",
      "gcs/constraints/difference/", "gcs/current_state.cc"],
     [("presolvers", "gcs/presolvers/"), ("restarts", "gcs/solve.cc"), ("incremental linear propagation", "gcs/constraints/linear/propagate.cc")],
     "the solutions, callbacks and statistics of solve_with, and what CurrentState answers inside the callbacks",
     "Random models over all constraints with up to a few hundred to a few thousand assignments, compared with brute force; settings by environment variable.")
prop("C18", "Every proof written is a valid proof of what was reported",
     "When a proof is asked for, each step in the proof log follows from the model written beside it and the steps before it under the rules of the proof "
     "format, each solution logged is a solution of the model, and the conclusion the proof states (no solutions, some solution, a pair of bounds, the number "
     "of solutions) is both justified by the steps and what the solver reported. This holds for every constraint, variant, presolver, search order, restart "
     "schedule and assertion level that supports proofs, and writing one never throws or changes the solutions.",
     ["inputs", "configurations"], "for every model, constraint variant, objective, presolver, search order and point at which the search stops",
     "The tests only check proofs when an external checker is installed (here it is not, so nothing checks them), and then over a few instances each.",
     ["gcs/innards/proofs/", "gcs/innards/inference_tracker.hh", "gcs/constraints/", "gcs/presolvers/", "gcs/solve.cc"],
     [("proof logging", "gcs/innards/proofs/proof_logger.cc"), ("model encoding", "gcs/innards/proofs/proof_model.cc"),
      ("justified inference", "gcs/innards/inference_tracker.hh")],
     "the .opb and .pbp files, read by an independent checker of the proof rules, and the callbacks and statistics of the solve",
     "Random models over all constraints; an independent implementation of the pseudo-Boolean proof rules (pol, rup, red, subproofs, deletion, solution "
     "logging, objective bounds, assertions) in checks/proof/pbp.cc.")

prop("C19", "The model written beside a proof says the same as the problem",
     "The pseudo-Boolean model written for a problem is satisfied by exactly the problem's solutions: for each assignment to the problem's variables, and each "
     "value just outside a domain that the bits of a variable could spell, the model can be satisfied with the variables at those values if and only if the "
     "assignment is a solution, and the objective written has the value of the objective there. So a proof about the model is a proof about the problem.",
     ["inputs", "configurations"], "for every model, constraint variant and objective",
     "The tests only compare propagation with the proof of it through an external checker that is not installed, and a proof says nothing of a model that "
     "means something else.",
     ["gcs/innards/proofs/proof_model.cc", "gcs/innards/proofs/names_and_ids_tracker.cc", "gcs/innards/proofs/emit_inequality_to.cc", "gcs/constraints/"],
     [("variable encoding", "gcs/innards/proofs/proof_model.cc"), ("order and equality literals", "gcs/innards/proofs/names_and_ids_tracker.cc"),
      ("each constraint's definition", "gcs/constraints/")],
     "the .opb file and the map from names to variables, read back by an independent reader and solver of pseudo-Boolean formulas",
     "Random models over all constraints, with a small complete search over the auxiliary variables of the model for every assignment.")
prop("C20", "Written problem documents read back as the same problem",
     "The s-expression document written for a problem reads back as a problem with the same variables, names, solutions and objective (up to a constant), and "
     "writing that again gives the same text. A document that has been damaged is either refused with the library's own exception, or is read without any of its "
     "constraints or variables being dropped; reading never crashes or hangs. "
     "The program that solves documents prints exactly the solutions of the problem (one, all, or improving ones that end with the best), and its exit status tells these apart.",
     ["inputs"], "for every model that can be written down, and every damaged document",
     "The tests read a handful of documents and never read what has been written for each constraint with each kind of operand.",
     ["gcs/scp_reader.cc", "gcs/scp_reader.hh", "gcs/constraints/", "gcs/innards/s_expr.cc", "scp/glasgow_scp_solver.cc"],
     [("reading", "gcs/scp_reader.cc"), ("each constraint's s_expr", "gcs/constraints/"), ("writing", "gcs/problem.cc")],
     "the .scp file, what read_scp makes of it, the solutions of that problem, and the .scp file of it",
     "Random models over all constraints, compared with brute force; documents damaged by deleting, repeating, swapping and replacing terms and characters.")

prop("C21", "fzn-glasgow prints exactly what the FlatZinc document asks for",
     "Given a JSON FlatZinc document, the program prints assignments that are solutions under MiniZinc's semantics of every constraint, in the form and for the "
     "items that the document lists: with -a each solution once, without it one, with -n at most that many, and for optimisation ones that improve, of which the last is the "
     "best. It says ========== or =====UNSATISFIABLE===== exactly when the search was finished and that is so, whatever search annotations, restarts, presolving, timeouts "
     "and proof logging are used; the proof it writes is valid and concludes the same. A document that is wrong makes it fail without printing anything as an answer.",
     ["inputs"], "for every document, and every combination of options",
     "The tests need MiniZinc, run a single model for each constraint through one path of the program, and never use most of the options together.",
     ["minizinc/fzn_glasgow.cc"],
     [("reading and posting constraints", "minizinc/fzn_glasgow.cc"), ("search annotations", "minizinc/fzn_glasgow.cc"), ("printing", "minizinc/fzn_glasgow.cc")],
     "the exit status, what is printed, and the proof files, for a document and a command line",
     "Random documents over every constraint id that the program knows, with arrays named or inline, holes, constants, variables given a value and unbounded ones, compared "
     "with brute force over a separate statement of each constraint's meaning; damaged documents.")

prop("C22", "A definition with no meaning is refused, never misread",
     "Giving a constraint, presolver, difference graph or statement arguments that do not go together (arrays of different lengths, a table row that is too short, an automaton with a "
     "transition to a state that does not exist, negative sizes where there must not be any, an empty array where a value is needed, ...) ends in the library's own exception, from the "
     "constructor or when the problem is solved, and never in a crash, an out of bounds access or a set of solutions; the same arguments without the mistake are never refused.",
     ["inputs"], "for every rule, every constraint that has it, and every place and size of the mistake",
     "The tests give a few constraints one wrong argument each, always at the same place; a check that is missing, too strict, or looks at only the first row passes them.",
     ["gcs/constraints/", "gcs/exception.hh", "gcs/problem.cc"],
     [("argument checks", "gcs/constraints/"), ("exceptions", "gcs/exception.hh")],
     "whether posting and solving throws, and the class of the exception",
     "Each rule draws well-formed arguments, and then in half of the cases breaks just that rule at a random place; both sides are checked.")

prop("C23", "The search state is restored exactly, and says exactly what changed",
     "The state of a search behaves as a stack of copies of the variables' sets of values: each inference, by any of its forms and on a plain variable, a view or a constant, "
     "leaves exactly the values it allows and reports exactly whether nothing, an interior value, a bound or everything but one value changed, or that nothing is left; each query answers from "
     "those values; guesses, constraint states, variables and callbacks made since an epoch are undone by backtracking to it, once each, through any number of levels; and a clone is independent.",
     ["histories"], "for every history of inferences, guesses, epochs, backtracks, new variables and constraint states",
     "The tests of the state try a few inferences on one variable; a wrong answer for a negated view, a bound that is not noticed to have moved, or something left behind after going back "
     "several levels only shows up as a wrong solution count in a much larger search.",
     ["gcs/innards/state.cc", "gcs/innards/state.hh"],
     [("inference and queries", "gcs/innards/state.cc"), ("epochs and backtracking", "gcs/innards/state.cc"), ("iteration", "gcs/innards/state.hh")],
     "the return value of every inference and query on a State, and the values iterated over",
     "Random histories against a model that copies sets of values; iteration while the domain is being changed.")

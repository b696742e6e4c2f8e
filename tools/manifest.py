#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, note):
    P.append(({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": [observe]}}, note))


prop("C01", "Integer arithmetic is exact, or reports overflow, and never wraps",
     "Every arithmetic operation on the solver's integers (sums, differences, products, quotients, remainders, powers, roots, absolute values, increments, "
     "parsing and printing) either gives the exact mathematical result or reports an overflow. The derived bound computations for products, squares and "
     "quotients give bounds that contain every possible result and lose no value that has a partner.",
     ["inputs"], "for every pair of 64 bit operands and every pair of boxes of them",
     "The unit tests try a few dozen operand pairs; the claim is about every pair, in particular those next to the ends of the range.",
     ["gcs/integer.hh", "gcs/innards/integer_overflow.cc", "gcs/innards/integer_overflow.hh", "gcs/innards/power.cc", "gcs/innards/power.hh",
      "gcs/constraints/innards/product_bounds.hh"],
     [("checked operators", "gcs/integer.hh"), ("powers and roots", "gcs/innards/power.cc"), ("bounds of products and quotients",
      "gcs/constraints/innards/product_bounds.hh")],
     "the value returned, or the overflow exception, compared with 128 bit arithmetic",
     "Differential test against 128 bit arithmetic over operands biased to the extremes; small boxes are enumerated completely. Trusts the compiler's "
     "128 bit integers.")

prop("C02", "Interval sets and trees behave as the sets of integers they stand for",
     "After any history of insertions, erasures, intersections and other updates, an interval set contains exactly the integers a plain set would, kept as "
     "disjoint, ordered, non-adjacent intervals, and every query and iteration over it agrees with that plain set. An interval tree reports exactly the "
     "stored intervals that answer each containment query.",
     ["histories", "inputs"], "for every sequence of operations the interface allows, over any values in range",
     "Tests follow a few fixed sequences; domains are changed by unbounded histories of splits and merges.",
     ["gcs/interval_set.hh", "gcs/innards/interval_tree.hh"],
     [("interval list updates", "gcs/interval_set.hh"), ("containment tree", "gcs/innards/interval_tree.hh")],
     "membership, bounds, sizes, iteration and query results after each step",
     "Model based test against a plain set of integers (and, at huge values, a sorted list of exact intervals).")

prop("C03", "A regular expression becomes an automaton for exactly its language",
     "A well formed regular expression over integers is turned into an automaton that accepts exactly the sequences the documented grammar says it "
     "matches, for whichever alphabet it is read over. Anything that is not well formed is rejected with an exception rather than misread.",
     ["inputs"], "for every expression of the grammar, every string that is not one, and every sequence over the alphabet",
     "The tests check a handful of expressions; nested operators, counted repetition and negated classes combine in unboundedly many ways.",
     ["gcs/constraints/regular/regex.cc", "gcs/constraints/regular/regex.hh"],
     [("parser and automaton construction", "gcs/constraints/regular/regex.cc")],
     "acceptance of sequences by the automaton produced, and the exception for malformed text",
     "Compared with an independent derivative based matcher and an independent grammar recogniser, over all short sequences.")

prop("C04", "S-expressions survive printing and reading, and malformed text is rejected",
     "Every s-expression that can be written down is read back as an equal one, whatever spacing surrounds it, and its canonical printing is stable. Text "
     "that is not a well formed sequence of terms is rejected.",
     ["inputs"], "for every tree of atoms and lists and every text",
     "The tests use fixed examples of nesting and spacing.",
     ["gcs/innards/s_expr.cc", "gcs/innards/s_expr.hh"], [("reader and writer", "gcs/innards/s_expr.cc")],
     "the terms read, their equality, and their printed form", "Round trips and comparison with an independent reader; nesting up to 400 levels.")

prop("C05", "Models mean what they say: views, conditions, literals and linear sums",
     "A variable shifted by a constant or negated, however often, is worth exactly that, conditions and their negations are exact complements, and linear "
     "sums, their comparisons, negations and simplified forms keep their value under every assignment, or the construction reports an overflow. Array "
     "arguments read and own exactly the data the caller chose to hand over, lend or share, and constraint identities and task presences keep what they "
     "were given.",
     ["inputs", "histories"], "for every expression built with the public operators and every assignment of its variables",
     "The combinations of offsets, signs, constants, repeated variables and extreme values are unbounded; tests have a few of each.",
     ["gcs/variable_id.cc", "gcs/variable_id.hh", "gcs/variable_condition.hh", "gcs/expression.hh", "gcs/constraints/linear/utils.cc",
      "gcs/innards/literal.cc", "gcs/innards/variable_id_utils.hh", "gcs/innards/variable_id_utils.cc", "gcs/array_param.hh", "gcs/constraint_id.hh",
      "gcs/constraints/innards/task_presence.cc", "gcs/constraints/innards/arithmetic_utils.hh", "gcs/exception.cc"],
     [("view arithmetic", "gcs/variable_id.cc"), ("conditions and complements", "gcs/variable_condition.hh"),
      ("linear rewriting", "gcs/expression.hh"), ("tidying linear sums", "gcs/constraints/linear/utils.cc"), ("array ownership", "gcs/array_param.hh")],
     "the value of each expression and the truth of each condition under an assignment, in 128 bit arithmetic",
     "Metamorphic and differential test against exact evaluation under chosen assignments, on and either side of each boundary.")

prop("C06", "Difference systems are simplified and repaired without changing what they say",
     "Simplifying a system of difference inequalities keeps exactly its solutions: what is dropped is implied by what is kept, what is fixed is forced, and "
     "every path given as a justification is genuine. Adding an inequality to a system kept feasible incrementally either leaves a feasible potential, or "
     "reports a cycle whose weights really are negative.",
     ["inputs", "histories"], "for every graph of difference inequalities, every split into conditional and unconditional ones, and every order of activation",
     "Tests have a handful of graphs; the interesting behaviour is in zero weight cycles, parallel edges, and orders of activation.",
     ["gcs/constraints/difference/difference_simplify.cc", "gcs/constraints/difference/difference_simplify.hh",
      "gcs/constraints/difference/difference_incremental.cc", "gcs/constraints/difference/difference_incremental.hh"],
     [("simplification", "gcs/constraints/difference/difference_simplify.cc"), ("incremental feasibility",
      "gcs/constraints/difference/difference_incremental.cc")],
     "the edges kept, removed and fixed, the potentials, and the cycles and paths reported",
     "Compared with all pairs shortest paths computed independently on graphs of up to 8 nodes and 18 edges.")

prop("C07", "Restart cutoffs follow their schedule and statistics report what happened",
     "The cutoffs of a Luby restart schedule are the Luby sequence times the scale, for every position and every copy of the schedule. Every note reported "
     "while solving is kept in order and forwarded at once to the handler of the moment, every component is registered once, and the written report and "
     "the flattened figures show exactly the recorded values.",
     ["inputs", "histories"], "for every scale and position, and every history of notes, registrations and handler changes",
     "Tests check a prefix of the sequence and a few notes.",
     ["gcs/restarts.cc", "gcs/restarts.hh", "gcs/stats.cc", "gcs/stats.hh", "gcs/constraints/cumulative/derived_cumulative_stats.cc",
      "gcs/constraints/difference/difference_simplify.cc"],
     [("Luby schedule", "gcs/restarts.cc"), ("notes and components", "gcs/stats.cc")],
     "the cutoffs returned, the notes and components held, the text written", "Model based test; schedules followed for up to 30000 restarts.")

prop("C08", "Bit vectors hold their bounds, and proof lines say the combination asked for",
     "The bit vector chosen for a variable in a proof represents every value between its bounds, and no bit could be spared; bounds for which none exists "
     "are identified as such. A cutting planes line built step by step evaluates to exactly the combination asked for, and a reference to a proof line "
     "resolves to that line however long the proof has become.",
     ["inputs", "histories"], "for every pair of bounds, every sequence of building steps, and every proof length",
     "Tests list a few bounds and a few lines.",
     ["gcs/innards/proofs/bits_encoding.cc", "gcs/innards/proofs/bits_encoding.hh", "gcs/innards/proofs/pol_builder.cc",
      "gcs/innards/proofs/pol_builder.hh", "gcs/innards/proofs/proof_line.hh"],
     [("bit widths", "gcs/innards/proofs/bits_encoding.cc"), ("cutting planes lines", "gcs/innards/proofs/pol_builder.cc"),
      ("relative references", "gcs/innards/proofs/proof_line.hh")],
     "the coefficients returned, and the text of the line evaluated as a proof checker would",
     "Compared with exact arithmetic, complete enumeration of small domains, and a stack evaluator over random pseudo-Boolean constraints.")

NOT_APPLICABLE = []
NOTES = ""

exec(open(os.path.join(VERIF, "tools", "properties_more.py")).read()) if os.path.exists(os.path.join(VERIF, "tools", "properties_more.py")) else None

NA = {n["property"] for n in NOT_APPLICABLE}
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "python3 tools/setup.py",
        "checks": [{
            "property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} quick", "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": "property-based testing: generated cases against an independent oracle, with shrinking",
            "level": "exploration", "level_note": note} for p, note in P if p["id"] not in NA],
        "not_applicable": NOT_APPLICABLE, "notes": NOTES}, f, indent=1)
    f.write("\n")

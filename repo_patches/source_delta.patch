From 838530246b45938cd0e2f3045a3ecf6205601c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 01/55] fix: IntervalSet::insert_at_end at the current upper
 bound stored overlapping intervals

---
 gcs/interval_set.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gcs/interval_set.hh b/gcs/interval_set.hh
index 42e32df..3be0d31 100644
--- a/gcs/interval_set.hh
+++ b/gcs/interval_set.hh
@@ -350,12 +350,7 @@ namespace gcs
          */
         auto insert_at_end(Int_ value) -> void
         {
-            if (intervals.empty())
-                intervals.emplace_back(value, value);
-            else if (intervals.back().second == value - Int_(1))
-                intervals.back().second++;
-            else
-                intervals.emplace_back(value, value);
+            insert_at_end(value, value);
         }
 
         /**
@@ -372,8 +367,11 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(lower, upper);
-            else if (intervals.back().second == lower - Int_(1))
-                intervals.back().second = upper;
+            else if (intervals.back().second >= lower - Int_(1)) {
+                // Touching, or starting at our upper bound, which is allowed.
+                if (upper > intervals.back().second)
+                    intervals.back().second = upper;
+            }
             else
                 intervals.emplace_back(lower, upper);
         }
-- 
2.43.0


From 98dad88228dbe787fe4a1a4b1e4e63f116bb4709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 02/55] fix: an out of range integer in a regular expression
 wrapped around rather than being rejected

---
 gcs/constraints/regular/regex.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index 75d057f..4bc4996 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -1,5 +1,6 @@
 #include <gcs/constraints/regular/regex.hh>
 #include <gcs/exception.hh>
+#include <gcs/innards/integer_overflow.hh>
 
 #include <cstddef>
 #include <map>
@@ -13,6 +14,8 @@
 
 using gcs::Integer;
 using gcs::InvalidProblemDefinitionException;
+using gcs::innards::add_overflows;
+using gcs::innards::mul_overflows;
 
 using std::make_unique;
 using std::map;
@@ -72,7 +75,8 @@ namespace
             if (c >= '0' && c <= '9') {
                 long long value = 0;
                 while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
-                    value = value * 10 + (s[i] - '0');
+                    if (mul_overflows(value, 10LL, &value) || add_overflows(value, static_cast<long long>(s[i] - '0'), &value))
+                        throw InvalidProblemDefinitionException("Integer in regular expression is out of range");
                     ++i;
                 }
                 tokens.push_back({Tok::Integer, Integer{value}});
-- 
2.43.0


From 67e1f67f5f9f82a11a672c15ba9aac37fe6a2df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 03/55] fix: a regular expression class range ending at the
 largest integer overflowed

---
 gcs/constraints/regular/regex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index 4bc4996..fc5d16b 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -348,8 +348,9 @@ namespace
                     auto to = expect(Tok::Integer, "an integer after '-' in a class").value;
                     if (to < from)
                         std::swap(from, to);
-                    for (auto val = from; val <= to; ++val)
+                    for (auto val = from; val < to; ++val)
                         items.insert(val);
+                    items.insert(to);
                 }
                 else
                     items.insert(from);
-- 
2.43.0


From 91c0bca0ba91a883f3db09ed6a1a1ba3a233217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 04/55] fix: define variable_order::with_largest_value, which
 was declared and documented but had no definition

---
 gcs/search_heuristics.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gcs/search_heuristics.cc b/gcs/search_heuristics.cc
index bcf9c0e..211167c 100644
--- a/gcs/search_heuristics.cc
+++ b/gcs/search_heuristics.cc
@@ -284,6 +284,19 @@ auto gcs::variable_order::with_smallest_value(vector<IntegerVariableID> vars) ->
         });
 }
 
+auto gcs::variable_order::with_largest_value(const Problem & problem) -> BranchVariableHeuristic
+{
+    return with_largest_value(problem.all_normal_variables());
+}
+
+auto gcs::variable_order::with_largest_value(vector<IntegerVariableID> vars) -> BranchVariableHeuristic
+{
+    return variable_order::in_order_of(
+        vars, [](const CurrentState & state, const innards::Propagators &, const IntegerVariableID & a, const IntegerVariableID & b) {
+            return state.upper_bound(a) > state.upper_bound(b);
+        });
+}
+
 namespace
 {
     auto random_value_generator(shared_ptr<mt19937> rand) -> BranchValueGenerator
-- 
2.43.0


From fd4a1ec6d0bb73faceddd7c518521ebd177cd1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 05/55] fix: refined variable weightings asked a wiped-out
 domain for its bounds when scoring a conflict

---
 gcs/variable_weighting.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcs/variable_weighting.cc b/gcs/variable_weighting.cc
index d60fee1..c33bd8a 100644
--- a/gcs/variable_weighting.cc
+++ b/gcs/variable_weighting.cc
@@ -213,16 +213,18 @@ RefinedWeighting::RefinedWeighting(const Propagators & propagators, const State
 auto RefinedWeighting::note_conflict(
     int constraint_index, const vector<SimpleIntegerVariableID> & scope, const optional<Reason> &, const State & state) -> void
 {
+    // The variable whose domain was wiped out by this conflict has no bounds to
+    // look at, so ask for sizes: it is not fixed, and it counts as a future one.
     long long futures = 0;
     for (const auto & v : scope)
-        if (! state.has_single_value(v))
+        if (state.domain_size(v) != 1_i)
             ++futures;
     if (futures == 0)
         return;
 
     auto & weights = _local_weights[constraint_index];
     for (const auto & x : scope) {
-        if (state.has_single_value(x))
+        if (state.domain_size(x) == 1_i)
             continue;
         double increment = 0.0;
         switch (_variant) {
-- 
2.43.0


From 9981a95bd849be694709ce509b0db32063d36eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 06/55] fix: smart table propagation mixed up the values of
 views and of their underlying variables

---
 gcs/constraints/smart_table/smart_table.cc | 64 +++++++++++++---------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index 06b6e4e..e3e2116 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -132,7 +132,7 @@ namespace
         overloaded{
             [&](ConstantIntegerVariableID) -> void { throw UnimplementedException{}; }, //
             [&](ViewOfIntegerVariableID v) -> void {
-                auto mod_vec = vector<Integer>(vdom[v.actual_variable].size(), 0_i);
+                auto mod_vec = vector<Integer>(vec.size(), 0_i);
                 for (unsigned i = 0; i < vec.size(); i++) {
                     mod_vec[i] = (v.negate_first ? -1_i : 1_i) * (vec[i] - v.then_add);
                 }
@@ -186,10 +186,10 @@ namespace
                     copy_if(dom_1, back_inserter(new_dom_1), [&](Integer val) { return val < dom_2[dom_2.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) >= (dom_1[0] + 1_i), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 >= (dom_1[0] + 1_i), state, inference,
                                 singleton_reason(binary_entry.var_1 >= dom_1[0]));
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) < dom_2[dom_2.size() - 1], state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 < dom_2[dom_2.size() - 1], state, inference,
                                 singleton_reason(binary_entry.var_2 < dom_2[dom_2.size() - 1] + 1_i));
                     }
                     break;
@@ -198,10 +198,10 @@ namespace
                     copy_if(dom_1, back_inserter(new_dom_1), [&](Integer val) { return val <= dom_2[dom_2.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) >= (dom_1[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 >= (dom_1[0]), state, inference,
                                 singleton_reason(binary_entry.var_1 >= dom_1[0]));
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) < (dom_2[dom_2.size() - 1] + 1_i), state,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 < (dom_2[dom_2.size() - 1] + 1_i), state,
                                 inference, singleton_reason(binary_entry.var_2 < dom_2[dom_2.size() - 1] + 1_i));
                     }
                     break;
@@ -215,7 +215,7 @@ namespace
                             vector<Integer> discarded_dom1;
                             set_difference(dom_1, dom_2, back_inserter(discarded_dom1));
                             for (const auto & val : discarded_dom1) {
-                                log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) != val, state, inference,
+                                log_filtering_inference(logger, tuple_selector, binary_entry.var_1 != val, state, inference,
                                     singleton_reason(binary_entry.var_2 != val));
                             }
                         }
@@ -224,7 +224,7 @@ namespace
                             vector<Integer> discarded_dom2;
                             set_difference(dom_2, dom_1, back_inserter(discarded_dom2));
                             for (const auto & val : discarded_dom2) {
-                                log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) != val, state, inference,
+                                log_filtering_inference(logger, tuple_selector, binary_entry.var_2 != val, state, inference,
                                     singleton_reason(binary_entry.var_1 != val));
                             }
                         }
@@ -235,7 +235,7 @@ namespace
                         new_dom_1 = dom_1;
                         set_difference(dom_2, dom_1, back_inserter(new_dom_2));
                         if (logger && new_dom_2.size() < dom_2.size() && logger->get_assertion_level() == AssertionLevel::Off) {
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) != (dom_1[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 != (dom_1[0]), state, inference,
                                 singleton_reason(binary_entry.var_1 == dom_1[0]));
                         }
                     }
@@ -243,7 +243,7 @@ namespace
                         new_dom_2 = dom_2;
                         set_difference(dom_1, dom_2, back_inserter(new_dom_1));
                         if (logger && new_dom_1.size() < dom_1.size() && logger->get_assertion_level() == AssertionLevel::Off) {
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) != (dom_2[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 != (dom_2[0]), state, inference,
                                 singleton_reason(binary_entry.var_2 == dom_2[0]));
                         }
                     }
@@ -257,10 +257,10 @@ namespace
                     copy_if(dom_2, back_inserter(new_dom_2), [&](Integer val) { return val < dom_1[dom_1.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) >= (dom_2[0] + 1_i), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 >= (dom_2[0] + 1_i), state, inference,
                                 singleton_reason(binary_entry.var_2 >= dom_2[0]));
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) < dom_1[dom_1.size() - 1], state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 < dom_1[dom_1.size() - 1], state, inference,
                                 singleton_reason(binary_entry.var_1 < dom_1[dom_1.size() - 1] + 1_i));
                     }
                     break;
@@ -269,10 +269,10 @@ namespace
                     copy_if(dom_2, back_inserter(new_dom_2), [&](Integer val) { return val <= dom_1[dom_1.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) >= (dom_2[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 >= (dom_2[0]), state, inference,
                                 singleton_reason(binary_entry.var_2 >= dom_2[0]));
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) < (dom_1[dom_1.size() - 1] + 1_i), state,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 < (dom_1[dom_1.size() - 1] + 1_i), state,
                                 inference, singleton_reason(binary_entry.var_1 < dom_1[dom_1.size() - 1] + 1_i));
                     }
                     break;
@@ -375,18 +375,21 @@ namespace
                 // Collect supported vals for this tree
                 overloaded{
                     [&](const BinaryEntry & binary_entry) {
-                        auto supported_var_1 = get_for_actual_var(supported_by_tree, binary_entry.var_1);
-                        auto supported_var_2 = get_for_actual_var(supported_by_tree, binary_entry.var_2);
-                        remove_supported(unsupported, binary_entry.var_1, supported_var_1);
-                        remove_supported(unsupported, binary_entry.var_2, supported_var_2);
+                        auto var_1 = deview(binary_entry.var_1), var_2 = deview(binary_entry.var_2);
+                        auto supported_var_1 = get_for_actual_var(supported_by_tree, var_1);
+                        auto supported_var_2 = get_for_actual_var(supported_by_tree, var_2);
+                        remove_supported(unsupported, var_1, supported_var_1);
+                        remove_supported(unsupported, var_2, supported_var_2);
                     }, //
                     [&](const UnarySetEntry & unary_set_entry) {
-                        auto supported = get_for_actual_var(supported_by_tree, unary_set_entry.var);
-                        remove_supported(unsupported, unary_set_entry.var, supported);
+                        auto var = deview(unary_set_entry.var);
+                        auto supported = get_for_actual_var(supported_by_tree, var);
+                        remove_supported(unsupported, var, supported);
                     }, //
                     [&](const UnaryValueEntry & unary_val_entry) {
-                        auto supported = get_for_actual_var(supported_by_tree, unary_val_entry.var);
-                        remove_supported(unsupported, unary_val_entry.var, supported);
+                        auto var = deview(unary_val_entry.var);
+                        auto supported = get_for_actual_var(supported_by_tree, var);
+                        remove_supported(unsupported, var, supported);
                     } //
                 }
                     .visit(edge);
@@ -401,11 +404,11 @@ namespace
         for (const auto & entry : tuple) {
             overloaded{
                 [&](const BinaryEntry & binary_entry) {
-                    vars_in_tuple.emplace_back(binary_entry.var_1);
-                    vars_in_tuple.emplace_back(binary_entry.var_2);
-                },                                                                                                //
-                [&](const UnarySetEntry & unary_set_entry) { vars_in_tuple.emplace_back(unary_set_entry.var); },  //
-                [&](const UnaryValueEntry & unary_val_entry) { vars_in_tuple.emplace_back(unary_val_entry.var); } //
+                    vars_in_tuple.emplace_back(deview(binary_entry.var_1));
+                    vars_in_tuple.emplace_back(deview(binary_entry.var_2));
+                },                                                                                                        //
+                [&](const UnarySetEntry & unary_set_entry) { vars_in_tuple.emplace_back(deview(unary_set_entry.var)); },  //
+                [&](const UnaryValueEntry & unary_val_entry) { vars_in_tuple.emplace_back(deview(unary_val_entry.var)); } //
             }
                 .visit(entry);
         }
@@ -873,9 +876,16 @@ auto SmartTable::install_propagators(Propagators & propagators) -> void
 
     vector<Forest> forests = build_forests(_tuples);
 
+    // Filtering works with the values of underlying variables: a variable that is
+    // named more than once, perhaps through different views, only has one domain.
+    vector<IntegerVariableID> vars;
+    for (const auto & v : _vars)
+        if (auto underlying = deview(v); std::find(vars.begin(), vars.end(), underlying) == vars.end())
+            vars.push_back(underlying);
+
     propagators.install(
         constraint_id(),
-        [selectors = _selectors, vars = _vars, tuples = move(_tuples), forests = move(forests), pb_selectors = move(_pb_selectors),
+        [selectors = _selectors, vars = move(vars), tuples = move(_tuples), forests = move(forests), pb_selectors = move(_pb_selectors),
             short_reasons = _short_reasons,
             owner = constraint_id()](const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
             auto reason = eager_reason(generic_reason(vars), state);
-- 
2.43.0


From 5abe8f682e5059ceaae1c862e74813e671fa4dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 07/55] fix: array min and max threw when the result shares a
 variable with the array

---
 gcs/constraints/min_max/min_max.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/min_max/min_max.cc b/gcs/constraints/min_max/min_max.cc
index 870f9f8..169b1cf 100644
--- a/gcs/constraints/min_max/min_max.cc
+++ b/gcs/constraints/min_max/min_max.cc
@@ -144,8 +144,11 @@ auto ArrayMinMax::install_propagators(Propagators & propagators) -> void
                 }
             }
 
+            // If the result shares its underlying variable with one of vars, removing
+            // unsupported values above can take away the support for values that had
+            // already been checked. We will be called again to remove those.
             if (! support_1)
-                throw UnexpectedException{"missing support, bug in MinMaxArray propagator"};
+                return PropagatorState::Enable;
             else if (! support_2) {
                 // no, there's only a single var left that has any intersection with result. so, that
                 // variable has to lose any values not present in result.
-- 
2.43.0


From f3be97c7c3ff4365daa98d7e782337bb067d0444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 08/55] fix: all_equal could disable itself before its only
 remaining value had reached every variable

---
 gcs/constraints/all_equal/all_equal.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gcs/constraints/all_equal/all_equal.cc b/gcs/constraints/all_equal/all_equal.cc
index 23fb22a..f169adc 100644
--- a/gcs/constraints/all_equal/all_equal.cc
+++ b/gcs/constraints/all_equal/all_equal.cc
@@ -133,13 +133,14 @@ auto AllEqual::install_propagators(Propagators & propagators) -> void
                 }
             }
 
-            // Entailed once any var is single-valued: the chain equalities will
-            // have propagated that value to every other var (or contradicted),
-            // so further calls have nothing to do.
-            if (state.has_single_value(vars[0]))
-                return PropagatorState::DisableUntilBacktrack;
-
-            return PropagatorState::Enable;
+            // Entailed once every var is fixed to the same value. It is not enough
+            // for one var to be single-valued: the bounds step above may have fixed
+            // it by leaving it only one value between lo and hi, without that value
+            // having reached the other vars yet.
+            for (const auto & v : vars)
+                if (state.bounds(v) != std::pair{lo, lo})
+                    return PropagatorState::Enable;
+            return PropagatorState::DisableUntilBacktrack;
         },
         triggers);
 }
-- 
2.43.0


From aca450205403f638c82b218b2af3a89d64a0d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 09/55] fix: refined watches were not fired for inferences in a
 propagation round with idempotence claims

---
 gcs/innards/propagators.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gcs/innards/propagators.cc b/gcs/innards/propagators.cc
index ad66471..d74b45a 100644
--- a/gcs/innards/propagators.cc
+++ b/gcs/innards/propagators.cc
@@ -622,12 +622,7 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
-    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
-        if (v.index < _imp->iv_triggers.size())
-            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
-                if (mask & (1 << to_underlying(inf)))
-                    enqueue_if_idle(p);
-
+    auto fire_refined_watches = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         // Refined watches: fire any whose literal is now entailed, delivering the
         // payload to its owner and consuming the watch. A watch is only tested when
         // the current inference granularity is in its trigger_mask -- e.g. an `x==v`
@@ -655,19 +650,31 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
+    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
+        if (v.index < _imp->iv_triggers.size())
+            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
+                if (mask & (1 << to_underlying(inf)))
+                    enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
+    };
+
     // A run that claimed idempotence must not be re-woken by any inference it
     // had already seen (everything recorded up to its run's end, its own
     // inferences included): the round-boundary replay uses this variant, with
     // claim_protected flagging the claimants whose runs ended after the
     // inference being replayed, when (and only when) the round produced
     // claims -- the plain requeue above keeps the claim-free hot path free of
-    // the extra load. Refined watches are consumed on their first fire in the
-    // requeue above, so this coarse-only replay does not re-fire them.
+    // the extra load. A refined watch has to be fired whether or not its owner
+    // has claimed anything: it is how the owner learns which literals have become
+    // entailed, and nothing else will notice this inference later on.
     auto requeue_unless_already_seen = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         if (v.index < _imp->iv_triggers.size())
             for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
                 if ((mask & (1 << to_underlying(inf))) && ! _imp->claim_protected[p])
                     enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
     };
 
     // A contradiction or an abort ends a round without replaying it, so a
-- 
2.43.0


From 6db6c0d6de0c522046167c13cf09e707cdd75fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 10/55] fix: a linear equality whose terms all cancel was
 satisfied by any non-negative total

---
 gcs/constraints/linear/propagate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/linear/propagate.cc b/gcs/constraints/linear/propagate.cc
index 18ecd7a..3e0a909 100644
--- a/gcs/constraints/linear/propagate.cc
+++ b/gcs/constraints/linear/propagate.cc
@@ -211,7 +211,7 @@ auto gcs::innards::propagate_linear(const auto & coeff_vars, Integer value, cons
     // need to check the empty sum case somewhere, because we only get a contradiction
     // by inferring a specific variable has to take a value that it can't
     if (coeff_vars.terms.empty()) {
-        if (! (0_i <= value)) {
+        if (equality ? (value != 0_i) : (value < 0_i)) {
             inference.contradiction(
                 logger, JustifyUsingRUP{hint}, linear_bounds_reason(inference.want_reasons(), coeff_vars, bounds, nullopt, false, add_to_reason));
         }
-- 
2.43.0


From 5e8e6d79d53aaa0a371e21293af945ae70701ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 11/55] fix: inverse with different starting indices gave its
 all-different the wrong set of values

---
 gcs/constraints/inverse/inverse.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gcs/constraints/inverse/inverse.cc b/gcs/constraints/inverse/inverse.cc
index b732c7c..c6ad514 100644
--- a/gcs/constraints/inverse/inverse.cc
+++ b/gcs/constraints/inverse/inverse.cc
@@ -115,7 +115,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
     triggers.on_change.insert(triggers.on_change.end(), _y.begin(), _y.end());
 
     if (_x_value_am1s) {
-        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer x_start, const State &, auto &, ProofLogger * const logger,
+        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer y_start, const State &, auto &, ProofLogger * const logger,
                               const auto & map) {
             // recover_am1 requires at least two atoms; with one variable
             // the at-most-one is trivially true and the map is never read
@@ -123,7 +123,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             // single variable).
             if (x.size() < 2)
                 return;
-            for (Integer v = x_start; v < x_start + Integer(x.size()); ++v) {
+            for (Integer v = y_start; v < y_start + Integer(x.size()); ++v) {
                 // make an am1 for x[i] = v
                 vector<IntegerVariableCondition> xieqvs;
                 for (const auto & var : x)
@@ -136,11 +136,11 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             }
         };
 
-        propagators.install_initialiser([x = _x, x_start = _x_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
+        propagators.install_initialiser([x = _x, y_start = _y_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
                                             const State & state, auto & inference, ProofLogger * const logger) -> void {
             if (! logger || logger->get_assertion_level() > AssertionLevel::Off)
                 return;
-            build_am1s(x, x_start, state, inference, logger, x_value_am1s);
+            build_am1s(x, y_start, state, inference, logger, x_value_am1s);
         });
     }
     else {
@@ -148,9 +148,10 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
         _x_value_am1s = make_shared<map<Integer, ProofLine>>();
     }
 
+    // The values x can take are the indices into y, so they start from y_start.
     vector<Integer> x_values;
-    for (const auto & [i, _] : enumerate(_x))
-        x_values.push_back(Integer(i) + _x_start);
+    for (const auto & [i, _] : enumerate(_y))
+        x_values.push_back(Integer(i) + _y_start);
 
     propagators.install(
         constraint_id(),
-- 
2.43.0


From 2abd6d9ab6b9d82843ab0c94e6268df8f82a8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 12/55] fix: value-consistent all_different ignored constants
 and variables that were fixed when it was posted

---
 gcs/constraints/all_different/all_different.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/all_different/all_different.cc b/gcs/constraints/all_different/all_different.cc
index 66f53b3..c20240a 100644
--- a/gcs/constraints/all_different/all_different.cc
+++ b/gcs/constraints/all_different/all_different.cc
@@ -122,10 +122,11 @@ auto AllDifferent::prepare(Propagators &, State & initial_state, ProofModel * co
     // enough for staging to pay. Skipped otherwise: an unused constraint
     // state would still be saved and restored at every search node.
     if (holds_alternative<consistency::VC>(_level) || _gac_staged) {
+        // Variables that are already fixed, and constants, have to be included: the
+        // pass has not yet pushed their values through the clique.
         NonGacAllDifferentUnassigned unassigned{};
         for (auto & var : _sanitised_vars)
-            if (! initial_state.has_single_value(var))
-                unassigned.push_back(var);
+            unassigned.push_back(var);
         _unassigned_handle = initial_state.add_constraint_state(unassigned);
     }
 
-- 
2.43.0


From cc4aa46130da8519a83e5ba4127b34523b53c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 13/55] fix: cumulative with its time table turned off could
 accept overloaded schedules

---
 gcs/constraints/cumulative/cumulative.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index a90bfaa..6db4e28 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -1335,7 +1335,13 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                 mand_load[(t - t_lo).raw_value] += hlb(i);
     }
 
-    for (auto idx = 0; rules.time_table && idx < range; ++idx)
+    // Turning rules off must not change the solutions, so the overflow check
+    // still has the last word once every task is settled.
+    auto check_profile = rules.time_table || std::ranges::all_of(active_tasks, [&](auto i) {
+        return is_absent(i) || (is_present(i) && state.has_single_value(starts[i]) && llb(i) == lub(i));
+    });
+
+    for (auto idx = 0; check_profile && idx < range; ++idx)
         if (mand_load[idx] > capacity) {
             auto violating_t = t_lo + Integer{idx};
 
-- 
2.43.0


From 5e298df76cefc8db85a3e4eedf3cc382cf5164f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 14/55] fix: a half-reified linear equality on a false literal
 was enforced as its negation

---
 gcs/constraints/linear/linear_equality.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/linear/linear_equality.cc b/gcs/constraints/linear/linear_equality.cc
index 8c3e4c4..3bb3cc8 100644
--- a/gcs/constraints/linear/linear_equality.cc
+++ b/gcs/constraints/linear/linear_equality.cc
@@ -503,12 +503,25 @@ LinearEquality::LinearEquality(WeightedSum coeff_vars, Integer value) : ReifiedL
 
 namespace
 {
+    // A half reification on a false literal says nothing at all, which is not the
+    // same as the constraint having to be violated, so those get a condition that
+    // can never be met.
     template <typename T_>
     auto literal_to_reif(const Literal & cond) -> ReificationCondition
     {
         return overloaded{
-            [&](const TrueLiteral &) -> ReificationCondition { return reif::MustHold{}; },          //
-            [&](const FalseLiteral &) -> ReificationCondition { return reif::MustNotHold{}; },      //
+            [&](const TrueLiteral &) -> ReificationCondition {
+                if constexpr (is_same_v<T_, reif::NotIf>)
+                    return reif::MustNotHold{};
+                else
+                    return reif::MustHold{};
+            }, //
+            [&](const FalseLiteral &) -> ReificationCondition {
+                if constexpr (is_same_v<T_, reif::Iff>)
+                    return reif::MustNotHold{};
+                else
+                    return T_{0_c == 1_i};
+            },                                                                                      //
             [&](const IntegerVariableCondition & cond) -> ReificationCondition { return T_{cond}; } //
         }
             .visit(cond);
-- 
2.43.0


From db7333899e17d488285df61baf06fa3dd3cf679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 15/55] fix: GAC global cardinality did not sort the cover
 values its propagator relies on being sorted

---
 .../global_cardinality/global_cardinality.cc           | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index 09e020b..da88f63 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -70,8 +70,7 @@ auto GlobalCardinality::clone() const -> unique_ptr<Constraint>
 {
     auto cloned = make_unique<GlobalCardinality>(_vars, _values, _counts);
     cloned->with_consistency(_level).with_closed(_closed);
-    if (holds_alternative<consistency::BC>(_level))
-        cloned->sort_cover_values();
+    cloned->sort_cover_values();
     return cloned;
 }
 
@@ -121,16 +120,11 @@ auto GlobalCardinality::install_propagators(Propagators & propagators) -> void
     // the disjunction. This is also what lets the GAC propagator hand it the
     // no-cover-value-left case rather than raising an unjustified contradiction.
     if (_closed) {
-        // sort_cover_values() only runs on the BC path, so sort a copy rather
-        // than assume _values is ordered.
-        auto sorted_cover = _values;
-        sort(sorted_cover);
-
         Triggers closed_triggers;
         closed_triggers.on_change.insert(closed_triggers.on_change.end(), _vars.begin(), _vars.end());
         propagators.install(
             constraint_id(),
-            [vars = _vars, cover = sorted_cover, owner = constraint_id()](
+            [vars = _vars, cover = _values, owner = constraint_id()](
                 const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
                 for (const auto & var : vars) {
                     vector<pair<Integer, Integer>> runs;
-- 
2.43.0


From ea66ce26ee14d54dc3c9426d8578e089a55bba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 16/55] fix: among could stop propagating while an inference it
 had just made still mattered to its own count

---
 gcs/constraints/among/among.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/among/among.cc b/gcs/constraints/among/among.cc
index 05eb298..7d56458 100644
--- a/gcs/constraints/among/among.cc
+++ b/gcs/constraints/among/among.cc
@@ -94,6 +94,25 @@ auto Among::install_propagators(Propagators & propagators) -> void
     triggers.on_change.insert(triggers.on_change.end(), _vars.begin(), _vars.end());
     triggers.on_bounds.emplace_back(_how_many);
 
+    // if the same underlying variable appears more than once (with how_many being
+    // in the array, or through different views), then an inference we make can
+    // change a count that we have already worked out, and we mustn't conclude that
+    // we are done from that count
+    map<SimpleIntegerVariableID, IntegerVariableID> first_use;
+    bool all_distinct = true;
+    auto see = [&](const IntegerVariableID & var, bool repeat_allowed) {
+        auto [actual, negate_first, then_add] = state_detail::deview(var);
+        if (auto simple = std::get_if<SimpleIntegerVariableID>(&actual)) {
+            auto [where, is_new] = first_use.emplace(*simple, var);
+            if (! is_new && ! (repeat_allowed && where->second == var))
+                all_distinct = false;
+        }
+    };
+    for (const auto & var : _vars)
+        see(var, true);
+    see(_how_many, false);
+    auto when_done = all_distinct ? PropagatorState::DisableUntilBacktrack : PropagatorState::Enable;
+
     // for proof logging, we're going to need at-most-one constraints over the
     // values of interest for each variable. compute these once and remember
     // them.
@@ -117,7 +136,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
 
     propagators.install(
         constraint_id(),
-        [vars = _vars, values_of_interest = _values_of_interest, how_many = _how_many, sum_line = _sum_line, am1_lines = am1_lines,
+        [vars = _vars, values_of_interest = _values_of_interest, how_many = _how_many, sum_line = _sum_line, am1_lines = am1_lines, when_done,
             owner = constraint_id()](const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
             // partition variables to be 1) those that must not match, 2) those that must match, and 3) those
             // where they might match but don't have to.
@@ -236,7 +255,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                 // now every variable is set in a way that either must
                 // match or must not match, and the count is fixed, so
                 // we'll never propagate anything again
-                return PropagatorState::DisableUntilBacktrack;
+                return when_done;
             }
 
             if (must_match_count + can_be_either_count == at_least_how_many) {
@@ -290,7 +309,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                     // now every variable is set in a way that either must
                     // match or must not match, and the count is fixed, so
                     // we'll never propagate anything again
-                    return PropagatorState::DisableUntilBacktrack;
+                    return when_done;
                 }
             }
 
-- 
2.43.0


From f459574c74c5d56cee2660fed4dfc1b1e897a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 17/55] fix: power could throw an overflow where an extreme
 power of the base is tested against a view

---
 gcs/constraints/power/power.cc       | 9 +++++++--
 gcs/constraints/power/power_table.cc | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/power/power.cc b/gcs/constraints/power/power.cc
index 39936b9..be8f307 100644
--- a/gcs/constraints/power/power.cc
+++ b/gcs/constraints/power/power.cc
@@ -214,9 +214,14 @@ auto Power::prepare(Propagators & propagators, State & initial_state, ProofModel
         determined.push_back({*a3.var, [a1, a3, k, px](const vector<Integer> & vals) -> optional<Integer> {
                                   auto xv = a1.coeff * vals[px] + a1.offset;
                                   auto want = checked_integer_power(xv, k);
-                                  if ((! want) || (*want - a3.offset) % a3.coeff != 0_i)
+                                  // the coefficient is one or minus one, and an extreme power might
+                                  // not be a value the underlying variable could represent at all
+                                  Integer val = 0_i;
+                                  if ((! want) ||
+                                      (a3.coeff < 0_i ? sub_overflows(a3.offset.raw_value, want->raw_value, &val.raw_value)
+                                                      : sub_overflows(want->raw_value, a3.offset.raw_value, &val.raw_value)))
                                       return nullopt;
-                                  return (*want - a3.offset) / a3.coeff;
+                                  return val;
                               }});
 
     if (want_tabulation(_level, enum_vars.vars(), determined, initial_state)) {
diff --git a/gcs/constraints/power/power_table.cc b/gcs/constraints/power/power_table.cc
index 9fea696..4a84ad9 100644
--- a/gcs/constraints/power/power_table.cc
+++ b/gcs/constraints/power/power_table.cc
@@ -32,13 +32,16 @@ auto PowerTable::prepare(Propagators & propagators, State & initial_state, Proof
 {
     // Delegates entirely to a materialised Table over the reachable triples, which
     // is why this reads the initial domains here.
+    // Check the bounds before asking about the domain: an extreme power might not be
+    // a value we can translate into the underlying variable when result is a view.
+    auto [result_lo, result_hi] = initial_state.bounds(_result);
     vector<vector<Integer>> permitted;
     for (const auto & v1 : initial_state.each_value_immutable(_base))
         for (const auto & v2 : initial_state.each_value_immutable(_exponent)) {
             if (! initial_state.in_domain(_exponent, v2))
                 continue;
             auto r = checked_integer_power(v1, v2);
-            if (r && initial_state.in_domain(_result, *r))
+            if (r && *r >= result_lo && *r <= result_hi && initial_state.in_domain(_result, *r))
                 permitted.push_back(vector{v1, v2, *r});
         }
 
-- 
2.43.0


From 01da4ee3e3192c5053a55193282b7a7db7cc80e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 18/55] fix: AutoTable searched its subproblem before any
 propagation at the root

---
 gcs/presolvers/auto_table/auto_table.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gcs/presolvers/auto_table/auto_table.cc b/gcs/presolvers/auto_table/auto_table.cc
index d0d1041..6b6b86f 100644
--- a/gcs/presolvers/auto_table/auto_table.cc
+++ b/gcs/presolvers/auto_table/auto_table.cc
@@ -121,6 +121,12 @@ auto AutoTable::run(Problem & problem, Propagators & propagators, State & initia
     // callback once and reuse it down the subproblem recursion.
     auto branch_callback = branch_with(variable_order::dom_then_deg(_vars), value_order::smallest_first())(problem, initial_state, propagators);
 
+    // We are the first to propagate, and some propagators keep state that must be
+    // set up at the root, above any decision: so reach the root fixed point before
+    // the subproblem search opens a level. It can also refute the problem outright.
+    if (! propagators.propagate({}, initial_state, logger))
+        return false;
+
     auto timestamp = initial_state.new_epoch(true);
     initial_state.guess(TrueLiteral{});
 
-- 
2.43.0


From bb56d5879caf5c3424eb5b47d2f005ed62e6cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 19/55] fix: each_bit kept a reference to a temporary when
 given anything but its own variant type

---
 gcs/innards/proofs/names_and_ids_tracker.cc | 2 +-
 gcs/innards/proofs/names_and_ids_tracker.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index bfb8ccc..7e804d9 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -672,7 +672,7 @@ auto NamesAndIDsTracker::negative_bit_coefficient(const SimpleOrProofOnlyInteger
     return it->second.first;
 }
 
-auto NamesAndIDsTracker::each_bit(const SimpleOrProofOnlyIntegerVariableID & id) -> generator<pair<Integer, XLiteral>>
+auto NamesAndIDsTracker::each_bit(const SimpleOrProofOnlyIntegerVariableID id) -> generator<pair<Integer, XLiteral>>
 {
     auto it = _imp->integer_variable_bits_to_size_and_proof_vars.find(id);
     if (it == _imp->integer_variable_bits_to_size_and_proof_vars.end())
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index 905f8ed..d7e8bdb 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -415,7 +415,7 @@ namespace gcs::innards
          * Call the supplied function for each bit making up the given variable, specifying
          * its raw PB literal and coefficient.
          */
-        auto each_bit(const SimpleOrProofOnlyIntegerVariableID &) -> std::generator<std::pair<Integer, XLiteral>>;
+        auto each_bit(const SimpleOrProofOnlyIntegerVariableID) -> std::generator<std::pair<Integer, XLiteral>>;
 
         /**
          * Get the name and coefficient for the bit position in the representation of the given var.
-- 
2.43.0


From 3e4ab808eede8631f5892dc16d50284f6e314bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 20/55] fix: the objective's bound for the proof was read even
 when initialisation had already failed

---
 gcs/solve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/solve.cc b/gcs/solve.cc
index 756cfec..5cf67d2 100644
--- a/gcs/solve.cc
+++ b/gcs/solve.cc
@@ -372,7 +372,7 @@ auto gcs::solve_with(
     }
 
     Integer objective_lower_bound_for_proof = 0_i;
-    if (optional_proof && problem.optional_minimise_variable())
+    if (initialisation_success && presolve_success && optional_proof && problem.optional_minimise_variable())
         objective_lower_bound_for_proof = state.lower_bound(*problem.optional_minimise_variable());
 
     if (initialisation_success && presolve_success) {
-- 
2.43.0


From 31b7c0b12d6409093b846a46c747a629eb27d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 21/55] fix: the two-dimensional disjunctive justified its
 pushes from bounds read after the push

---
 .../disjunctive_2d/disjunctive_2d.cc          | 48 +++++++++++++------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/gcs/constraints/disjunctive_2d/disjunctive_2d.cc b/gcs/constraints/disjunctive_2d/disjunctive_2d.cc
index 7145636..ccb4e8e 100644
--- a/gcs/constraints/disjunctive_2d/disjunctive_2d.cc
+++ b/gcs/constraints/disjunctive_2d/disjunctive_2d.cc
@@ -244,8 +244,8 @@ auto Disjunctive2D::install_propagators(Propagators & propagators) -> void
             // flag's negation and the residual order literals, which the
             // closing reason-wrapped RUPs then unit-propagate. The pol is
             // load-bearing; see dev_docs/disjunctive-proof-logging.md.
-            auto emit_before_pol = [&](const map<pair<size_t, size_t>, BeforeFlagData> & before, const vector<IntegerVariableID> & size, size_t a,
-                                       size_t b, const optional<IntegerVariableCondition> & cond_a,
+            auto emit_before_pol = [&](const map<pair<size_t, size_t>, BeforeFlagData> & before, size_t a, size_t b,
+                                       const optional<IntegerVariableCondition> & cond_a, const optional<IntegerVariableCondition> & size_cond_a,
                                        const optional<IntegerVariableCondition> & cond_b) -> void {
                 auto & tracker = logger->names_and_ids_tracker();
                 PolBuilder pol;
@@ -255,20 +255,22 @@ auto Disjunctive2D::install_propagators(Propagators & propagators) -> void
                 // definition row and nothing to add -- the operand's term
                 // already normalises to exactly that residual literal.
                 auto add_defining_row = [&](const IntegerVariableCondition & cond) -> void {
+                    if (is_constant_variable(cond.var))
+                        return;
                     auto item = tracker.need_pol_item_defining_literal(cond);
                     if (auto * line = std::get_if<ProofLine>(&item))
                         pol.add(*line);
                 };
                 if (cond_a)
                     add_defining_row(*cond_a);
-                if (! is_constant_variable(size[a]))
-                    add_defining_row(size[a] >= state.lower_bound(size[a]));
+                if (size_cond_a)
+                    add_defining_row(*size_cond_a);
                 if (cond_b)
                     add_defining_row(*cond_b);
                 pol.saturate().emit(*logger, ProofLevel::Temporary);
             };
 
-            // The current-bound literals on a position, or nullopt for a
+            // The current-bound literals on a position or size, or nullopt for a
             // constant (a constant has no defining literal to cite).
             auto lb_lit = [&](const IntegerVariableID & v) -> optional<IntegerVariableCondition> {
                 if (is_constant_variable(v))
@@ -326,10 +328,10 @@ auto Disjunctive2D::install_propagators(Propagators & propagators) -> void
                             // false under the reason and the 4-way separation
                             // clause unit-fails in the framework's closing
                             // reason-wrapped RUP.
-                            emit_before_pol(before_x, width_var, i, j, lb_lit(xs[i]), ub_lit(xs[j]));
-                            emit_before_pol(before_x, width_var, j, i, lb_lit(xs[j]), ub_lit(xs[i]));
-                            emit_before_pol(before_y, height_var, i, j, lb_lit(ys[i]), ub_lit(ys[j]));
-                            emit_before_pol(before_y, height_var, j, i, lb_lit(ys[j]), ub_lit(ys[i]));
+                            emit_before_pol(before_x, i, j, lb_lit(xs[i]), lb_lit(width_var[i]), ub_lit(xs[j]));
+                            emit_before_pol(before_x, j, i, lb_lit(xs[j]), lb_lit(width_var[j]), ub_lit(xs[i]));
+                            emit_before_pol(before_y, i, j, lb_lit(ys[i]), lb_lit(height_var[i]), ub_lit(ys[j]));
+                            emit_before_pol(before_y, j, i, lb_lit(ys[j]), lb_lit(height_var[j]), ub_lit(ys[i]));
                         };
 
                         vector<IntegerVariableID> rvars{xs[i], ys[i], xs[j], ys[j]};
@@ -386,11 +388,27 @@ auto Disjunctive2D::install_propagators(Propagators & propagators) -> void
                         rv.push_back(height_var[r]);
                 }
 
+                // The bounds that the justifications cite, read before anything
+                // is pushed: by the time a justification runs the push has
+                // landed, and the pushed variable can also be any of these,
+                // if a variable is shared between positions or sizes.
+                struct CitedBounds
+                {
+                    optional<IntegerVariableCondition> pos_lb, pos_ub, size_lb;
+                };
+                auto cite = [&](const vector<IntegerVariableID> & pos, const vector<IntegerVariableID> & size, size_t r) -> CitedBounds {
+                    if (! logger)
+                        return {};
+                    return {lb_lit(pos[r]), ub_lit(pos[r]), lb_lit(size[r])};
+                };
+                auto forced_i = cite(forced_pos, forced_size, i), forced_j = cite(forced_pos, forced_size, j);
+                auto free_i = cite(free_pos, free_size, i), free_j = cite(free_pos, free_size, j);
+
                 // Both forced-axis precedences are refuted by the mandatory
                 // overlap on that axis, exactly as in the contradiction.
                 auto eliminate_forced_axis = [&]() -> void {
-                    emit_before_pol(forced_before, forced_size, i, j, lb_lit(forced_pos[i]), ub_lit(forced_pos[j]));
-                    emit_before_pol(forced_before, forced_size, j, i, lb_lit(forced_pos[j]), ub_lit(forced_pos[i]));
+                    emit_before_pol(forced_before, i, j, forced_i.pos_lb, forced_i.size_lb, forced_j.pos_ub);
+                    emit_before_pol(forced_before, j, i, forced_j.pos_lb, forced_j.size_lb, forced_i.pos_ub);
                 };
 
                 // lb-push: i cannot fit below the blocker, push its origin up to
@@ -408,11 +426,11 @@ auto Disjunctive2D::install_propagators(Propagators & propagators) -> void
                         eliminate_forced_axis();
                         // Free axis: i entirely before j contradicts i's lower
                         // bound (it cannot fit below the blocker) ...
-                        emit_before_pol(free_before, free_size, i, j, free_pos[i] >= cur_lo, ub_lit(free_pos[j]));
+                        emit_before_pol(free_before, i, j, free_pos[i] >= cur_lo, free_i.size_lb, free_j.pos_ub);
                         // ... so j precedes i, putting pos_i at j's mandatory
                         // end or later, folded onto the target order literal's
                         // definition row: bf -> pos_i >= target.
-                        emit_before_pol(free_before, free_size, j, i, lb_lit(free_pos[j]), free_pos[i] < target);
+                        emit_before_pol(free_before, j, i, free_j.pos_lb, free_j.size_lb, free_pos[i] < target);
                     };
                     inference.infer_greater_than_or_equal(
                         logger, free_pos[i], target, JustifyExplicitly{justify, ThenRUP::Yes, hints::Disjunctive2D{owner}}, generic_reason(rv));
@@ -428,11 +446,11 @@ auto Disjunctive2D::install_propagators(Propagators & propagators) -> void
                         eliminate_forced_axis();
                         // Free axis: j entirely before i would put pos_i past
                         // its upper bound (i cannot fit above the blocker) ...
-                        emit_before_pol(free_before, free_size, j, i, lb_lit(free_pos[j]), free_pos[i] < cur_hi + 1_i);
+                        emit_before_pol(free_before, j, i, free_j.pos_lb, free_j.size_lb, free_pos[i] < cur_hi + 1_i);
                         // ... so i precedes j, capping pos_i at the blocker's
                         // latest start minus lb(size_i), folded onto the
                         // target: bf -> pos_i <= target.
-                        emit_before_pol(free_before, free_size, i, j, free_pos[i] >= target + 1_i, ub_lit(free_pos[j]));
+                        emit_before_pol(free_before, i, j, free_pos[i] >= target + 1_i, free_i.size_lb, free_j.pos_ub);
                     };
                     inference.infer_less_than(
                         logger, free_pos[i], target + 1_i, JustifyExplicitly{justify, ThenRUP::Yes, hints::Disjunctive2D{owner}}, generic_reason(rv));
-- 
2.43.0


From 63f460e62ba63f263932f07ab781d54d94340ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 22/55] fix: lexicographic constraints used the wrong polarity
 of a NotIf condition in their proof scaffold

---
 gcs/constraints/lex/lex.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gcs/constraints/lex/lex.cc b/gcs/constraints/lex/lex.cc
index 9a01f11..535e224 100644
--- a/gcs/constraints/lex/lex.cc
+++ b/gcs/constraints/lex/lex.cc
@@ -30,6 +30,7 @@
 
 using std::any_cast;
 using std::get;
+using std::holds_alternative;
 using std::make_shared;
 using std::min;
 using std::move;
@@ -277,7 +278,8 @@ namespace
     auto run_lex_undecided_detection(const State & state, ProofLogger * const, const vector<IntegerVariableID> & vars_1,
         const vector<IntegerVariableID> & vars_2, bool or_equal, const shared_ptr<vector<optional<ProofFlag>>> & prefix_equal_gt_flags,
         const shared_ptr<vector<ProofFlag>> & decision_at_gt_flags, const shared_ptr<vector<optional<ProofFlag>>> & prefix_equal_lt_flags,
-        const shared_ptr<vector<ProofFlag>> & decision_at_lt_flags, const IntegerVariableCondition & cond, const ConstraintID & owner)
+        const shared_ptr<vector<ProofFlag>> & decision_at_lt_flags, const IntegerVariableCondition & cond,
+        const IntegerVariableCondition & cond_under_which_negation_is_encoded, const ConstraintID & owner)
         -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>>
     {
         auto n1 = vars_1.size();
@@ -334,12 +336,14 @@ namespace
         // therefore lives under that negation: the opposite-direction
         // encoding's at-least-one is then active, and the bounds force
         // every aux flag to FALSE, violating it. We pre-emit those
-        // ~aux_flag lines so VeriPB's PB unit propagation can chain.
+        // ~aux_flag lines so VeriPB's PB unit propagation can chain. The
+        // negation of the constraint is encoded under ! cond for Iff, but
+        // under cond itself for NotIf, where what gets inferred is ! cond.
         if (definitely_holds) {
-            auto reason_under_cond_false = reason;
-            reason_under_cond_false.push_back(! cond);
+            auto reason_under_negation = reason;
+            reason_under_negation.push_back(cond_under_which_negation_is_encoded);
             return reification_verdict::MustHold<JustifyExplicitly<hints::LexUnsatScaffold>>{
-                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, &state, std::move(reason_under_cond_false), vars_2, vars_1, n,
+                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, &state, std::move(reason_under_negation), vars_2, vars_1, n,
                                                        prefix_equal_lt_flags, decision_at_lt_flags},
                     ThenRUP::Yes},          //
                 .reason = std::move(reason) //
@@ -568,11 +572,11 @@ auto LexCompareGreaterThanOrMaybeEqual::install_propagators(Propagators & propag
 
     auto infer_cond_when_undecided = [vars_1 = move(_vars_1), vars_2 = move(_vars_2), or_equal, prefix_equal_gt_flags = _prefix_equal_gt_flags,
                                          decision_at_gt_flags = _decision_at_gt_flags, prefix_equal_lt_flags = _prefix_equal_lt_flags,
-                                         decision_at_lt_flags = _decision_at_lt_flags,
+                                         decision_at_lt_flags = _decision_at_lt_flags, is_not_if = holds_alternative<reif::NotIf>(_reif_cond),
                                          owner = constraint_id()](const State & state, auto &, ProofLogger * const logger,
                                          const IntegerVariableCondition & cond) -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>> {
         return run_lex_undecided_detection(state, logger, vars_1, vars_2, or_equal, prefix_equal_gt_flags, decision_at_gt_flags,
-            prefix_equal_lt_flags, decision_at_lt_flags, cond, owner);
+            prefix_equal_lt_flags, decision_at_lt_flags, cond, is_not_if ? cond : ! cond, owner);
     };
 
     install_reified_dispatcher(propagators, constraint_id(), _evaluated_cond, _reif_cond, triggers, std::move(enforce_constraint_must_hold),
-- 
2.43.0


From 21ae7f14e8d54b7c120b49ae31725740e8bd20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 23/55] fix: an improving solution's proof line did not match
 the objective if a constraint also used the negated variable

---
 gcs/innards/proofs/proof_logger.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index f9d4520..2e10d4e 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -309,8 +309,23 @@ auto ProofLogger::solution(const vector<pair<IntegerVariableID, Integer>> & all_
         // normal soli, emit e line for trimmer
         visit(
             [&](const auto & id) {
+                // The line has to be what min: says, and a plain negation is
+                // written there over the underlying's bits, whether or not a
+                // constraint has since given the view a bit vector of its own.
+                auto objective = WPBSum{};
+                auto written = overloaded{
+                    [&](const ViewOfIntegerVariableID & v) {
+                        if (v.negate_first && v.then_add == 0_i)
+                            objective += -1_i * v.actual_variable;
+                        else
+                            objective += 1_i * v;
+                    },                                            //
+                    [&](const auto & v) { objective += 1_i * v; } //
+                };
+                written(id);
                 _imp->proof << "e ";
-                emit_inequality_to(names_and_ids_tracker(), WPBSum{} + 1_i * id <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
+                emit_inequality_to(
+                    names_and_ids_tracker(), move(objective) <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
                 _imp->proof << ":" << relative_proof_line(_imp->proof_line, _imp->proof_line.number) << ";\n";
 
                 emit_rup_proof_line(WPBSum{} + 1_i * (id < optional_minimise_variable_and_value->second) >= 1_i, ProofLevel::Top);
-- 
2.43.0


From 4ba311916b639b41d69c3c6f80c423a8b034244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 24/55] fix: a table with a repeated tuple left its selector
 undecided, so its solutions could not be logged

---
 gcs/constraints/table/table.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gcs/constraints/table/table.cc b/gcs/constraints/table/table.cc
index fb4b50a..6596930 100644
--- a/gcs/constraints/table/table.cc
+++ b/gcs/constraints/table/table.cc
@@ -13,6 +13,7 @@
 #include <util/enumerate.hh>
 
 #include <optional>
+#include <set>
 #include <sstream>
 #include <utility>
 #include <variant>
@@ -29,6 +30,7 @@ using namespace gcs;
 using namespace gcs::innards;
 
 using std::optional;
+using std::set;
 using std::string;
 using std::stringstream;
 using std::to_string;
@@ -146,7 +148,19 @@ auto Table::define_proof_model(ProofModel & model, const State &) -> void
                 IntegerVariableProofRepresentation::DirectOnly);
 
             // pb encoding, if necessary
+            set<vector<string>> seen;
             for (const auto & [tuple_idx, tuple] : enumerate(depointinate(tuples))) {
+                // If the same tuple is given more than once, only its first
+                // occurrence may be selected: otherwise the selector is not a
+                // function of the variables, and a solution cannot be logged.
+                vector<string> entries;
+                for (const auto & entry : tuple)
+                    entries.push_back(tuple_entry_as_string(entry));
+                if (! seen.insert(move(entries)).second) {
+                    model.add_constraint({_selector != Integer(tuple_idx)});
+                    continue;
+                }
+
                 // selector == tuple_idx -> /\_i vars[i] == tuple[i]
                 bool infeasible = false;
                 WPBSum lits;
-- 
2.43.0


From 226aa248a88d5c901ad8e34337275ab39ab98b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 25/55] fix: explicit justifications and lazy reasons were
 evaluated after the inference they justify had changed the domain

---
 gcs/innards/inference_tracker.hh | 55 ++++++++++++++++----------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/gcs/innards/inference_tracker.hh b/gcs/innards/inference_tracker.hh
index 1c31e5c..832be87 100644
--- a/gcs/innards/inference_tracker.hh
+++ b/gcs/innards/inference_tracker.hh
@@ -167,31 +167,32 @@ namespace gcs::innards
         // methods leave it true (a contradiction unwinds via TrackedPropagationFailed);
         // the non-throwing infer_*_or_stop methods pass false, so a contradiction sets
         // _contradicted and returns normally, and the propagate loop detects it.
-        template <typename Emit_, typename Hint_>
-        auto track_explicit(ProofLogger * const logger, const Inference inf, const Literal & lit, const JustifyExplicitly<Emit_, Hint_> & why,
+        //
+        // The steps are emitted, and a lazy reason is materialised, before the
+        // domain is changed: both read bounds and values out of the state, and the
+        // inferred variable can be another of the constraint's variables too, whose
+        // new domain is not what the inference follows from (and is empty, if it is
+        // a contradiction).
+        template <typename Apply_, typename Emit_, typename Hint_>
+        auto track_explicit(ProofLogger * const logger, const Apply_ & apply, const Literal & lit, const JustifyExplicitly<Emit_, Hint_> & why,
             const SnapshottedReason & reason, const std::optional<AssertionAnnotation> & fallback, bool do_throw = true) -> void
         {
+            if constexpr (Actual_::materialises_reasons)
+                if (logger && _state.test_literal(lit) != LiteralIs::DefinitelyTrue) {
+                    ReasonLiterals scratch;
+                    infer_explicitly(*logger, lit, why.emit, why.then_rup, reason.materialised(_state, scratch), why.hint, fallback);
+                }
+
+            auto inf = apply();
             switch (inf) {
             case Inference::NoChange: break;
 
             case Inference::InteriorValuesChanged:
             case Inference::BoundsChanged:
-            case Inference::Instantiated:
-                if constexpr (Actual_::materialises_reasons)
-                    if (logger) {
-                        ReasonLiterals scratch;
-                        infer_explicitly(*logger, lit, why.emit, why.then_rup, reason.materialised(_state, scratch), why.hint, fallback);
-                    }
-                record_firing_inference(inf, lit);
-                break;
+            case Inference::Instantiated: record_firing_inference(inf, lit); break;
 
             [[unlikely]] case Inference::Contradiction:
                 _last_contradiction_reason = reason.original ? *reason.original : Reason{};
-                if constexpr (Actual_::materialises_reasons)
-                    if (logger) {
-                        ReasonLiterals scratch;
-                        infer_explicitly(*logger, lit, why.emit, why.then_rup, reason.materialised(_state, scratch), why.hint, fallback);
-                    }
                 _did_anything_since_last_call_by_propagation_queue = true;
                 _made_progress_since_last_check = true;
                 _contradicted = true;
@@ -258,7 +259,7 @@ namespace gcs::innards
             const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer(lit), lit, why, snapshotted, fallback);
+            track_explicit(logger, [&] { return _state.infer(lit); }, lit, why, snapshotted, fallback);
         }
 
         // Visit a variant of justifications and dispatch each alternative to its
@@ -281,7 +282,7 @@ namespace gcs::innards
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer(lit), lit, why, snapshotted, fallback);
+            track_explicit(logger, [&] { return _state.infer(lit); }, lit, why, snapshotted, fallback);
         }
 
         template <typename Emit_, typename Hint_>
@@ -300,7 +301,7 @@ namespace gcs::innards
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_equal(var, value), var == value, why, snapshotted, fallback);
+            track_explicit(logger, [&] { return _state.infer_equal(var, value); }, var == value, why, snapshotted, fallback);
         }
 
         template <IntegerVariableIDLike VarType_, typename Emit_, typename Hint_>
@@ -308,7 +309,7 @@ namespace gcs::innards
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_not_equal(var, value), var != value, why, snapshotted, fallback);
+            track_explicit(logger, [&] { return _state.infer_not_equal(var, value); }, var != value, why, snapshotted, fallback);
         }
 
         // A JustifyUsingRUP carrying a typed hint is a RUP inference (no explicit
@@ -394,7 +395,7 @@ namespace gcs::innards
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_less_than(var, value), var < value, why, snapshotted, fallback);
+            track_explicit(logger, [&] { return _state.infer_less_than(var, value); }, var < value, why, snapshotted, fallback);
         }
 
         template <IntegerVariableIDLike VarType_, typename Emit_, typename Hint_>
@@ -402,7 +403,7 @@ namespace gcs::innards
             const Reason & reason, const std::optional<AssertionAnnotation> & fallback = std::nullopt) -> void
         {
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_greater_than_or_equal(var, value), var >= value, why, snapshotted, fallback);
+            track_explicit(logger, [&] { return _state.infer_greater_than_or_equal(var, value); }, var >= value, why, snapshotted, fallback);
         }
 
         // Non-throwing counterparts of the JustifyExplicitly infer_less_than /
@@ -418,7 +419,7 @@ namespace gcs::innards
             if (_contradicted) [[unlikely]]
                 return false;
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_less_than(var, value), var < value, why, snapshotted, fallback, false);
+            track_explicit(logger, [&] { return _state.infer_less_than(var, value); }, var < value, why, snapshotted, fallback, false);
             return ! _contradicted;
         }
 
@@ -430,7 +431,7 @@ namespace gcs::innards
             if (_contradicted) [[unlikely]]
                 return false;
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_greater_than_or_equal(var, value), var >= value, why, snapshotted, fallback, false);
+            track_explicit(logger, [&] { return _state.infer_greater_than_or_equal(var, value); }, var >= value, why, snapshotted, fallback, false);
             return ! _contradicted;
         }
 
@@ -451,7 +452,7 @@ namespace gcs::innards
             if (_contradicted) [[unlikely]]
                 return std::nullopt;
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_less_than(var, value), var < value, why, snapshotted, fallback, false);
+            track_explicit(logger, [&] { return _state.infer_less_than(var, value); }, var < value, why, snapshotted, fallback, false);
             if (_contradicted) [[unlikely]]
                 return std::nullopt;
             return _state.upper_bound(var);
@@ -465,7 +466,7 @@ namespace gcs::innards
             if (_contradicted) [[unlikely]]
                 return std::nullopt;
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_greater_than_or_equal(var, value), var >= value, why, snapshotted, fallback, false);
+            track_explicit(logger, [&] { return _state.infer_greater_than_or_equal(var, value); }, var >= value, why, snapshotted, fallback, false);
             if (_contradicted) [[unlikely]]
                 return std::nullopt;
             return _state.lower_bound(var);
@@ -521,7 +522,7 @@ namespace gcs::innards
             if (lo > hi)
                 return;
             auto snapshotted = snapshot_reason(logger, reason, _state);
-            track_explicit(logger, _state.infer_not_in_range(var, lo, hi), not_in_range(var, lo, hi), why, snapshotted, fallback);
+            track_explicit(logger, [&] { return _state.infer_not_in_range(var, lo, hi); }, not_in_range(var, lo, hi), why, snapshotted, fallback);
         }
 
         [[noreturn]] auto contradiction(ProofLogger * const logger, const Justification & why, const Reason & reason,
@@ -682,7 +683,7 @@ namespace gcs::innards
 
             auto snapshotted = snapshot_reason(logger, reason, _state);
             for (const auto & lit : lits)
-                track_explicit(logger, _state.infer(lit), lit, why, snapshotted, fallback);
+                track_explicit(logger, [&] { return _state.infer(lit); }, lit, why, snapshotted, fallback);
         }
 
         // Yields this round's inferences in the order they were made (oldest first). The
-- 
2.43.0


From c4ad581375a11ae44674fd0bffe0ad53401316a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 26/55] fix: disjunctive asked for the proof literals of a
 constant start when justifying a push

---
 gcs/constraints/disjunctive/disjunctive.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index 2bb7112..f0a0944 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -464,7 +464,12 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 // the remaining low-bit residual by the bound's slack.
                 // (Adding the literal axiom via add_for_literal would instead
                 // cancel the term outright and lose the bound.)
+                // Nor does a constant, cited by a push or a precedence that
+                // is about a task whose start is one: its value is already
+                // folded into the flag's row.
                 auto add_defining_row = [&](const IntegerVariableCondition & cond) -> void {
+                    if (is_constant_variable(cond.var))
+                        return;
                     auto item = tracker.need_pol_item_defining_literal(cond);
                     if (auto * line = std::get_if<ProofLine>(&item))
                         pol.add(*line);
-- 
2.43.0


From ec76193754c63d3b5e6c6ac71d6408a6f1064135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 27/55] fix: global cardinality asked for an at-least-one proof
 line for a constant

---
 .../global_cardinality/bounds_global_cardinality.cc    | 10 ++++++++--
 gcs/constraints/global_cardinality/justify.cc          |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/global_cardinality/bounds_global_cardinality.cc b/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
index 7abbd29..5c310f3 100644
--- a/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
@@ -218,8 +218,11 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                     if (keep != optional<std::size_t>{v} && ! holds_alternative<ConstantIntegerVariableID>(counts[v]))
                         pb.add_for_literal(tracker, counts[v] <= state.bounds(counts[v]).second);
                 }
+                // A constant's value is already folded into the count lines, and it
+                // has no at-least-one line to add.
                 for (const auto & var : confined)
-                    pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
+                    if (! holds_alternative<ConstantIntegerVariableID>(var))
+                        pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
                 pb.emit(*logger, ProofLevel::Temporary);
             };
 
@@ -284,8 +287,11 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                                         if (! holds_alternative<ConstantIntegerVariableID>(counts[v]))
                                             pb.add_for_literal(tracker, counts[v] <= state.bounds(counts[v]).second);
                                     }
+                                // A constant's value is already folded into the count lines, and it
+                                // has no at-least-one line to add.
                                 for (const auto & var : confined)
-                                    pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
+                                    if (! holds_alternative<ConstantIntegerVariableID>(var))
+                                        pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
                                 pb.add(*count_lines[j].first);
                                 pb.emit(*logger, ProofLevel::Temporary);
                             },
diff --git a/gcs/constraints/global_cardinality/justify.cc b/gcs/constraints/global_cardinality/justify.cc
index e5e3ccb..1138245 100644
--- a/gcs/constraints/global_cardinality/justify.cc
+++ b/gcs/constraints/global_cardinality/justify.cc
@@ -38,8 +38,11 @@ auto gcs::innards::emit_gcc_capacity_pol(ProofLogger & logger, const State & sta
             pb.add_for_literal(tracker, counts[v] <= state.bounds(counts[v]).second);
     }
     (void)vars;
+    // A constant's value is already folded into the count lines, and it
+    // has no at-least-one line to add.
     for (const auto & var : confined)
-        pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
+        if (! holds_alternative<ConstantIntegerVariableID>(var))
+            pb.add(tracker.need_constraint_saying_variable_takes_at_least_one_value(var));
     pb.emit(logger, ProofLevel::Temporary);
 }
 
-- 
2.43.0


From cafd3e14aa6f7fff7fcbfd97e9dd98325dd355f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 28/55] fix: disjunctive's window certificates did not allow
 for the absence of an optional task

---
 gcs/constraints/disjunctive/disjunctive.cc | 13 ++++++++++---
 gcs/innards/proofs/am1_from_pairs.cc       |  9 ++++++++-
 gcs/innards/proofs/am1_from_pairs.hh       |  8 ++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index f0a0944..a0e7047 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -640,10 +640,17 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                     return folds;
                 folds.reserve(static_cast<size_t>((hi - lo).raw_value));
                 for (Integer t = lo; t < hi; ++t) {
-                    vector<ProofLiteralOrFlag> members;
-                    for (auto i : tasks)
+                    vector<ProofLiteralOrFlag> members, escapes;
+                    for (auto i : tasks) {
                         members.push_back(activity_flag(i, t).flag);
-                    folds.push_back(recover_am1_from_pairs(*logger, members, at_most_ones[t], ProofLevel::Temporary));
+                        // Unlike a zero-length escape, an absence is not something
+                        // that can be refuted once and for all, so it stays in the
+                        // rows, for the reason to falsify.
+                        if (presence[i])
+                            escapes.push_back(*presence[i] == 0_i);
+                    }
+                    folds.push_back(recover_am1_from_pairs(
+                        *logger, members, at_most_ones[t], ProofLevel::Temporary, am1_from_pairs_mutation::None{}, escapes));
                 }
                 return folds;
             };
diff --git a/gcs/innards/proofs/am1_from_pairs.cc b/gcs/innards/proofs/am1_from_pairs.cc
index ebcef1c..196a2bb 100644
--- a/gcs/innards/proofs/am1_from_pairs.cc
+++ b/gcs/innards/proofs/am1_from_pairs.cc
@@ -20,7 +20,8 @@ using std::to_string;
 using std::vector;
 
 auto gcs::innards::recover_am1_from_pairs(ProofLogger & logger, const vector<ProofLiteralOrFlag> & members,
-    const vector<vector<ProofLine>> & at_most_ones, ProofLevel level, Am1FromPairsMutation mutation) -> ProofLine
+    const vector<vector<ProofLine>> & at_most_ones, ProofLevel level, Am1FromPairsMutation mutation, const vector<ProofLiteralOrFlag> & escapes)
+    -> ProofLine
 {
     auto k = members.size();
     if (k < 2)
@@ -102,6 +103,12 @@ auto gcs::innards::recover_am1_from_pairs(ProofLogger & logger, const vector<Pro
     for (const auto & member : members)
         add_term_to(clique, 1_i, member);
 
+    // An escape gathers a coefficient of at most one less than the clique's
+    // size on its way through the merges, which is also what it takes to
+    // satisfy the line by itself.
+    for (const auto & escape : escapes)
+        add_term_to(clique, -Integer{static_cast<long long>(k) - 1}, escape);
+
     // Back at the caller's level to pin, while the induction is still alive for
     // VeriPB to resolve the reference against, and only then drop it.
     scaffolding.restore();
diff --git a/gcs/innards/proofs/am1_from_pairs.hh b/gcs/innards/proofs/am1_from_pairs.hh
index 36b225a..586a4f3 100644
--- a/gcs/innards/proofs/am1_from_pairs.hh
+++ b/gcs/innards/proofs/am1_from_pairs.hh
@@ -118,6 +118,10 @@ namespace gcs::innards
      * at-most-one for its pair rather than some other line that happens to
      * carry the arithmetic.
      *
+     * If the at-most-ones are conditional, each may carry any of `escapes` as
+     * further disjuncts, and so does what comes back, which then says that
+     * either an escape holds or at most one member does.
+     *
      * Every intermediate is emitted at `level`. Only the returned line needs to
      * outlive the call, so a caller replaying this across a scheduling horizon
      * should think about deriving the intermediates at `ProofLevel::Temporary`
@@ -130,8 +134,8 @@ namespace gcs::innards
      * \ingroup Innards
      */
     [[nodiscard]] auto recover_am1_from_pairs(ProofLogger &, const std::vector<ProofLiteralOrFlag> & members,
-        const std::vector<std::vector<ProofLine>> & at_most_ones, ProofLevel, Am1FromPairsMutation mutation = am1_from_pairs_mutation::None{})
-        -> ProofLine;
+        const std::vector<std::vector<ProofLine>> & at_most_ones, ProofLevel, Am1FromPairsMutation mutation = am1_from_pairs_mutation::None{},
+        const std::vector<ProofLiteralOrFlag> & escapes = {}) -> ProofLine;
 }
 
 #endif
-- 
2.43.0


From 14c0f8c65cd6a1f759f86ad55af7e1fc23db340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 29/55] fix: disjunctive's activity at-most-ones did not
 account for a constant start

---
 gcs/constraints/disjunctive/disjunctive.cc | 23 +++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index a0e7047..42f40b0 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -591,9 +591,30 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                         return found->second;
                     }
 
+                // A task with a constant start is simply not there at other times,
+                // and then there is nothing for the ordering to say.
+                auto never_at = [&](size_t x) -> bool {
+                    return is_constant_variable(starts[x]) &&
+                        (t < constant_value_of(starts[x]) || t >= constant_value_of(starts[x]) + energy_len(x));
+                };
+                if (never_at(i) || never_at(j)) {
+                    ++overload_instrumentation.bridge_derived;
+                    auto line = logger->emit_rup_proof_line(WPBSum{} + 1_i * ! activity_flag(i, t).flag + 1_i * ! activity_flag(j, t).flag >= 1_i,
+                        rules.overload_cache_bridge ? rules.overload_vocabulary_at : ProofLevel::Temporary);
+                    if (rules.overload_cache_bridge)
+                        bridge->emplace(key, line);
+                    return line;
+                }
+
+                // The degree is more than one if a start is a constant, which is
+                // in the before row as itself rather than as its threshold.
                 auto half = [&](size_t x, size_t y) -> ProofLine {
+                    auto x_from = is_constant_variable(starts[x]) ? constant_value_of(starts[x]) : t - energy_len(x) + 1_i;
+                    auto y_to = is_constant_variable(starts[y]) ? constant_value_of(starts[y]) : t;
+                    auto degree = energy_len(x) + x_from - y_to;
                     PolBuilder pol;
-                    pol.add(emit_before_pol(x, y, starts[x] >= t - energy_len(x) + 1_i, starts[y] < t + 1_i, duration_floor(x)));
+                    pol.add(emit_before_pol(x, y, starts[x] >= t - energy_len(x) + 1_i, starts[y] < t + 1_i, duration_floor(x),
+                        degree > 1_i ? make_optional(degree) : nullopt));
                     pol.add(activity_flag(x, t).implies_started);
                     pol.add(activity_flag(y, t).implies_starts_by);
                     return pol.saturate().emit(*logger, ProofLevel::Temporary);
-- 
2.43.0


From 6dd6fa3ed4c8c8ccbba7a45ab1841675c44ae70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 30/55] fix: the Bacchus encoding of regular left out the
 states and values that have no transitions, so its silent inferences did not
 follow

---
 gcs/constraints/regular/regular_bacchus.cc | 26 ++++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/gcs/constraints/regular/regular_bacchus.cc b/gcs/constraints/regular/regular_bacchus.cc
index 1715480..b0b1673 100644
--- a/gcs/constraints/regular/regular_bacchus.cc
+++ b/gcs/constraints/regular/regular_bacchus.cc
@@ -43,6 +43,7 @@ using std::unique_ptr;
 using std::unordered_map;
 using std::unordered_set;
 using std::vector;
+using std::ranges::find;
 using std::ranges::sort;
 
 #if defined(__cpp_lib_print) && defined(__cpp_lib_format)
@@ -330,8 +331,8 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
     // With those at ProofLevel::Top, every per-call value-pruning the
     // propagator decides becomes RUP-closable purely by UP on the proof DB,
     // so the propagator uses NoJustificationNeeded and writes no proof.
-    propagators.install_initialiser([vars = _vars, ns = _num_states, t = _transitions, alphabet = _opb_alphabet, bridge = _bridge](
-                                        State &, auto &, ProofLogger * const logger) -> void {
+    propagators.install_initialiser([vars = _vars, ns = _num_states, t = _transitions, fs = _final_states, alphabet = _opb_alphabet,
+                                        bridge = _bridge](State &, auto &, ProofLogger * const logger) -> void {
         if (! logger)
             return;
 
@@ -380,11 +381,18 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
             }
         }
 
+        // The model says that the last state is one of the accepting ones, and
+        // that there is only one, which does not propagate to the others.
+        for (long q = 0; q < ns; ++q)
+            if (find(fs, q) == fs.end())
+                logger->emit_rup_proof_line(WPBSum{} + 1_i * ! flags[vars.size()][q] >= 1_i, ProofLevel::Top);
+
+        // For each of these, having no transitions makes for an empty sum, and
+        // a unit clause that propagating the others needs just as much.
+        //
         // Outgoing AL1: state[i][q] -> sum_{v: delta(q,v) def} t[i][q][v] >= 1.
         for (size_t i = 0; i < vars.size(); ++i) {
             for (long q = 0; q < ns; ++q) {
-                if (ts[i][q].empty())
-                    continue;
                 WPBSum sum;
                 sum += 1_i * ! flags[i][q];
                 for (const auto & [val, tf] : ts[i][q])
@@ -398,17 +406,14 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
             for (long next_q = 0; next_q < ns; ++next_q) {
                 WPBSum sum;
                 sum += 1_i * ! flags[i + 1][next_q];
-                bool any = false;
                 for (long p = 0; p < ns; ++p) {
                     for (const auto & [val, tf] : ts[i][p]) {
                         if (find_transition(t[p], val) == next_q) {
                             sum += 1_i * tf;
-                            any = true;
                         }
                     }
                 }
-                if (any)
-                    logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
+                logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
             }
         }
 
@@ -417,16 +422,13 @@ auto RegularBacchus::install_propagators(Propagators & propagators) -> void
             for (const auto & val : alphabet) {
                 WPBSum sum;
                 sum += 1_i * (vars[i] != val);
-                bool any = false;
                 for (long q = 0; q < ns; ++q) {
                     auto it = ts[i][q].find(val);
                     if (it != ts[i][q].end()) {
                         sum += 1_i * it->second;
-                        any = true;
                     }
                 }
-                if (any)
-                    logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
+                logger->emit_rup_proof_line(move(sum) >= 1_i, ProofLevel::Top);
             }
         }
     });
-- 
2.43.0


From f6236390e67a602a469a3640d4eff598d4a95ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 31/55] fix: the legacy regular propagator's proofs did not
 eliminate reachable states that do not accept

---
 gcs/constraints/regular/regular_legacy.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gcs/constraints/regular/regular_legacy.cc b/gcs/constraints/regular/regular_legacy.cc
index c119ac6..6afe946 100644
--- a/gcs/constraints/regular/regular_legacy.cc
+++ b/gcs/constraints/regular/regular_legacy.cc
@@ -164,6 +164,13 @@ namespace
                 possible_final_states.insert(f);
         }
 
+        // The back pass eliminates a state once all its successors are gone, and
+        // those that can be reached but do not accept have yet to be.
+        if (logger && logger->get_assertion_level() == AssertionLevel::Off)
+            for (const auto & q : graph.nodes[num_vars])
+                if (! possible_final_states.contains(q))
+                    log_additional_inference(logger, {}, {! state_at_pos_flags[num_vars][q]}, state, reason);
+
         graph.nodes[num_vars] = possible_final_states;
 
         // Backward phase: validate
-- 
2.43.0


From 6ab873c51188354d4da6782dffcbc491e1ee28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 32/55] fix: element's bounds reasons claimed the new bound of
 array entries that cannot be equal to the result

---
 gcs/constraints/element/element.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gcs/constraints/element/element.cc b/gcs/constraints/element/element.cc
index 0d7ac26..d3c392c 100644
--- a/gcs/constraints/element/element.cc
+++ b/gcs/constraints/element/element.cc
@@ -44,6 +44,7 @@ using std::function;
 using std::max;
 using std::min;
 using std::optional;
+using std::pair;
 using std::string;
 using std::stringstream;
 using std::unique_ptr;
@@ -471,7 +472,8 @@ auto NDimensionalElement<EntryType_, dimensions_>::install_propagators_impl(Prop
                 gch::small_vector<size_t, dimensions_> elem;
                 optional<Integer> lowest_found, highest_found;
                 auto current_bounds = state.bounds(result_var);
-                vector<IntegerVariableID> considered_vars;
+                // array entries that can be chosen, and the bounds they had
+                vector<pair<IntegerVariableID, pair<Integer, Integer>>> considered_vars;
                 auto collect_supported_bounds = [&](auto && self, unsigned d) -> void {
                     state.for_each_value_immutable(index_vars.at(d), [&](Integer x) {
                         if (lowest_found && *lowest_found <= current_bounds.first && highest_found && *highest_found >= current_bounds.second)
@@ -488,9 +490,9 @@ auto NDimensionalElement<EntryType_, dimensions_>::install_propagators_impl(Prop
                             }
                             else {
                                 auto array_var = get_array_var<dimensions_>(elem, *array);
-                                if (array_has_nonconstants)
-                                    considered_vars.push_back(array_var);
                                 auto array_var_bounds = state.bounds(array_var);
+                                if (array_has_nonconstants)
+                                    considered_vars.emplace_back(array_var, array_var_bounds);
                                 if (current_bounds.second >= array_var_bounds.first && current_bounds.first <= array_var_bounds.second) {
                                     lowest_found = lowest_found ? min(*lowest_found, array_var_bounds.first) : array_var_bounds.first;
                                     highest_found = highest_found ? max(*highest_found, array_var_bounds.second) : array_var_bounds.second;
@@ -515,8 +517,15 @@ auto NDimensionalElement<EntryType_, dimensions_>::install_propagators_impl(Prop
                     Reason reason;
                     if (inference.want_reasons()) {
                         ReasonLiterals extra;
-                        for (const auto & var : considered_vars)
-                            extra.push_back(ge ? (var >= relevant_bound) : (var <= relevant_bound));
+                        // An entry that is not in the result's range at all has no
+                        // part in the new bound, and is ruled out by not being in it.
+                        for (const auto & [var, bounds] : considered_vars)
+                            if (bounds.second < current_bounds.first)
+                                extra.push_back(var < current_bounds.first);
+                            else if (bounds.first > current_bounds.second)
+                                extra.push_back(var > current_bounds.second);
+                            else
+                                extra.push_back(ge ? (var >= relevant_bound) : (var <= relevant_bound));
                         extra.push_back(result_var >= current_bounds.first);
                         extra.push_back(result_var <= current_bounds.second);
                         reason = with_extra(generic_reason(vector<IntegerVariableID>{index_vars.begin(), index_vars.end()}), std::move(extra));
-- 
2.43.0


From 26ec48ff80f7f2083fe94441ca532aadbeb1edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 33/55] fix: cumulative's elastic overload certificate mixed
 the bounds it was detected from with those pushed to since

---
 gcs/constraints/cumulative/cumulative.cc | 47 +++++++++++++++++-------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index 6db4e28..a50076d 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -1581,6 +1581,21 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
             return cap;
         };
 
+        // What the elastic certificate is to be written from: the bounds that the
+        // comparison is made with, and not those that some other rule has since
+        // pushed to while looking at an earlier window, which the per-time-point
+        // arrays know nothing of.
+        struct Scanned
+        {
+            Integer start_lo, start_hi, length, height;
+        };
+        vector<Scanned> scanned;
+        if (elastic_rules && logger)
+            for (size_t i = 0; i < starts.size(); ++i) {
+                auto [s_lo, s_hi] = state.bounds(starts[i]);
+                scanned.push_back(Scanned{s_lo, s_hi, llb(i), hlb(i)});
+            }
+
         for (size_t w = 0; w < window_starts.size(); ++w) {
             if (w > 0 && window_starts[w] == window_starts[w - 1])
                 continue;
@@ -2012,12 +2027,13 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                                 for (auto j : active_tasks) {
                                     if (t < per_task_t_lo[j] || t > per_task_t_hi[j] || ! is_inside[j])
                                         continue;
-                                    auto lst = state.upper_bound(starts[j]), eet = state.lower_bound(starts[j]) + llb(j);
+                                    const auto & was = scanned[j];
+                                    auto lst = was.start_hi, eet = was.start_lo + was.length;
                                     if (is_present(j) && lst <= t && t < eet)
                                         continue;
-                                    if (state.lower_bound(starts[j]) <= t && t < state.upper_bound(starts[j]) + llb(j))
+                                    if (was.start_lo <= t && t < was.start_hi + was.length)
                                         items.push_back(
-                                            SubsetSumItem{hlb(j), active_flags[j][static_cast<size_t>((t - per_task_t_lo[j]).raw_value)]});
+                                            SubsetSumItem{was.height, active_flags[j][static_cast<size_t>((t - per_task_t_lo[j]).raw_value)]});
                                 }
 
                                 // Where those heights do not add up to what the
@@ -2050,12 +2066,13 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                                     if (t < per_task_t_lo[j] || t > per_task_t_hi[j])
                                         continue;
                                     auto flag = active_flags[j][static_cast<size_t>((t - per_task_t_lo[j]).raw_value)];
-                                    auto lst = state.upper_bound(starts[j]), eet = state.lower_bound(starts[j]) + llb(j);
+                                    const auto & was = scanned[j];
+                                    auto lst = was.start_hi, eet = was.start_lo + was.length;
                                     if (is_present(j) && lst <= t && t < eet) {
                                         auto [line, coeff] = pin_contributor(reason, j, t);
                                         avail.add(line, coeff);
                                     }
-                                    else if (! (is_inside[j] && state.lower_bound(starts[j]) <= t && t < state.upper_bound(starts[j]) + llb(j)))
+                                    else if (! (is_inside[j] && was.start_lo <= t && t < was.start_hi + was.length))
                                         avail.weaken(flag, logger->names_and_ids_tracker());
                                 }
 
@@ -2120,20 +2137,22 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                                 // the tasks all span the window verifies
                                 // anyway, and why this only showed up on
                                 // generated instances.
-                                auto [i_est, i_lst] = state.bounds(starts[i]);
-                                auto energy_line = window_energy::derive_window_energy(
-                                    *logger, reason, lemma_task(i), i_est, i_lst + llb(i), state.bounds(starts[i]), ProofLevel::Temporary);
-                                if (! energy_line || energy_line->bound != llb(i))
+                                const auto & was = scanned[i];
+                                auto task = lemma_task(i);
+                                task.length = was.length;
+                                auto energy_line = window_energy::derive_window_energy(*logger, reason, task, was.start_lo, was.start_hi + was.length,
+                                    pair{was.start_lo, was.start_hi}, ProofLevel::Temporary);
+                                if (! energy_line || energy_line->bound != was.length)
                                     throw ProofError{"cumulative elastic overload: a contained task's window energy is not its whole length"};
-                                pol.add(energy_line->line, hlb(i));
-                                pol_required += hlb(i) * energy_line->bound;
+                                pol.add(energy_line->line, was.height);
+                                pol_required += was.height * energy_line->bound;
 
-                                auto lst = state.upper_bound(starts[i]), eet = state.lower_bound(starts[i]) + llb(i);
+                                auto lst = was.start_hi, eet = was.start_lo + was.length;
                                 for (Integer t = max(lst, a); t < min(eet, b); ++t) {
                                     pol.add(! logger->names_and_ids_tracker().xliteral_for(
                                                 active_flags[i][static_cast<size_t>((t - per_task_t_lo[i]).raw_value)]),
-                                        hlb(i), logger->names_and_ids_tracker());
-                                    pol_required -= hlb(i);
+                                        was.height, logger->names_and_ids_tracker());
+                                    pol_required -= was.height;
                                 }
                             }
 
-- 
2.43.0


From 774bf8b42caab694bd3ebf3d4dc1c2dd4fdecc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 34/55] fix: proving a cumulative with a task that must end at
 zero threw an exception

---
 gcs/innards/proofs/proof_logger.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index 2e10d4e..3ace141 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -835,15 +835,15 @@ auto ProofLogger::introduce_bits_of(
     // construction shape-independent.
     auto m = names_and_ids_tracker().num_bits(target).raw_value;
 
-    // A [0, 0] target now has zero bits (the empty sum, identically zero), for
-    // which the construction below would return default-constructed lines. No
-    // caller can currently supply one (cumulative's end proxy could only span
-    // [0, 0] if both operands were constant, and then no proxy is made), and
-    // the degenerate pair it would need (`form <= 0` / `form >= 0`, exactly
-    // the two pol-derived bound lines below) should be written and tested when
-    // a real caller appears, not speculatively.
-    if (0 == m)
-        throw ProofError{"introduce_bits_of does not support a zero-width target"};
+    // A [0, 0] target has zero bits (the empty sum, identically zero), so there
+    // is nothing to define, and the pair is just the form's own bounds. A form
+    // that can only be zero has every operand fixed, and their bound rows set
+    // all of their bits by unit propagation.
+    if (0 == m) {
+        auto form_at_most = emit_rup_proof_line(linear_form <= 0_i, level);
+        auto form_at_least = emit_rup_proof_line(linear_form >= 0_i, level);
+        return {form_at_most, form_at_least};
+    }
 
     // The form's own bound lines: Sigma c_i * (operand's lower row) for the
     // lower (using the upper row where c_i < 0), and symmetrically for the
-- 
2.43.0


From f2eb538421bb35f7f828cf9baba65f2898d76008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 35/55] fix: presolvers' proofs over a cumulative whose
 capacity is the most its encoding can express left a spare atom in its rows

---
 gcs/constraints/cumulative/donor_view.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/cumulative/donor_view.cc b/gcs/constraints/cumulative/donor_view.cc
index 0cca843..5862fec 100644
--- a/gcs/constraints/cumulative/donor_view.cc
+++ b/gcs/constraints/cumulative/donor_view.cc
@@ -19,6 +19,7 @@ using namespace gcs;
 using namespace gcs::innards;
 
 using std::make_optional;
+using std::max;
 using std::move;
 using std::nullopt;
 using std::optional;
@@ -286,8 +287,10 @@ auto gcs::innards::recover_constant_argument_row(ProofLogger & logger, const Cum
         // capacity`, which is the same number by a route that overflows: a
         // capacity encoded up to bit 62 makes the doubling the first thing that
         // does not fit, where the sum below reaches at most the largest value
-        // the encoding can express and so at most what a bit vector holds.
-        auto atom_coefficient = (highest_bit - 1_i - view.capacity) + highest_bit;
+        // the encoding can express and so at most what a bit vector holds. And
+        // at least one, because a reification that would need no coefficient,
+        // the bound being the most the encoding can express, is given one.
+        auto atom_coefficient = max((highest_bit - 1_i - view.capacity) + highest_bit, 1_i);
 
         // The definition, which is what brings the capacity's bits over to
         // cancel against the row's, and what leaves the atom behind.
@@ -309,8 +312,7 @@ auto gcs::innards::recover_constant_argument_row(ProofLogger & logger, const Cum
         if (! atom_is_false)
             atom_is_false = logger.emit_rup_proof_line(WPBSum{} + 1_i * capacity_at_most >= 1_i, ProofLevel::Temporary);
 
-        if (atom_coefficient > 0_i)
-            reduced.add(*atom_is_false, atom_coefficient);
+        reduced.add(*atom_is_false, atom_coefficient);
     }
 
     for (const auto & flag : weaken_out)
-- 
2.43.0


From ec3d7a85f5bca9f7cf3acdb9240292d5583bea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 36/55] fix: min_distance's matching proofs were refused where
 a two-valued position has both of its values in a conflict class

---
 gcs/constraints/min_distance/min_distance.cc | 30 ++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/gcs/constraints/min_distance/min_distance.cc b/gcs/constraints/min_distance/min_distance.cc
index d3188c9..fd34fa7 100644
--- a/gcs/constraints/min_distance/min_distance.cc
+++ b/gcs/constraints/min_distance/min_distance.cc
@@ -1,3 +1,4 @@
+#include <gcs/constraints/innards/recover_am1.hh>
 #include <gcs/constraints/min_distance/min_distance.hh>
 #include <gcs/exception.hh>
 #include <gcs/innards/inference_tracker.hh>
@@ -697,9 +698,10 @@ auto MinDistance::install_matching_propagator(Propagators & propagators) -> void
                 // Per unordered pair emit ~l_r \/ ~l_s \/ g by RUP (cross-site via
                 // the pair clause + z order; same-site via the per-site count
                 // constraint + z order; same-position via the variable's at-most-one),
-                // then combine with the all_different PolBuilder layer recurrence, so
-                // g rides through the ceil-divisions with an exact coefficient:
-                // Sum_{l in L} ~l + (|L|-1) g >= |L|-1.
+                // then combine, so g rides through the ceil-divisions with an exact
+                // coefficient: Sum_{l in L} ~l + (|L|-1) g >= |L|-1. A two-valued
+                // position can have both of its values in L, and they can be the
+                // two polarities of one bit, which recover_am1 allows for.
                 auto emit_am1 = [&](const vector<pair<std::size_t, Integer>> & lits) -> optional<ProofLine> {
                     if (lits.size() < 2) {
                         // A single-literal site contributes nothing to the counting
@@ -709,21 +711,13 @@ auto MinDistance::install_matching_propagator(Propagators & propagators) -> void
                             return logger->emit_rup_proof_line(WPBSum{} + 1_i * (x[lits[0].first] != lits[0].second) >= 0_i, ProofLevel::Temporary);
                         return std::nullopt;
                     }
-                    PolBuilder am1;
-                    int layer = 0;
-                    for (std::size_t i = 1; i < lits.size(); ++i) {
-                        if (++layer >= 2)
-                            am1.multiply_by(Integer{layer});
-                        for (std::size_t j = 0; j < i; ++j) {
-                            auto ne = logger->emit_rup_proof_line(
-                                WPBSum{} + 1_i * (x[lits[i].first] != lits[i].second) + 1_i * (x[lits[j].first] != lits[j].second) + 1_i * guard >=
-                                    1_i,
-                                ProofLevel::Temporary);
-                            am1.add(ne);
-                        }
-                        am1.divide_by(Integer{layer + 1});
-                    }
-                    return am1.emit(*logger, ProofLevel::Temporary);
+                    vector<IntegerVariableCondition> atoms;
+                    for (const auto & [pos, site] : lits)
+                        atoms.push_back(x[pos] == site);
+                    return recover_am1<IntegerVariableCondition>(
+                        *logger, ProofLevel::Temporary, atoms, [&](const IntegerVariableCondition & a, const IntegerVariableCondition & b) {
+                            return logger->emit_rup_proof_line(WPBSum{} + 1_i * ! a + 1_i * ! b + 1_i * guard >= 1_i, ProofLevel::Temporary);
+                        });
                 };
 
                 PolBuilder final_pol;
-- 
2.43.0


From b6a06274796ed631e9bfe92aa23844784efafeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 37/55] fix: disjunctive's sorting network certificate was used
 for optional tasks, whose absence it has no room for

---
 gcs/constraints/disjunctive/disjunctive.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index 42f40b0..59dd8ad 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -750,10 +750,12 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
             // Not every window can take it. A wire reads a start variable's own
             // bit encoding, which has to be a simple variable's and has to read
             // as an unsigned magnitude, and the durations have to be constants
-            // for the separation rows to be duration-relative. A window failing
-            // any of that falls back rather than declining the conflict.
+            // for the separation rows to be duration-relative. Nor can a task be
+            // optional, the network's separations having no room for an absence.
+            // A window failing any of that falls back rather than declining the
+            // conflict.
             auto sorting_network_bits = [&](size_t i) -> optional<vector<ProofLiteralOrFlag>> {
-                if (is_var_len(i))
+                if (is_var_len(i) || presence[i])
                     return nullopt;
                 const auto * simple = std::get_if<SimpleIntegerVariableID>(&starts[i]);
                 if (! simple)
-- 
2.43.0


From b1686527cc9a36e07080a4155c9f294b2fcb06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 38/55] fix: global cardinality's proofs claimed a
 contradiction where a constant is none of two cover values

---
 .../global_cardinality/bounds_global_cardinality.cc    | 10 +++++-----
 gcs/constraints/global_cardinality/justify.cc          |  8 ++++----
 gcs/constraints/min_distance/min_distance.cc           |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/gcs/constraints/global_cardinality/bounds_global_cardinality.cc b/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
index 5c310f3..deb9982 100644
--- a/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
@@ -311,10 +311,10 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                                 for (const auto & var : potential) {
                                     vector<IntegerVariableCondition> atoms;
                                     for (std::size_t v = a; v <= b; ++v)
-                                        atoms.push_back(var == values[v]);
+                                        atoms.push_back(var != values[v]);
                                     pb.add(recover_am1<IntegerVariableCondition>(*logger, ProofLevel::Temporary, atoms,
                                         [&](const IntegerVariableCondition & p, const IntegerVariableCondition & q) {
-                                            return logger->emit(RUPProofRule{}, WPBSum{} + 1_i * ! p + 1_i * ! q >= 1_i, ProofLevel::Temporary);
+                                            return logger->emit(RUPProofRule{}, WPBSum{} + 1_i * p + 1_i * q >= 1_i, ProofLevel::Temporary);
                                         }));
                                 }
                                 for (std::size_t v = a; v <= b; ++v)
@@ -368,12 +368,12 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                 for (const auto & var : potential) {
                     vector<IntegerVariableCondition> atoms;
                     for (std::size_t v = a; v <= b; ++v)
-                        atoms.push_back(var == values[v]);
+                        atoms.push_back(var != values[v]);
                     if (kvar == optional<IntegerVariableID>{var})
-                        atoms.push_back(var == kw);
+                        atoms.push_back(var != kw);
                     pb.add(recover_am1<IntegerVariableCondition>(
                         *logger, ProofLevel::Temporary, atoms, [&](const IntegerVariableCondition & p, const IntegerVariableCondition & q) {
-                            return logger->emit(RUPProofRule{}, WPBSum{} + 1_i * ! p + 1_i * ! q >= 1_i, ProofLevel::Temporary);
+                            return logger->emit(RUPProofRule{}, WPBSum{} + 1_i * p + 1_i * q >= 1_i, ProofLevel::Temporary);
                         }));
                 }
                 pb.emit(*logger, ProofLevel::Temporary);
diff --git a/gcs/constraints/global_cardinality/justify.cc b/gcs/constraints/global_cardinality/justify.cc
index 1138245..2353e8f 100644
--- a/gcs/constraints/global_cardinality/justify.cc
+++ b/gcs/constraints/global_cardinality/justify.cc
@@ -80,18 +80,18 @@ auto gcs::innards::emit_gcc_demand_pol(ProofLogger & logger, const State & state
     for (const auto & var : potential) {
         vector<IntegerVariableCondition> atoms;
         for (const auto & val : hall)
-            atoms.push_back(var == val);
+            atoms.push_back(var != val);
         if (pruned_var == optional<IntegerVariableID>{var} && pruned_value)
-            atoms.push_back(var == *pruned_value);
+            atoms.push_back(var != *pruned_value);
         if (atoms.size() >= 2)
             pb.add(recover_am1<IntegerVariableCondition>(
                 logger, ProofLevel::Temporary, atoms, [&](const IntegerVariableCondition & p, const IntegerVariableCondition & q) {
-                    return logger.emit(RUPProofRule{}, WPBSum{} + 1_i * ! p + 1_i * ! q >= 1_i, ProofLevel::Temporary);
+                    return logger.emit(RUPProofRule{}, WPBSum{} + 1_i * p + 1_i * q >= 1_i, ProofLevel::Temporary);
                 }));
         else if (atoms.size() == 1)
             // At-most-one over a single atom is the vacuous x <= 1; emit it so
             // the pol still gets the (1 - x) contribution for this variable.
-            pb.add(logger.emit(RUPProofRule{}, WPBSum{} + 1_i * ! atoms[0] >= 0_i, ProofLevel::Temporary));
+            pb.add(logger.emit(RUPProofRule{}, WPBSum{} + 1_i * atoms[0] >= 0_i, ProofLevel::Temporary));
     }
     pb.emit(logger, ProofLevel::Temporary);
 }
diff --git a/gcs/constraints/min_distance/min_distance.cc b/gcs/constraints/min_distance/min_distance.cc
index fd34fa7..42531a7 100644
--- a/gcs/constraints/min_distance/min_distance.cc
+++ b/gcs/constraints/min_distance/min_distance.cc
@@ -713,10 +713,10 @@ auto MinDistance::install_matching_propagator(Propagators & propagators) -> void
                     }
                     vector<IntegerVariableCondition> atoms;
                     for (const auto & [pos, site] : lits)
-                        atoms.push_back(x[pos] == site);
+                        atoms.push_back(x[pos] != site);
                     return recover_am1<IntegerVariableCondition>(
                         *logger, ProofLevel::Temporary, atoms, [&](const IntegerVariableCondition & a, const IntegerVariableCondition & b) {
-                            return logger->emit_rup_proof_line(WPBSum{} + 1_i * ! a + 1_i * ! b + 1_i * guard >= 1_i, ProofLevel::Temporary);
+                            return logger->emit_rup_proof_line(WPBSum{} + 1_i * a + 1_i * b + 1_i * guard >= 1_i, ProofLevel::Temporary);
                         });
                 };
 
-- 
2.43.0


From bdf9f8474e7e880f80e69c3bba28c399922e2796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 39/55] fix: cumulative's overload certificate was refused
 where an earlier push had lengthened a contained task

---
 gcs/constraints/cumulative/cumulative.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index a50076d..f08add4 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -1581,16 +1581,16 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
             return cap;
         };
 
-        // What the elastic certificate is to be written from: the bounds that the
-        // comparison is made with, and not those that some other rule has since
-        // pushed to while looking at an earlier window, which the per-time-point
-        // arrays know nothing of.
+        // What the overload certificates are to be written from: the bounds that
+        // the comparison is made with, and not those that some other rule has
+        // since pushed to while looking at an earlier window, which neither the
+        // candidates nor the per-time-point arrays know anything of.
         struct Scanned
         {
             Integer start_lo, start_hi, length, height;
         };
         vector<Scanned> scanned;
-        if (elastic_rules && logger)
+        if (logger)
             for (size_t i = 0; i < starts.size(); ++i) {
                 auto [s_lo, s_hi] = state.bounds(starts[i]);
                 scanned.push_back(Scanned{s_lo, s_hi, llb(i), hlb(i)});
@@ -2245,8 +2245,11 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                     }
 
                     for (auto i : inside_tasks) {
+                        const auto & was = scanned[i];
+                        auto task = lemma_task(i);
+                        task.length = was.length;
                         auto energy_line = window_energy::derive_window_energy(
-                            *logger, reason, lemma_task(i), a, shrink_lemma_window ? b - 1_i : b, state.bounds(starts[i]), ProofLevel::Temporary);
+                            *logger, reason, task, a, shrink_lemma_window ? b - 1_i : b, pair{was.start_lo, was.start_hi}, ProofLevel::Temporary);
                         if (! energy_line) {
                             // Only reachable under the shrunk-window
                             // mutation, where a task can be left with
@@ -2255,7 +2258,7 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                                 continue;
                             throw ProofError{"cumulative overload: a task in the window has no derivable energy"};
                         }
-                        if (! shrink_lemma_window && energy_line->bound != llb(i))
+                        if (! shrink_lemma_window && energy_line->bound != was.length)
                             throw ProofError{"cumulative overload: window energy derivation is weaker than the check assumed"};
 
                         auto line = energy_line->line;
-- 
2.43.0


From c301baf7b53faafd18e07155b8d219c79f367341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 40/55] fix: smart tables and circuits asserted inferences
 without their reasons when proofs use assertions

---
 gcs/constraints/circuit/circuit_scc.cc     | 4 ++--
 gcs/constraints/smart_table/smart_table.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/circuit/circuit_scc.cc b/gcs/constraints/circuit/circuit_scc.cc
index 95d01a2..c5b21fd 100644
--- a/gcs/constraints/circuit/circuit_scc.cc
+++ b/gcs/constraints/circuit/circuit_scc.cc
@@ -976,7 +976,7 @@ namespace
                         inference.infer(logger, succ[node] != w, NoJustificationNeeded{}, NoReason{});
                     }
                     else {
-                        inference.infer(logger, succ[node] != w, JustifyUsingRUP{hints::Circuit{owner}}, NoReason{});
+                        inference.infer(logger, succ[node] != w, JustifyUsingRUP{hints::Circuit{owner}}, reason);
                     }
                 }
                 data.lowlink[node] = pos_min(data.lowlink[node], data.visit_number[next_node]);
@@ -1026,7 +1026,7 @@ namespace
                         }
                         else {
 
-                            inference.infer(logger, succ[from_node] == Integer{to_node}, JustifyUsingRUP{hints::Circuit{owner}}, NoReason{});
+                            inference.infer(logger, succ[from_node] == Integer{to_node}, JustifyUsingRUP{hints::Circuit{owner}}, reason);
                         }
                     }
                 }
diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index e3e2116..fdd9744 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -536,7 +536,7 @@ namespace
         else {
             for (const auto & var : vars) {
                 for (const auto & value : unsupported[var]) {
-                    inference.infer_not_equal(logger, var, value, JustifyUsingRUP{hints::SmartTable{owner}}, NoReason{});
+                    inference.infer_not_equal(logger, var, value, JustifyUsingRUP{hints::SmartTable{owner}}, reason);
                 }
             }
         }
-- 
2.43.0


From 23746037ad520820ba918c3480627f5852e0ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 41/55] fix: a constraint over a condition on a view and the
 view itself had no name for the condition when proofs use assertions

---
 gcs/innards/proofs/names_and_ids_tracker.cc | 23 ++++++++++++---------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index 7e804d9..ec3b456 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -609,6 +609,17 @@ auto NamesAndIDsTracker::need_proof_name(const VariableConditionFrom<SimpleOrPro
 
 auto NamesAndIDsTracker::need_all_proof_names_in(const SumOf<Weighted<PseudoBooleanTerm>> & sum) -> void
 {
+    // Opportunistically register view bit vectors during model writing, and
+    // before looking at any conditions, because how a condition on a view is
+    // written depends upon whether the view has been registered. need_view can
+    // only introduce a view while the model is being written (it throws during
+    // the proof-logging phase), so this is gated on _imp->model.
+    if (_imp->model)
+        for (auto & [_, v] : sum.terms)
+            if (auto var = std::get_if<IntegerVariableID>(&v))
+                if (auto view = std::get_if<ViewOfIntegerVariableID>(var))
+                    static_cast<void>(need_view(*view));
+
     for (auto & [_, v] : sum.terms)
         overloaded{
             [&](const ProofLiteral & lit) {
@@ -618,17 +629,9 @@ auto NamesAndIDsTracker::need_all_proof_names_in(const SumOf<Weighted<PseudoBool
                     [&]<typename T_>(const VariableConditionFrom<T_> & cond) { need_proof_name(cond); } //
                 }
                     .visit(simplify_literal(*this, lit));
-            },                         //
-            [&](const ProofFlag &) {}, //
-            [&](const IntegerVariableID & var) {
-                // Opportunistically register view bit vectors during model
-                // writing. need_view can only introduce a view while the
-                // model is being written (it throws during the proof-logging
-                // phase), so this is gated on _imp->model.
-                if (_imp->model)
-                    if (auto view = std::get_if<ViewOfIntegerVariableID>(&var))
-                        static_cast<void>(need_view(*view));
             },                                                //
+            [&](const ProofFlag &) {},                        //
+            [&](const IntegerVariableID &) {},                //
             [&](const ProofOnlySimpleIntegerVariableID &) {}, //
             [&](const ProofBitVariable &) {}                  //
         }
-- 
2.43.0


From 2953b670b8b835f948fdbaaf1b1905ceb2db3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:34 +0000
Subject: [PATCH 42/55] fix: arg_sort's sorted values had no bounds in proofs
 that use assertions, although reasons mention them

---
 gcs/constraints/sort/arg_sort.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/sort/arg_sort.cc b/gcs/constraints/sort/arg_sort.cc
index 9d81d59..9b19586 100644
--- a/gcs/constraints/sort/arg_sort.cc
+++ b/gcs/constraints/sort/arg_sort.cc
@@ -216,10 +216,9 @@ auto ArgSort::install_propagators(Propagators & propagators) -> void
     // the two final bounds persist -- the per-value case lemmas are forgotten.
     propagators.install_initialiser(
         [p = _p, y = y_ids, offset = _offset, lo = _lowest_x, hi = _highest_x, n](const State &, auto &, ProofLogger * const logger) -> void {
-            // Only in full-justification (Off) mode: in assertion modes the propagator's
-            // y-bound inferences are asserted rather than justified, so they need no
-            // pre-derived bounds (and fix_bound is likewise skipped for these vars).
-            if (! logger || logger->get_assertion_level() > AssertionLevel::Off)
+            // Also when inferences are asserted, because their reasons say that y is
+            // within these bounds, and backtracking has to see that they hold.
+            if (! logger || logger->get_assertion_level() > AssertionLevel::Definitions)
                 return;
             auto scratch = logger->temporary_proof_level();
             for (size_t j = 0; j < n; ++j) {
-- 
2.43.0


From f99c085878063f3fb6ede039366ffe418da42a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 43/55] fix: two arg_sort constraints gave their sorted values
 the same names in proofs

---
 gcs/constraints/sort/arg_sort.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/sort/arg_sort.cc b/gcs/constraints/sort/arg_sort.cc
index 9b19586..6c6db51 100644
--- a/gcs/constraints/sort/arg_sort.cc
+++ b/gcs/constraints/sort/arg_sort.cc
@@ -128,7 +128,8 @@ auto ArgSort::define_proof_model(ProofModel & model, const State &) -> void
     // match, so the in-proof introduction of y's atoms lines up with cake's.
     vector<IntegerVariableID> y_ids{_y.begin(), _y.end()};
     for (size_t j = 0; j < _y.size(); ++j)
-        model.set_up_integer_variable(_y[j], _lowest_x, _highest_x, "argsort_y_" + std::to_string(j), IntegerVariableProofRepresentation::Bits,
+        model.set_up_integer_variable(_y[j], _lowest_x, _highest_x, "argsort_y_" + std::to_string(_y[j].index),
+            IntegerVariableProofRepresentation::Bits,
             CakeBitNaming{.id = _constraint_id,
                 .indices = {static_cast<long long>(j)},
                 .value_annotation = "y",
-- 
2.43.0


From 4122d0311db5cceb0fdf826abe9e9cad76a29a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 44/55] fix: inferred disjunctive and cumulative proofs cited
 unknown labels unless names were verbose

---
 gcs/innards/proofs/flag_bridge.cc           | 10 +++++-----
 gcs/innards/proofs/names_and_ids_tracker.cc |  6 ++++++
 gcs/innards/proofs/names_and_ids_tracker.hh |  8 ++++++++
 gcs/innards/proofs/proof_model.cc           |  6 +++---
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/gcs/innards/proofs/flag_bridge.cc b/gcs/innards/proofs/flag_bridge.cc
index d69fa0e..23f1ecd 100644
--- a/gcs/innards/proofs/flag_bridge.cc
+++ b/gcs/innards/proofs/flag_bridge.cc
@@ -25,15 +25,15 @@ namespace
     // them: `[r]` is `flag -> ineq` and `[f]` is `ineq -> flag`. The names read
     // backwards, which is ProofModel's doing and not worth diverging from here.
     //
-    // Built from the flag's full PB rendering rather than from name_of, which
-    // for a flag made from a plain stem returns just that stem and would name
-    // the wrong row --- or none. ProofModel labels these halves the same way,
-    // and says so where it does it.
+    // Not built from name_of, which for a flag made from a plain stem returns
+    // just that stem and would name the wrong row --- or none, nor from the
+    // flag's PB rendering, which is not what a structured name is labelled by
+    // unless names are verbose.
     [[nodiscard]] auto label_base(const NamesAndIDsTracker & tracker, const ProofFlag & flag) -> string
     {
         if (! flag.positive)
             throw ProofError{"flag bridge: bridging a negated flag, whose reification halves are labelled under the positive one"};
-        return tracker.pb_file_string_for(flag);
+        return tracker.reification_label_base(flag);
     }
 
     [[nodiscard]] auto implies_condition(const NamesAndIDsTracker & tracker, const ProofFlag & flag) -> ProofLineLabel
diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index ec3b456..d29daa7 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -2177,6 +2177,12 @@ auto NamesAndIDsTracker::name_of(ProofFlag id) const -> const string &
     return _imp->flag_names.at(id);
 }
 
+auto NamesAndIDsTracker::reification_label_base(ProofFlag id) const -> const string &
+{
+    const auto & name = name_of(id);
+    return string::npos == name.find('[') ? pb_file_string_for(id) : name;
+}
+
 auto NamesAndIDsTracker::s_expr_name_of(IntegerVariableID id) const -> string
 {
     return overloaded{
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index d7e8bdb..3cf4b6d 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -820,6 +820,14 @@ namespace gcs::innards
          * Get the human-readable name for a variable.
          */
         [[nodiscard]] auto name_of(ProofFlag id) const -> const std::string &;
+
+        /**
+         * What the labels of a fully reified ProofFlag's two halves start with:
+         * the flag's name if that is a structured, and so unique, cake_pb_cp
+         * name, and otherwise its full PB rendering. The same whether or not
+         * the proof uses verbose names.
+         */
+        [[nodiscard]] auto reification_label_base(ProofFlag id) const -> const std::string &;
     };
 }
 
diff --git a/gcs/innards/proofs/proof_model.cc b/gcs/innards/proofs/proof_model.cc
index a30f3db..c9d5821 100644
--- a/gcs/innards/proofs/proof_model.cc
+++ b/gcs/innards/proofs/proof_model.cc
@@ -301,10 +301,10 @@ auto ProofModel::add_two_way_reified_constraint(const WPBSumLE & ineq, const Pro
     // so callers reference the halves by @label, never by line number, and for a
     // cake-named flag (x[id][..] / v[id][..]) the labels match cake_pb_cp. Mirrors
     // the manual labelling in create_proof_flag_fully_reifying(ConstraintID, ...).
-    // Use the flag's full PB rendering (e.g. f[3][sort_before] or x[id][i_j][bf]),
-    // not name_of, whose plain-flag form is the bare stem and would collide across
+    // Use reification_label_base (e.g. f[3][sort_before] or x[id][i_j][bf]), not
+    // name_of, whose plain-flag form is the bare stem and would collide across
     // flags sharing it.
-    auto base = names_and_ids_tracker().pb_file_string_for(flag);
+    auto base = names_and_ids_tracker().reification_label_base(flag);
     auto forward = add_labelled_constraint(base + "[r]", ineq, HalfReifyOnConjunctionOf{{flag}});
     names_and_ids_tracker().derive_deviewed_form_for(forward, ineq.lhs, /*le_half=*/true);
     auto reverse_ineq = negate_inequality(ineq);
-- 
2.43.0


From 7d08fa086c2b53c939223987100f8c8f47d9ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 45/55] fix: the end of a cumulative task whose start or length
 is a view could not be derived in proofs

---
 gcs/innards/proofs/proof_logger.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index 3ace141..d6ef9d0 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -847,10 +847,10 @@ auto ProofLogger::introduce_bits_of(
 
     // The form's own bound lines: Sigma c_i * (operand's lower row) for the
     // lower (using the upper row where c_i < 0), and symmetrically for the
-    // upper. Terms without tracked bound rows (views, flags, literals ---
-    // none of which any current caller passes) leave the top goals to plain
-    // RUP as before; constants fold into the goals' right-hand sides and
-    // need no row.
+    // upper. Terms without tracked bound rows (flags, literals, and views
+    // that have no bits of their own --- none of which any current caller
+    // passes) leave the top goals to plain RUP as before; constants fold into
+    // the goals' right-hand sides and need no row.
     PolBuilder form_lower_bound, form_upper_bound;
     bool have_bound_rows = false, bound_rows_derivable = true;
     for (const auto & term : linear_form.terms) {
@@ -878,9 +878,14 @@ auto ProofLogger::introduce_bits_of(
             [&](const ProofOnlySimpleIntegerVariableID & id) { add_rows_for(id); }, //
             [&](const IntegerVariableID & var) {
                 overloaded{
-                    [&](const SimpleIntegerVariableID & id) { add_rows_for(id); },         //
-                    [&](const ConstantIntegerVariableID &) {},                             //
-                    [&](const ViewOfIntegerVariableID &) { bound_rows_derivable = false; } //
+                    [&](const SimpleIntegerVariableID & id) { add_rows_for(id); }, //
+                    [&](const ConstantIntegerVariableID &) {},                     //
+                    [&](const ViewOfIntegerVariableID & view) {
+                        if (auto v_id = names_and_ids_tracker().find_view(view))
+                            add_rows_for(*v_id);
+                        else
+                            bound_rows_derivable = false;
+                    } //
                 }
                     .visit(var);
             } //
-- 
2.43.0


From b308cd557a587eae74da82bc119dc9e5343e4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 46/55] fix: disjunctive set-based precedences could not be
 proved when a duration was not constant

---
 gcs/constraints/disjunctive/disjunctive.cc | 32 ++++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/gcs/constraints/disjunctive/disjunctive.cc b/gcs/constraints/disjunctive/disjunctive.cc
index 59dd8ad..617ff0b 100644
--- a/gcs/constraints/disjunctive/disjunctive.cc
+++ b/gcs/constraints/disjunctive/disjunctive.cc
@@ -547,6 +547,14 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                     .first->second;
             };
 
+            // The same for a task that is only known to run for at least one
+            // under the reason, its declared minimum being zero.
+            auto escape_is_false_here = [&](size_t i, const ReasonLiterals & reason) -> optional<ProofLine> {
+                if (! zero[i] || energy_len(i) > 0_i)
+                    return escape_is_false(i);
+                return logger->emit_rup_proof_line_under_reason(reason, WPBSum{} + 1_i * *zero[i] <= 0_i, ProofLevel::Temporary);
+            };
+
             auto activity_flag = [&](size_t i, Integer t) -> const ActivityFlag & {
                 auto key = make_tuple(i, t.raw_value, energy_len(i).raw_value);
                 if (auto found = activity->find(key); found != activity->end())
@@ -987,8 +995,8 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 if (degree <= 0_i)
                     throw ProofError{"disjunctive set-based precedence: the ordering is not detectable"};
                 PolBuilder refute;
-                refute.add(
-                    emit_before_pol(refuted_from, refuted_to, starts[refuted_from] >= from_lb, starts[refuted_to] < to_ub + 1_i, nullopt, degree));
+                refute.add(emit_before_pol(refuted_from, refuted_to, starts[refuted_from] >= from_lb, starts[refuted_to] < to_ub + 1_i,
+                    lb_push ? nullopt : duration_floor(k.task), degree));
                 // What the divided row still carries is the two bounds the
                 // reason holds, one on each task.
                 if (! is_constant_variable(starts[refuted_from]))
@@ -1006,7 +1014,7 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 forced.add(clause_lines.at(make_pair(min(j, k.task), max(j, k.task))));
                 forced.add(refutation);
                 for (auto r : {j, k.task})
-                    if (auto row = escape_is_false(r))
+                    if (auto row = escape_is_false_here(r, reason))
                         forced.add(*row);
                 auto ordering = forced.saturate().emit(*logger, ProofLevel::Temporary);
 
@@ -1016,7 +1024,8 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 // two-literal clause the guarded row wants.
                 PolBuilder clause;
                 if (lb_push)
-                    clause.add(emit_before_pol(k.task, j, starts[k.task] >= threshold - k.duration, starts[j] < threshold));
+                    clause.add(emit_before_pol(
+                        k.task, j, starts[k.task] >= threshold - k.duration, starts[j] < threshold, duration_floor(k.task)));
                 else
                     clause.add(emit_before_pol(j, k.task, starts[j] >= threshold - p_j + 1_i, starts[k.task] < threshold + 1_i));
                 clause.add(ordering);
@@ -1190,7 +1199,7 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                 forced.add(clause_lines.at(make_pair(min(j, k.task), max(j, k.task))));
                 forced.add(refutation);
                 for (auto r : {j, k.task})
-                    if (auto row = escape_is_false(r))
+                    if (auto row = escape_is_false_here(r, reason))
                         forced.add(*row);
                 auto ordering = forced.saturate().emit(*logger, ProofLevel::Temporary);
 
@@ -1830,6 +1839,11 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                         // `state` in the justification, since by then an earlier
                         // push has landed and the state holds a bound the reason
                         // does not support.
+                        //
+                        // Each is counted at what the certificate's energy rows
+                        // count it at, which for a variable duration is less
+                        // than what it is now known to last: a successor has to
+                        // be detectable at that too.
                         vector<SetTask> predecessors, successors;
                         for (auto k : active_tasks) {
                             if (k == j || min_len(k) == 0_i || ! is_present(k))
@@ -1841,16 +1855,16 @@ auto Disjunctive::install_propagators(Propagators & propagators) -> void
                                     predecessor = k;
                                     predecessor_eet = eet_k;
                                 }
-                                if (rules.detectable_precedences_set)
-                                    predecessors.push_back(SetTask{k, k_lb, min_len(k), k_lb, k_ub});
+                                if (rules.detectable_precedences_set && energy_len(k) > 0_i)
+                                    predecessors.push_back(SetTask{k, k_lb, energy_len(k), k_lb, k_ub});
                             }
                             if (eet_k > cur_ub) {
                                 if (! successor || k_ub < successor_lst) {
                                     successor = k;
                                     successor_lst = k_ub;
                                 }
-                                if (rules.detectable_precedences_set)
-                                    successors.push_back(SetTask{k, k_ub + min_len(k), min_len(k), k_lb, k_ub});
+                                if (rules.detectable_precedences_set && energy_len(k) > 0_i && k_lb + energy_len(k) > cur_ub)
+                                    successors.push_back(SetTask{k, k_ub + energy_len(k), energy_len(k), k_lb, k_ub});
                             }
                         }
 
-- 
2.43.0


From 7d65759395b1c956c0d2482da7d6b2162d8d82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 47/55] fix: a global cardinality constraint with different
 numbers of values and counts was accepted, and read out of bounds

---
 gcs/constraints/global_cardinality/global_cardinality.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index da88f63..8a49ae9 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -1,6 +1,7 @@
 #include <gcs/constraint.hh>
 #include <gcs/constraints/global_cardinality/global_cardinality.hh>
 #include <gcs/constraints/global_cardinality/hints.hh>
+#include <gcs/exception.hh>
 #include <gcs/expression.hh>
 #include <gcs/innards/inference_tracker.hh>
 #include <gcs/innards/proofs/names_and_ids_tracker.hh>
@@ -34,6 +35,8 @@ using std::ranges::sort;
 GlobalCardinality::GlobalCardinality(vector<IntegerVariableID> vars, vector<Integer> values, vector<IntegerVariableID> counts) :
     _vars(move(vars)), _values(move(values)), _counts(move(counts))
 {
+    if (_values.size() != _counts.size())
+        throw InvalidProblemDefinitionException{"GlobalCardinality: values and counts must have the same size"};
 }
 
 auto GlobalCardinality::with_consistency(GlobalCardinalityConsistency level) -> GlobalCardinality &
-- 
2.43.0


From 252d36c3d20dcfc2c614eeaf9b17ac95f4864d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 48/55] fix: a FlatZinc regular whose start state is not the
 first was given the wrong transitions and final states

---
 minizinc/fzn_glasgow.cc | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index 67ce3da..d3de128 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -957,28 +957,22 @@ auto main(int argc, char * argv[]) -> int
                 const auto & raw_transitions = arg_as_array_of_integer(data, args, 3);
                 const auto & start_state = static_cast<long long>(args.at(4));
 
-                vector<vector<long>> transitions;
-                for (int i = 0; i < num_states; i++) {
-                    transitions.emplace_back();
-                    for (int j = 0; j < num_symbols; j++) {
-                        // Swap 0 and start state to ensure start state is always 0 for gcs::regular
-                        auto t_value = raw_transitions->at(i * num_symbols + j).raw_value;
-                        if (t_value == start_state) {
-                            transitions[i].emplace_back(0);
-                        }
-                        else if (t_value == 1) {
-                            transitions[i].emplace_back(start_state - 1);
-                        }
-                        else
-                            transitions[i].emplace_back(t_value - 1);
-                    }
-                }
+                // Number states from 0, swapping the start state with the first so that it is state 0, as
+                // gcs::Regular requires. Rows and final states have to be renumbered as well as the targets.
+                auto renumber = [&](long long state) -> long {
+                    return static_cast<long>(state == start_state ? 0 : state == 1 ? start_state - 1 : state - 1);
+                };
+
+                vector<vector<long>> transitions(num_states);
+                for (int i = 0; i < num_states; i++)
+                    for (int j = 0; j < num_symbols; j++)
+                        transitions.at(renumber(i + 1)).emplace_back(renumber(raw_transitions->at(i * num_symbols + j).raw_value));
 
                 const auto & final_states = arg_as_set_of_integer(data, args, 5);
                 vector<long> final_states_raw{};
                 for (long i = 1; i < num_states + 1; i++) {
                     if (final_states.contains(Integer{i})) {
-                        final_states_raw.emplace_back(i - 1);
+                        final_states_raw.emplace_back(renumber(i));
                     }
                 }
 
-- 
2.43.0


From ac99296fc87f753d6d5485124fd0b4c990bc0c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 49/55] fix: the value that a FlatZinc variable is declared
 equal to was ignored

---
 minizinc/fzn_glasgow.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index d3de128..753286c 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -432,6 +432,11 @@ auto main(int argc, char * argv[]) -> int
                 throw FlatZincInterfaceError{format("Unknown flatzinc variable type {} for variable {} in {}", var_type, name, fznname)};
         }
 
+        // A variable can be declared equal to a constant or to another variable, which need not be declared before it.
+        for (auto v = fzn["variables"].begin(), v_end = fzn["variables"].end(); v != v_end; ++v)
+            if (v.value().contains("rhs"))
+                problem.post(Equals{data.integer_variables.at(v.key()).first, arg_as_var(data, nlohmann::json::array({v.value()["rhs"]}), 0)});
+
         for (auto a = fzn["arrays"].begin(), a_end = fzn["arrays"].end(); a != a_end; ++a) {
             auto name = a.key();
             auto arraydata = a.value();
-- 
2.43.0


From 6ff763d7ab3bfdc0de8db6a07a417cbc297ef808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 50/55] fix: a FlatZinc search annotation that is only a name
 was an error

---
 minizinc/fzn_glasgow.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index 753286c..75eab78 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -1075,7 +1075,10 @@ auto main(int argc, char * argv[]) -> int
         if ((! free_search) && fzn["solve"].contains("ann")) {
             function<optional<BranchHeuristic>(const nlohmann::json &)> parse_search;
             parse_search = [&data, &parse_search, &random_seed](const nlohmann::json & ann) -> optional<BranchHeuristic> {
-                if (ann["id"] == "bool_search" || ann["id"] == "int_search") {
+                // An annotation without arguments is just its name, and none of those are searches.
+                if (! ann.is_object())
+                    return nullopt;
+                else if (ann["id"] == "bool_search" || ann["id"] == "int_search") {
                     auto args = ann["args"];
                     vector<IntegerVariableID> vars = arg_as_array_of_var(data, args, 0);
                     string var_heuristic = args[1];
@@ -1145,11 +1148,9 @@ auto main(int argc, char * argv[]) -> int
 
             auto anns = fzn["solve"]["ann"];
             for (const auto & ann : anns) {
-                if (ann["id"] == "int_search" || ann["id"] == "bool_search" || ann["id"] == "seq_search") {
-                    auto search = parse_search(ann);
-                    if (search)
-                        brancher = branch_sequence(*search, brancher);
-                }
+                auto search = parse_search(ann);
+                if (search)
+                    brancher = branch_sequence(*search, brancher);
             }
         }
 
-- 
2.43.0


From 2dc7ac3bc4ae7dd6ea980b9df0c0e7e02544672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 51/55] fix: a FlatZinc mdd whose arrays are not as long as it
 says they are was read out of bounds

---
 minizinc/fzn_glasgow.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index 75eab78..7d4ff1e 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -35,6 +35,7 @@
 #include <string>
 #include <thread>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 using namespace gcs;
@@ -888,6 +889,10 @@ auto main(int argc, char * argv[]) -> int
                 auto label = arg_as_array_of_set_of_integer(data, args, 5);
                 auto to = arg_as_array_of_integer(data, args, 6);
 
+                if (std::cmp_not_equal(level->size(), N) || std::cmp_not_equal(from->size(), E) || std::cmp_not_equal(label.size(), E) ||
+                    std::cmp_not_equal(to->size(), E))
+                    throw FlatZincInterfaceError{format("Array length mismatch in {} in {}", id, fznname)};
+
                 auto L = static_cast<long>(vars.size());
 
                 // MiniZinc's mdd: nodes 1..N are user-supplied; node 0 is the
-- 
2.43.0


From 0f70d7b97e4a45046f5949e6db25fe77fad88d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 52/55] fix: smart table entries that close a cycle or repeat a
 pair of variables were dropped

---
 gcs/constraints/smart_table/smart_table.cc | 98 ++++++++++++----------
 1 file changed, 54 insertions(+), 44 deletions(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index fdd9744..c9ce73b 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -30,6 +30,7 @@
 #endif
 
 #include <gcs/exception.hh>
+#include <util/enumerate.hh>
 #include <util/overloaded.hh>
 
 using std::count;
@@ -38,6 +39,7 @@ using std::make_unique;
 using std::map;
 using std::move;
 using std::set;
+using std::size_t;
 using std::string;
 using std::stringstream;
 using std::tuple;
@@ -320,6 +322,19 @@ namespace
             .visit(edge);
     }
 
+    [[nodiscard]] auto domain_became_empty(const SmartEntry & edge, VariableDomainMap & supported_by_tree) -> bool
+    {
+        return overloaded{
+            [&](const BinaryEntry & binary_entry) {
+                return get_for_actual_var(supported_by_tree, binary_entry.var_1).empty() ||
+                    get_for_actual_var(supported_by_tree, binary_entry.var_2).empty();
+            },                                                                                                                         //
+            [&](const UnarySetEntry & unary_set_entry) { return get_for_actual_var(supported_by_tree, unary_set_entry.var).empty(); }, //
+            [&](const UnaryValueEntry & unary_val_entry) { return get_for_actual_var(supported_by_tree, unary_val_entry.var).empty(); } //
+        }
+            .visit(edge);
+    }
+
     [[nodiscard]] auto filter_and_check_valid(const TreeEdges & tree, VariableDomainMap & supported_by_tree, const ProofFlag * tuple_selector,
         const State & state, auto & inference, const ReasonLiterals & reason, ProofLogger * const logger) -> bool
     {
@@ -328,28 +343,8 @@ namespace
 
                 filter_edge(edge, supported_by_tree, tuple_selector, state, inference, reason, logger);
 
-                bool domain_became_empty = false;
-                overloaded{
-                    [&](const BinaryEntry & binary_entry) {
-                        if (get_for_actual_var(supported_by_tree, binary_entry.var_1).empty())
-                            domain_became_empty = true;
-                        if (get_for_actual_var(supported_by_tree, binary_entry.var_2).empty())
-                            domain_became_empty = true;
-                    }, //
-                    [&](const UnarySetEntry & unary_set_entry) {
-                        if (get_for_actual_var(supported_by_tree, unary_set_entry.var).empty())
-                            domain_became_empty = true;
-                    }, //
-                    [&](const UnaryValueEntry & unary_val_entry) {
-                        if (get_for_actual_var(supported_by_tree, unary_val_entry.var).empty())
-                            domain_became_empty = true;
-                    } //
-                }
-                    .visit(edge);
-
-                if (domain_became_empty) {
+                if (domain_became_empty(edge, supported_by_tree))
                     return false;
-                }
             }
         }
         return true;
@@ -365,13 +360,19 @@ namespace
         unsupported[var] = new_unsupported;
     }
 
-    auto filter_again_and_remove_supported(const TreeEdges & tree, VariableDomainMap & supported_by_tree, VariableDomainMap & unsupported,
-        const ProofFlag * tuple_selector, const State & state, auto & inference, const ReasonLiterals & reason, ProofLogger * const logger) -> void
+    // Filtering again cannot empty a domain when the entries form a forest, but it
+    // can when there are entries that close a cycle.
+    [[nodiscard]] auto filter_again_and_remove_supported(const TreeEdges & tree, VariableDomainMap & supported_by_tree,
+        VariableDomainMap & unsupported, const ProofFlag * tuple_selector, const State & state, auto & inference, const ReasonLiterals & reason,
+        ProofLogger * const logger) -> bool
     {
         for (int l = tree.size() - 1; l >= 0; --l) {
             for (const auto & edge : tree[l]) {
                 filter_edge(edge, supported_by_tree, tuple_selector, state, inference, reason, logger);
 
+                if (domain_became_empty(edge, supported_by_tree))
+                    return false;
+
                 // Collect supported vals for this tree
                 overloaded{
                     [&](const BinaryEntry & binary_entry) {
@@ -395,6 +396,7 @@ namespace
                     .visit(edge);
             }
         }
+        return true;
     }
 
     auto get_unrestricted(const vector<IntegerVariableID> & vars, const vector<SmartEntry> & tuple) -> vector<IntegerVariableID>
@@ -452,14 +454,14 @@ namespace
                     for (auto value : state.each_value_immutable(var))
                         supported_by_tree[var].emplace_back(value);
 
-                // First pass of filtering supported_by_tree and check of validity
-                if (! filter_and_check_valid(tree, supported_by_tree, pb_selector, state, inference, reason, logger)) {
+                // First pass of filtering supported_by_tree and check of validity, then
+                // a second that collects what is supported
+                if (! filter_and_check_valid(tree, supported_by_tree, pb_selector, state, inference, reason, logger) ||
+                    ! filter_again_and_remove_supported(tree, supported_by_tree, unsupported, pb_selector, state, inference, reason, logger)) {
                     // Not feasible
                     inference.infer_equal(logger, selectors[tuple_idx], 0_i, NoJustificationNeeded{}, NoReason{});
                     break;
                 }
-
-                filter_again_and_remove_supported(tree, supported_by_tree, unsupported, pb_selector, state, inference, reason, logger);
             }
 
             if (state.optional_single_value(selectors[tuple_idx]) != 0_i) {
@@ -543,30 +545,37 @@ namespace
     }
 
     auto build_tree(const IntegerVariableID & root, int current_level, vector<vector<SmartEntry>> & entry_tree,
-        unordered_map<IntegerVariableID, bool> & node_visited, const unordered_map<IntegerVariableID, vector<SmartEntry>> & adjacent_edges) -> void
+        unordered_map<IntegerVariableID, bool> & node_visited, const vector<SmartEntry> & current_tuple, vector<char> & entry_used,
+        const unordered_map<IntegerVariableID, vector<size_t>> & adjacent_edges) -> void
     {
         node_visited[deview(root)] = true;
 
         // Simple recursive traverse
         // Note: Perhaps we should build the tree in a "smarter" form e.g. make sure var_1 is always the node
         //       closer to the root.
-        for (const auto & edge : adjacent_edges.at(deview(root))) {
+        for (const auto & entry_idx : adjacent_edges.at(deview(root))) {
+            // A binary entry is adjacent to both of its variables, but is only needed once.
+            if (entry_used[entry_idx])
+                continue;
+            entry_used[entry_idx] = true;
+
+            const auto & edge = current_tuple[entry_idx];
+            entry_tree[current_level].emplace_back(edge);
             overloaded{
                 [&](BinaryEntry binary_entry) {
+                    // If both ends have been visited then this entry closes a cycle, and so it
+                    // filters at this level without being part of the tree.
                     if (! node_visited[deview(binary_entry.var_1)]) {
-                        entry_tree[current_level].emplace_back(edge);
                         entry_tree.emplace_back();
-
-                        build_tree(binary_entry.var_1, current_level + 1, entry_tree, node_visited, adjacent_edges);
+                        build_tree(binary_entry.var_1, current_level + 1, entry_tree, node_visited, current_tuple, entry_used, adjacent_edges);
                     }
                     else if (! node_visited[deview(binary_entry.var_2)]) {
-                        entry_tree[current_level].emplace_back(edge);
                         entry_tree.emplace_back();
-                        build_tree(binary_entry.var_2, current_level + 1, entry_tree, node_visited, adjacent_edges);
+                        build_tree(binary_entry.var_2, current_level + 1, entry_tree, node_visited, current_tuple, entry_used, adjacent_edges);
                     }
-                },                                                                             //
-                [&](const UnarySetEntry &) { entry_tree[current_level].emplace_back(edge); },  //
-                [&](const UnaryValueEntry &) { entry_tree[current_level].emplace_back(edge); } //
+                },                             //
+                [&](const UnarySetEntry &) {}, //
+                [&](const UnaryValueEntry &) {} //
             }
                 .visit(edge);
         }
@@ -577,24 +586,25 @@ namespace
         vector<Forest> forests{};
         for (const auto & current_tuple : tuples) {
             unordered_map<IntegerVariableID, bool> node_visited;
-            unordered_map<IntegerVariableID, vector<SmartEntry>> adjacent_edges;
+            unordered_map<IntegerVariableID, vector<size_t>> adjacent_edges;
+            vector<char> entry_used(current_tuple.size(), false);
 
             // Get all the vars in the tuple and record adjacencies
-            for (const auto & entry : current_tuple) {
+            for (const auto & [entry_idx, entry] : enumerate(current_tuple)) {
                 overloaded{
                     [&](const BinaryEntry & binary_entry) {
                         node_visited[deview(binary_entry.var_1)] = false;
                         node_visited[deview(binary_entry.var_2)] = false;
-                        adjacent_edges[deview(binary_entry.var_1)].emplace_back(binary_entry);
-                        adjacent_edges[deview(binary_entry.var_2)].emplace_back(binary_entry);
+                        adjacent_edges[deview(binary_entry.var_1)].emplace_back(entry_idx);
+                        adjacent_edges[deview(binary_entry.var_2)].emplace_back(entry_idx);
                     }, //
                     [&](const UnaryValueEntry & unary_val_entry) {
                         node_visited[deview(unary_val_entry.var)] = false;
-                        adjacent_edges[deview(unary_val_entry.var)].emplace_back(unary_val_entry);
+                        adjacent_edges[deview(unary_val_entry.var)].emplace_back(entry_idx);
                     }, //
                     [&](const UnarySetEntry & unary_set_entry) {
                         node_visited[deview(unary_set_entry.var)] = false;
-                        adjacent_edges[deview(unary_set_entry.var)].emplace_back(unary_set_entry);
+                        adjacent_edges[deview(unary_set_entry.var)].emplace_back(entry_idx);
                     } //
                 }
                     .visit(entry);
@@ -609,7 +619,7 @@ namespace
                 vector<vector<SmartEntry>> entry_tree;
                 entry_tree.emplace_back();
                 // Recursively build the tree starting from this node
-                build_tree(var, 0, entry_tree, node_visited, adjacent_edges);
+                build_tree(var, 0, entry_tree, node_visited, current_tuple, entry_used, adjacent_edges);
                 forest.emplace_back(entry_tree);
             }
 
-- 
2.43.0


From 879e3bed18bc81eb550f436e51b0ff3f9b7d03f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 53/55] fix: an mdd edge or accepting terminal to a node that
 does not exist was read out of bounds

---
 gcs/constraints/mdd/mdd.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gcs/constraints/mdd/mdd.cc b/gcs/constraints/mdd/mdd.cc
index b2a8e58..3b9279e 100644
--- a/gcs/constraints/mdd/mdd.cc
+++ b/gcs/constraints/mdd/mdd.cc
@@ -446,6 +446,15 @@ MDD::MDD(vector<IntegerVariableID> v, vector<vector<unordered_map<Integer, long>
     for (size_t i = 0; i < _vars.size(); ++i)
         if (cmp_less(_layer_transitions[i].size(), _nodes_per_layer[i]))
             throw InvalidProblemDefinitionException{format("MDD: layer_transitions[{}] must have one entry per node in layer {}", i, i)};
+    for (size_t i = 0; i < _vars.size(); ++i)
+        for (const auto & node_map : _layer_transitions[i])
+            for (const auto & [_, target] : node_map)
+                if (target < -1L || target >= _nodes_per_layer[i + 1])
+                    throw InvalidProblemDefinitionException{
+                        format("MDD: layer_transitions[{}] has an edge to node {}, which is not in layer {}", i, target, i + 1)};
+    for (const auto & t : _accepting_terminals)
+        if (t < 0L || t >= _nodes_per_layer.back())
+            throw InvalidProblemDefinitionException{format("MDD: accepting terminal {} is not in the last layer", t)};
 }
 
 auto MDD::clone() const -> unique_ptr<Constraint>
-- 
2.43.0


From 74c82fdffd0fa02ce62af489887d709d42dc8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 54/55] fix: knapsack with a number of coefficients that is not
 the number of variables was not refused

---
 gcs/constraints/knapsack/knapsack.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcs/constraints/knapsack/knapsack.cc b/gcs/constraints/knapsack/knapsack.cc
index a6b9246..e306e72 100644
--- a/gcs/constraints/knapsack/knapsack.cc
+++ b/gcs/constraints/knapsack/knapsack.cc
@@ -597,6 +597,8 @@ auto Knapsack::prepare(Propagators &, State & initial_state, ProofModel * const)
     for (auto & c : _coeffs)
         if (c.size() != n_vars)
             throw InvalidProblemDefinitionException{"not sure what to do about different coefficient array sizes for knapsack"};
+    if (n_vars != _vars.size())
+        throw InvalidProblemDefinitionException{"mismatch between coefficients and variables sizes for knapsack"};
 
     for (auto & cc : _coeffs)
         for (auto & c : cc)
-- 
2.43.0


From 1eeab96f28b2a8ed0b79597fce649b68350fc2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 55/55] fix: regular with no states, or with transitions for,
 to, or final states that do not exist was read out of bounds

---
 gcs/constraints/regular/automaton.hh      | 57 +++++++++++++++++++++++
 gcs/constraints/regular/regular.cc        |  7 ++-
 gcs/constraints/regular/regular_legacy.cc |  7 ++-
 3 files changed, 67 insertions(+), 4 deletions(-)
 create mode 100644 gcs/constraints/regular/automaton.hh

diff --git a/gcs/constraints/regular/automaton.hh b/gcs/constraints/regular/automaton.hh
new file mode 100644
index 0000000..974fb65
--- /dev/null
+++ b/gcs/constraints/regular/automaton.hh
@@ -0,0 +1,57 @@
+#ifndef GLASGOW_CONSTRAINT_SOLVER_GUARD_GCS_CONSTRAINTS_REGULAR_AUTOMATON_HH
+#define GLASGOW_CONSTRAINT_SOLVER_GUARD_GCS_CONSTRAINTS_REGULAR_AUTOMATON_HH
+
+#include <gcs/exception.hh>
+#include <gcs/integer.hh>
+
+#include <algorithm>
+#include <cstddef>
+#include <set>
+#include <string>
+#include <unordered_map>
+#include <utility>
+#include <vector>
+
+namespace gcs::innards
+{
+    /**
+     * \brief How many states to make space for, given how many there are said to
+     * be and how many of them have a row of transitions.
+     *
+     * A state without a row has no transitions. Throws
+     * InvalidProblemDefinitionException if there is no initial state, or if there
+     * is a row for a state that does not exist.
+     *
+     * \ingroup Innards
+     */
+    [[nodiscard]] inline auto automaton_size(const std::string & name, long num_states, std::size_t num_rows) -> std::size_t
+    {
+        if (num_states < 1)
+            throw InvalidProblemDefinitionException{name + ": an automaton must have at least one state"};
+        if (std::cmp_greater(num_rows, num_states))
+            throw InvalidProblemDefinitionException{name + ": there are transitions for more states than there are"};
+        return static_cast<std::size_t>(num_states);
+    }
+
+    /**
+     * \brief Throws InvalidProblemDefinitionException if a transition leads to, or
+     * an accepting state is, a state that does not exist.
+     *
+     * \ingroup Innards
+     */
+    inline auto check_automaton(const std::string & name, long num_states,
+        const std::vector<std::unordered_map<Integer, std::set<long>>> & transitions, const std::vector<long> & final_states) -> void
+    {
+        auto exists = [&](long q) { return q >= 0 && q < num_states; };
+
+        for (const auto & row : transitions)
+            for (const auto & [_, targets] : row)
+                if (! std::ranges::all_of(targets, exists))
+                    throw InvalidProblemDefinitionException{name + ": there is a transition to a state that does not exist"};
+
+        if (! std::ranges::all_of(final_states, exists))
+            throw InvalidProblemDefinitionException{name + ": there is an accepting state that does not exist"};
+    }
+}
+
+#endif
diff --git a/gcs/constraints/regular/regular.cc b/gcs/constraints/regular/regular.cc
index dc9b600..acf5615 100644
--- a/gcs/constraints/regular/regular.cc
+++ b/gcs/constraints/regular/regular.cc
@@ -1,3 +1,4 @@
+#include <gcs/constraints/regular/automaton.hh>
 #include <gcs/constraints/regular/hints.hh>
 #include <gcs/constraints/regular/regex.hh>
 #include <gcs/constraints/regular/regular.hh>
@@ -464,22 +465,24 @@ struct Regular::Bridge
 };
 
 Regular::Regular(vector<IntegerVariableID> v, long n, vector<unordered_map<Integer, long>> t, vector<long> f) :
-    _vars(move(v)), _num_states(n), _transitions(t.size()), _final_states(move(f)), _regex(nullopt)
+    _vars(move(v)), _num_states(n), _transitions(automaton_size("Regular", n, t.size())), _final_states(move(f)), _regex(nullopt)
 {
     for (size_t q = 0; q < t.size(); ++q)
         for (const auto & [val, target] : t[q])
             if (target != -1L)
                 _transitions[q][val].insert(target);
+    check_automaton("Regular", _num_states, _transitions, _final_states);
     _symbols = symbols_of(_transitions);
 }
 
 Regular::Regular(vector<IntegerVariableID> v, long n, vector<vector<long>> transitions, vector<long> f) :
-    _vars(move(v)), _num_states(n), _transitions(n), _final_states(move(f)), _regex(nullopt)
+    _vars(move(v)), _num_states(n), _transitions(automaton_size("Regular", n, transitions.size())), _final_states(move(f)), _regex(nullopt)
 {
     for (size_t i = 0; i < transitions.size(); ++i)
         for (size_t j = 0; j < transitions[i].size(); ++j)
             if (transitions[i][j] != -1L)
                 _transitions[i][Integer(j)].insert(transitions[i][j]);
+    check_automaton("Regular", _num_states, _transitions, _final_states);
     _symbols = symbols_of(_transitions);
 }
 
diff --git a/gcs/constraints/regular/regular_legacy.cc b/gcs/constraints/regular/regular_legacy.cc
index 6afe946..32f1e28 100644
--- a/gcs/constraints/regular/regular_legacy.cc
+++ b/gcs/constraints/regular/regular_legacy.cc
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <gcs/constraints/regular/automaton.hh>
 #include <gcs/constraints/regular/hints.hh>
 #include <gcs/constraints/regular/regex.hh>
 #include <gcs/constraints/regular/regular_legacy.hh>
@@ -403,22 +404,24 @@ namespace
 }
 
 RegularLegacy::RegularLegacy(vector<IntegerVariableID> v, long n, vector<unordered_map<Integer, long>> t, vector<long> f) :
-    _vars(move(v)), _num_states(n), _transitions(t.size()), _final_states(move(f)), _regex(nullopt)
+    _vars(move(v)), _num_states(n), _transitions(automaton_size("RegularLegacy", n, t.size())), _final_states(move(f)), _regex(nullopt)
 {
     for (size_t q = 0; q < t.size(); ++q)
         for (const auto & [val, target] : t[q])
             if (target != -1L)
                 _transitions[q][val].insert(target);
+    check_automaton("RegularLegacy", _num_states, _transitions, _final_states);
     _symbols = symbols_of(_transitions);
 }
 
 RegularLegacy::RegularLegacy(vector<IntegerVariableID> v, long n, vector<vector<long>> transitions, vector<long> f) :
-    _vars(move(v)), _num_states(n), _transitions(n), _final_states(move(f)), _regex(nullopt)
+    _vars(move(v)), _num_states(n), _transitions(automaton_size("RegularLegacy", n, transitions.size())), _final_states(move(f)), _regex(nullopt)
 {
     for (size_t i = 0; i < transitions.size(); i++)
         for (size_t j = 0; j < transitions[i].size(); j++)
             if (transitions[i][j] != -1L)
                 _transitions[i][Integer(j)].insert(transitions[i][j]);
+    check_automaton("RegularLegacy", _num_states, _transitions, _final_states);
     _symbols = symbols_of(_transitions);
 }
 
-- 
2.43.0


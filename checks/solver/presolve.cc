#include <checks/solver/presolve.hh>

#include <gcs/presolvers/auto_table.hh>
#include <gcs/presolvers/cumulative_strengthening.hh>
#include <gcs/presolvers/difference_logic.hh>
#include <gcs/presolvers/inferred_cumulative.hh>
#include <gcs/presolvers/inferred_disjunctive.hh>

#include <algorithm>

using namespace gcs;
using std::optional;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;

namespace mdl
{
    auto auto_table(pbt::Case & c, const Model & m) -> Presolve
    {
        vector<size_t> order;
        for (size_t i = 0; i < m.doms.size(); ++i)
            order.push_back(i);
        c.shuffle(order);
        order.resize(1 + c.draw(std::min<size_t>(order.size(), 4) - 1));
        string t = "auto_table(";
        for (auto i : order)
            t += " v" + to_string(i);
        return {t + " )", [order](Posted & p) {
                    vector<IntegerVariableID> v;
                    for (auto i : order)
                        v.push_back(p.env.base[i]);
                    p.problem.add_presolver(AutoTable{v});
                }};
    }

    auto difference_logic(pbt::Case & c) -> Presolve
    {
        bool disable = c.chance(1, 3), simplify = c.chance(2, 3), incremental = c.chance(2, 3), audit = c.chance(1, 4);
        return {string{"difference_logic("} + (disable ? " disabling" : "") + (simplify ? " simplifying" : "") + (incremental ? " incremental" : "") +
                (audit ? " audited" : "") + " )",
            [=](Posted & p) {
                p.problem.add_presolver(DifferenceLogic{}
                                            .disabling_lifted_donors(disable)
                                            .simplifying_at_root(simplify)
                                            .incrementally(incremental)
                                            .auditing_incremental_propagation(audit));
            }};
    }

    auto scheduling_presolver(pbt::Case & c, const optional<Op> & makespan) -> Presolve
    {
        CumulativeRules rules;
        bool with_rules = c.chance(1, 2);
        auto bits = with_rules ? c.draw(1023) : 0;
        rules.time_table = bits & 1;
        rules.overload = bits & 2;
        rules.profile_overload = bits & 4;
        rules.elastic_overload = bits & 8;
        rules.knapsack_overload = bits & 16;
        rules.edge_finding = bits & 32;
        rules.time_table_edge_finding = bits & 64;
        rules.energetic_edge_finding = bits & 128;
        rules.not_first_not_last = bits & 256;
        rules.not_first_not_last_published = bits & 512;
        auto text = with_rules ? " rules " + to_string(bits) : string{};
        bool with_makespan = makespan && c.chance(2, 3);
        if (with_makespan)
            text += " makespan " + makespan->text();
        switch (c.draw(2)) {
        case 0: {
            bool budgets = c.chance(1, 3);
            auto dp = static_cast<long long>(c.draw(50)), raise = static_cast<long long>(c.draw(10)), limit = static_cast<long long>(c.draw(10));
            return {"cumulative_strengthening(" + text + (budgets ? " budgets " + to_string(dp) + " " + to_string(raise) + " " + to_string(limit) : "") + " )",
                [=](Posted & p) {
                    CumulativeStrengthening s;
                    if (with_rules)
                        s.with_rules(rules);
                    if (budgets)
                        s.with_dynamic_programming_budget(dp).with_raise_budget(raise).with_subset_sum_capacity_limit(limit);
                    p.problem.add_presolver(s);
                }};
        }
        case 1: {
            bool budgets = c.chance(1, 3);
            auto covers = c.draw(6), posted = c.draw(4), calls = c.draw(20), states = c.draw(30), capacity = 1 + c.draw(5);
            return {"inferred_cumulative(" + text +
                    (budgets ? " budgets " + to_string(covers) + " " + to_string(posted) + " " + to_string(capacity) + " " + to_string(calls) + " " + to_string(states)
                             : "") +
                    " )",
                [=](Posted & p) {
                    InferredCumulative s;
                    if (with_rules)
                        s.with_rules(rules);
                    if (with_makespan)
                        s.with_makespan(makespan->id(p.env));
                    if (budgets)
                        s.with_budgets(covers, posted).with_maximum_capacity(capacity).with_lifting_call_budget(calls).with_programme_state_budget(states);
                    p.problem.add_presolver(s);
                }};
        }
        default: {
            bool budgets = c.chance(1, 3);
            auto candidates = c.draw(6), posted = c.draw(4);
            auto least = 2 + c.draw(2);
            return {"inferred_disjunctive(" + text + (budgets ? " budgets " + to_string(candidates) + " " + to_string(posted) : "") + " least " +
                    to_string(least) + " )",
                [=](Posted & p) {
                    InferredDisjunctive s;
                    if (with_rules)
                        s.with_rules(rules);
                    if (with_makespan)
                        s.with_makespan(makespan->id(p.env));
                    if (budgets)
                        s.with_budgets(candidates, posted);
                    s.with_minimum_clique_size(least);
                    p.problem.add_presolver(s);
                }};
        }
        }
    }

    auto resources_model(pbt::Case & c, Model & m, double scale) -> optional<Op>
    {
        Style st;
        st.budget = 6000 * scale;
        st.views = c.chance(1, 3) ? 10 : 0;
        st.reuse = 0;
        st.constants = 0;
        st.holes = c.chance(1, 3) ? 30 : 0;
        Gen g{c, m, st};
        auto n = 2 + c.draw(4);
        Ops starts = g.handles(n, 0, c.chance(1, 2) ? 4 : 8, true, c.chance(1, 2) ? 5 : 8);
        // lengths are the same on every resource, as they are for the same task
        Ops lengths;
        for (size_t i = 0; i < n; ++i)
            lengths.push_back(c.chance(1, 8) ? g.distinct(1, 3, 2, true) : Op{-1, false, g.rnd(c.chance(1, 10) ? 0 : 1, 4)});
        auto resources = 1 + c.weighted({3, 4, 2});
        for (size_t r = 0; r < resources; ++r) {
            vector<size_t> who;
            for (size_t i = 0; i < n; ++i)
                if (c.chance(4, 5))
                    who.push_back(i);
            if (who.empty())
                who.push_back(c.draw(n - 1));
            c.shuffle(who);
            if (c.chance(1, 20))
                who.push_back(who.front()); // the same task twice
            bool strict = c.chance(1, 2);
            bool disjunctive = c.chance(1, 8);
            Ops s, l, h, pres;
            bool optional_tasks = ! disjunctive && c.chance(1, 6);
            LL unit = c.chance(1, 3) ? 2 : 1;
            for (auto i : who) {
                s.push_back(starts[i]);
                l.push_back(c.chance(1, 30) ? Op{-1, false, 2} : lengths[i]);
                h.push_back(c.chance(1, 8) ? g.distinct(0, 3, 2, true) : Op{-1, false, unit * g.rnd(c.chance(1, 10) ? 0 : 1, 3)});
                pres.push_back(c.chance(1, 2) ? Op{-1, false, 1} : g.distinct(0, 1, 2, true));
            }
            Op cap = c.chance(1, 8) ? g.distinct(2, 6, 2, true) : Op{-1, false, g.rnd(1, 7)};
            if (! optional_tasks)
                pres.assign(who.size(), Op{-1, false, 1});
            if (disjunctive)
                h.assign(who.size(), Op{-1, false, 1}), cap = Op{-1, false, 1};
            Cons k;
            k.entry = disjunctive ? "disjunctive" : "cumulative";
            k.text = "s=" + text(s) + " l=" + text(l) + " h=" + text(h) + (optional_tasks ? " p=" + text(pres) : "") + " c=" + cap.text() +
                (disjunctive && strict ? " strict" : "");
            k.scope = s;
            for (auto & v : {l, h, pres})
                k.scope.insert(k.scope.end(), v.begin(), v.end());
            k.scope.push_back(cap);
            k.holds = [=](const Asg & a) {
                auto ss = eval(s, a), ll = eval(l, a), hh = eval(h, a), pp = eval(pres, a);
                auto cc = cap.eval(a);
                if (disjunctive && strict)
                    for (size_t i = 0; i < ss.size(); ++i)
                        for (size_t j = 0; j < ss.size(); ++j)
                            if (i < j && ! (ss[i] + ll[i] <= ss[j] || ss[j] + ll[j] <= ss[i]))
                                return false;
                LL from = *std::min_element(ss.begin(), ss.end()), to = from;
                for (size_t i = 0; i < ss.size(); ++i)
                    to = std::max(to, ss[i] + ll[i]);
                for (LL t = from; t < to; ++t) {
                    LL u = 0;
                    for (size_t i = 0; i < ss.size(); ++i)
                        if (pp[i] == 1 && ss[i] <= t && t < ss[i] + ll[i])
                            u += hh[i];
                    if (u > cc)
                        return false;
                }
                return true;
            };
            k.variants = {{"", [=](const Env & e) -> std::unique_ptr<Constraint> {
                               if (disjunctive) {
                                   auto d = std::make_unique<Disjunctive>(ids(s, e), ids(l, e));
                                   d->with_strict(strict);
                                   return d;
                               }
                               if (optional_tasks)
                                   return mk<Cumulative>(ids(s, e), ids(l, e), ids(h, e), ids(pres, e), cap.id(e));
                               return mk<Cumulative>(ids(s, e), ids(l, e), ids(h, e), cap.id(e));
                           }}};
            m.cons.push_back(k);
        }
        if (c.chance(1, 3))
            return std::nullopt;
        // a makespan
        g.style.budget *= 10;
        Op ms = g.distinct(0, 12, 7, true);
        for (size_t i = 0; i < n; ++i) {
            if (c.chance(1, 10))
                continue;
            auto a = starts[i], b = lengths[i];
            Cons k;
            k.entry = "linear_ineq";
            k.text = a.text() + " + " + b.text() + " <= " + ms.text();
            k.scope = {a, b, ms};
            k.holds = [=](const Asg & x) { return a.eval(x) + b.eval(x) <= ms.eval(x); };
            auto how = c.draw(2);
            k.variants = {{"form " + to_string(how), [=](const Env & e) -> std::unique_ptr<Constraint> {
                               if (b.var >= 0 || how == 0)
                                   return mk<LinearLessThanEqual>(WeightedSum{} + 1_i * a.id(e) + 1_i * b.id(e) + -1_i * ms.id(e), 0_i);
                               if (how == 1)
                                   return mk<LinearLessThanEqual>(WeightedSum{} + 1_i * a.id(e) + -1_i * ms.id(e), I(-b.off));
                               return mk<LinearGreaterThanEqual>(WeightedSum{} + 1_i * ms.id(e) + -1_i * a.id(e), I(b.off));
                           }}};
            m.cons.push_back(k);
        }
        return ms;
    }

    auto differences_model(pbt::Case & c, Model & m, double scale) -> void
    {
        Style st;
        st.budget = 3000 * scale;
        st.views = c.chance(1, 3) ? 25 : 0;
        st.reuse = 0;
        st.constants = 0;
        st.holes = c.chance(1, 3) ? 30 : 0;
        Gen g{c, m, st};
        auto n = 2 + c.draw(4);
        Ops v = g.handles(n, 0, 6, false, 6);
        auto edges = 1 + c.draw(7);
        Ops conds;
        for (size_t i = 0; i < edges; ++i) {
            Op a = c.pick(v), b = c.pick(v);
            if (st.views && c.chance(1, 6)) {
                a.neg = ! a.neg;
                a.off += c.around_zero(-2, 2);
            }
            LL d = g.small(-4, 4);
            optional<Cond> cond;
            if (c.chance(1, 3)) {
                if (conds.empty() || c.chance(1, 2))
                    conds.push_back(g.distinct(0, 1, 2, true));
                auto o = c.pick(conds);
                cond = g.cond_on(o, 0, 1);
            }
            auto how = c.draw(5);
            Cons k;
            k.entry = "difference";
            static const char * hows[] = {"linear <=", "linear >=", "linear ==", "less than equal", "difference", "scaled linear <="};
            k.text = string{hows[how]} + " " + a.text() + " - " + b.text() + " ~ " + to_string(d) + (cond ? " if " + cond->text() : "");
            k.scope = {a, b};
            if (cond)
                k.scope.push_back(cond->op);
            k.holds = [=](const Asg & x) {
                if (cond && ! cond->eval(x))
                    return true;
                auto diff = a.eval(x) - b.eval(x);
                switch (how) {
                case 1: return diff >= d;
                case 2: return diff == d;
                default: return diff <= d;
                }
            };
            k.variants = {{"", [=](const Env & e) -> std::unique_ptr<Constraint> {
                               auto sum = WeightedSum{} + 1_i * a.id(e) + -1_i * b.id(e);
                               switch (how) {
                               case 0: return cond ? mk<LinearLessThanEqualIf>(sum, I(d), cond->get(e)) : mk<LinearLessThanEqual>(sum, I(d));
                               case 1: return cond ? mk<LinearGreaterThanEqualIf>(sum, I(d), cond->get(e)) : mk<LinearGreaterThanEqual>(sum, I(d));
                               case 2: return cond ? mk<LinearEqualityIf>(sum, I(d), cond->get(e)) : mk<LinearEquality>(sum, I(d));
                               case 3:
                                   return cond ? mk<LessThanEqualIf>(a.id(e), b.id(e) + I(d), cond->get(e)) : mk<LessThanEqual>(a.id(e), b.id(e) + I(d));
                               case 4: return cond ? mk<LinearLessThanEqualIf>(sum, I(d), cond->get(e)) : mk<LessThanEqual>(a.id(e) + I(-d), b.id(e));
                               default: {
                                   auto s2 = WeightedSum{} + 2_i * a.id(e) + -2_i * b.id(e);
                                   return cond ? mk<LinearLessThanEqualIf>(s2, I(2 * d + 1), cond->get(e)) : mk<LinearLessThanEqual>(s2, I(2 * d + 1));
                               }
                               }
                           }}};
            m.cons.push_back(k);
        }
    }
}

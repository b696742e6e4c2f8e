#include <checks/solver/enumerate.hh>

#include <generator>

using std::generator;
using std::size_t;
using std::string;
using std::vector;
using namespace gcs;

namespace mdl
{
    const char * const enumeration_rule = "the model has at least one solution and at least one assignment within the domains that is not one";

    auto random_style(pbt::Case & c) -> Style
    {
        Style s;
        switch (c.weighted({4, 3, 2})) {
        case 0: // distinct plain variables
            s.views = s.reuse = s.constants = 0;
            break;
        case 1: break;
        case 2:
            s.views = 40;
            s.reuse = 35;
            s.constants = 15;
            break;
        }
        static const double budgets[] = {300, 1000, 60, 4000};
        s.budget = budgets[c.weighted({4, 3, 2, 1})];
        return s;
    }

    namespace
    {
        // Constraints that change the domains of the first one's variables for reasons of their own, so that it has
        // to notice what happens other than by a decision about one of its variables.
        auto add_movers(Gen & g, size_t first_own) -> void
        {
            auto & c = g.c;
            auto & m = g.m;
            vector<Op> scope;
            for (auto & o : m.cons.front().scope)
                if (o.var >= 0)
                    scope.push_back(Op{o.var, false, 0});
            if (scope.empty() || m.product() > 1000)
                return;
            (void) first_own;
            auto movers = 1 + c.draw(1);
            for (unsigned i = 0; i < movers; ++i) {
                auto b = Op{g.new_var({0, 1}), false, 0};
                auto n = 1 + c.draw(2);
                for (unsigned j = 0; j < n; ++j) {
                    auto o = c.pick(scope);
                    auto [l, u] = g.range_of(o);
                    auto effect = g.cond_on(o, l, u);
                    auto when = static_cast<LL>(c.draw(1));
                    Cons k;
                    k.entry = "mover";
                    k.text = "if " + b.text() + "==" + std::to_string(when) + " then " + effect.text();
                    k.scope = {b, o};
                    k.holds = [=](const Asg & a) { return b.eval(a) != when || effect.eval(a); };
                    k.variants = {{"", [=](const Env & e) -> std::unique_ptr<Constraint> {
                        return mk<Or>(innards::Literals{b.id(e) != I(when), effect.get(e)}, innards::Literal{innards::TrueLiteral{}});
                    }}};
                    m.cons.push_back(k);
                }
            }
        }

        auto undone_applies(const Model & m) -> bool
        {
            return m.cons.front().undone && (m.cons.front().repeats || ! any_repeated(m.cons.front()));
        }

        auto run_one(pbt::Case & c, Model & m, bool levels, const Style & style = {}) -> void
        {
            Model first;
            vector<Asg> of_first;
            if (levels) {
                first = m;
                if (c.chance(1, 3)) {
                    of_first = first.brute_force();
                    Gen g{c, m, style};
                    add_movers(g, 0);
                    c.label("with others that change the domains");
                }
            }
            auto search = random_search(c, m, true);
            c.note() << m.text() << "search: " << search.text;
            auto expected = m.brute_force();
            if (! expected.empty() && static_cast<double>(expected.size()) < m.product())
                c.nontrivial();
            c.label(expected.empty() ? "unsatisfiable" : "satisfiable");
            if (search.luby)
                c.label("restarts");
            Trace trace;
            if (levels && first.cons.front().variant().level != Level::None && level_applies(first) && ! search.luby) {
                c.label("level of propagation checked");
                auto & solutions = m.cons.size() > 1 ? of_first : expected;
                trace = [&](const gcs::CurrentState & s, const Env & e) { check_level(c, first, solutions, s, e); };
            }
            else if (levels && undone_applies(first))
                trace = [&](const gcs::CurrentState & s, const Env & e) { check_undone(c, first.cons.front(), s, e); };
            Posted p;
            post(m, p);
            auto o = solve(m, p, search, std::nullopt, trace);
            expect_enumeration(c, m, expected, o, "enumeration");
        }
    }

    namespace
    {
        struct Partial
        {
            vector<Asg> solutions;
            bool completed = false, stopped = false;
            unsigned long long nodes = 0;
        };

        auto solve_partly(Posted & p, const BranchHeuristic & branch, size_t most_solutions, unsigned long long most_nodes, const Trace & trace = {})
            -> Partial
        {
            Partial r;
            SolveCallbacks cb;
            cb.solution = [&](const CurrentState & st) -> bool {
                Asg a;
                for (auto & v : p.env.base)
                    a.push_back(st(v).raw_value);
                r.solutions.push_back(std::move(a));
                return r.solutions.size() < most_solutions;
            };
            cb.trace = [&](const CurrentState & st) -> bool {
                if (trace)
                    trace(st, p.env);
                if (++r.nodes <= most_nodes)
                    return true;
                r.stopped = true;
                return false;
            };
            cb.branch = branch;
            cb.completed = [&] { r.completed = true; };
            cb.stats_report = silent_stats_report();
            solve_with(p.problem, cb);
            return r;
        }

        // Decides the variables in the given order, always trying the half that
        // contains the target first.
        auto towards(const Env & e, const vector<size_t> & order, const Asg & target, vector<unsigned> how) -> BranchHeuristic
        {
            return [vars = e.base, order, target, how](const Problem &, innards::State &, innards::Propagators &) -> BranchCallback {
                return [vars, order, target, how](const CurrentState & s, const innards::Propagators &) -> generator<IntegerVariableCondition> {
                    return [](const CurrentState & s, vector<IntegerVariableID> vars, vector<size_t> order, Asg target,
                               vector<unsigned> how) -> generator<IntegerVariableCondition> {
                        for (auto i : order) {
                            if (s.has_single_value(vars[i]))
                                continue;
                            auto v = vars[i];
                            auto t = I(target[i]);
                            auto lo = s.lower_bound(v), hi = s.upper_bound(v);
                            switch (how[i]) {
                            case 0:
                                co_yield v == t;
                                co_yield v != t;
                                break;
                            case 1:
                                if (t > lo) {
                                    co_yield v >= t;
                                    co_yield v < t;
                                }
                                else {
                                    co_yield v < t + 1_i;
                                    co_yield v >= t + 1_i;
                                }
                                break;
                            default: {
                                if (t == lo) { // drop the largest value
                                    co_yield v < hi;
                                    co_yield v >= hi;
                                }
                                else {
                                    co_yield v != lo;
                                    co_yield v == lo;
                                }
                            }
                            }
                            co_return;
                        }
                    }(s, vars, order, target, how);
                };
            };
        }

        auto rechoose(pbt::Case & c, Model & m) -> void
        {
            for (auto & k : m.cons) {
                vector<size_t> ok;
                for (size_t i = 0; i < k.variants.size(); ++i)
                    if (k.variants[i].name.find("tabulated") == string::npos) // which may enumerate everything
                        ok.push_back(i);
                k.chosen = c.pick(ok);
            }
        }

        // Models too large to enumerate: what is found must be a solution, and must
        // be found again by every other variant when the search is led to it.
        auto run_large(pbt::Case & c, Model & m) -> void
        {
            rechoose(c, m);
            auto search = random_search(c, m, false);
            c.note() << m.text() << "search: " << search.text;
            vector<Asg> found;
            bool none = false;
            string by;
            {
                Posted p;
                post(m, p);
                by = m.text();
                Trace trace;
                if (undone_applies(m))
                    trace = [&](const gcs::CurrentState & s, const Env & e) { check_undone(c, m.cons.front(), s, e); };
                auto r = solve_partly(p, search.make ? search.make(p.env, p.problem) : BranchHeuristic{}, 1 + c.draw(2), 300, trace);
                found = r.solutions;
                none = r.completed && found.empty();
            }
            for (auto & x : found)
                if (! m.holds(x))
                    c.fail("gave " + show(x) + ", which is not a solution", m.cons.front().entry);
            c.label(none ? "proved unsatisfiable" : found.empty() ? "gave up" : "found");
            if (none) {
                rechoose(c, m);
                auto other = random_search(c, m, false);
                c.note() << "then with: " << m.text() << "search: " << other.text;
                Posted p;
                post(m, p);
                auto r = solve_partly(p, other.make ? other.make(p.env, p.problem) : BranchHeuristic{}, 1, 300);
                if (! r.solutions.empty())
                    c.fail(m.holds(r.solutions.front()) ? "no solution was found, but " + show(r.solutions.front()) + " is one"
                                                        : "gave " + show(r.solutions.front()) + ", which is not a solution",
                        m.cons.front().entry);
                return;
            }
            vector<size_t> order;
            for (size_t i = 0; i < m.doms.size(); ++i)
                order.push_back(i);
            for (auto & x : found) {
                c.nontrivial();
                rechoose(c, m);
                c.shuffle(order);
                vector<unsigned> how;
                for (size_t i = 0; i < m.doms.size(); ++i)
                    how.push_back(static_cast<unsigned>(c.draw(2)));
                c.note() << "then towards " << show(x) << " with: " << m.text();
                Posted p;
                post(m, p);
                auto r = solve_partly(p, towards(p.env, order, x, how), 1, 2000);
                if (r.solutions.empty())
                    c.fail("led towards the solution " + show(x) + ", found nothing", m.cons.front().entry);
                if (r.solutions.front() != x)
                    c.fail("led towards the solution " + show(x) + ", found " + show(r.solutions.front()) + " first", m.cons.front().entry);
            }
        }
    }

    namespace
    {
        struct NothingThere
        {
        };

        // Follows the given branching once everything has been confined to a box, and considers nothing outside it.
        auto within(const Env & e, const vector<size_t> & order, const vector<std::pair<LL, LL>> & box, vector<unsigned> how, BranchHeuristic inner)
            -> BranchHeuristic
        {
            return [vars = e.base, order, box, how, inner](
                       const Problem & problem, innards::State & state, innards::Propagators & propagators) -> BranchCallback {
                auto then = inner(problem, state, propagators);
                return [=](const CurrentState & s, const innards::Propagators & ps) -> generator<IntegerVariableCondition> {
                    for (auto i : order) {
                        auto v = vars[i];
                        auto lo = I(box[i].first), hi = I(box[i].second);
                        auto l = s.lower_bound(v), u = s.upper_bound(v);
                        if (l >= lo && u <= hi)
                            continue;
                        bool some = false;
                        for (auto x = std::max(l, lo); x <= std::min(u, hi) && ! some; ++x)
                            some = s.in_domain(v, x);
                        if (! some)
                            throw NothingThere{}; // a guess has to be possible
                        auto once = [](IntegerVariableCondition k) -> generator<IntegerVariableCondition> { co_yield k; };
                        switch (how[i]) {
                        case 0: return once(l < lo ? v >= lo : v < hi + 1_i);
                        case 1: return once(u > hi ? v < hi + 1_i : v >= lo);
                        case 2: return once(lo == hi ? v == lo : in_range(v, lo, hi));
                        case 3: return once(l < lo ? not_in_range(v, l, lo - 1_i) : not_in_range(v, hi + 1_i, u));
                        default: // in smaller steps
                            if (l < lo)
                                return once(v >= lo - (lo - l) / 2_i);
                            return once(v < hi + (u - hi) / 2_i + 1_i);
                        }
                    }
                    return then(s, ps);
                };
            };
        }

        // Models with domains too large to go through everything: some part of the space is gone through.
        auto run_slice(pbt::Case & c, Model & m) -> void
        {
            for (auto & k : m.cons) {
                double tuples = 1;
                for (auto & o : k.scope)
                    if (o.var >= 0)
                        tuples *= static_cast<double>(m.doms[o.var].back() - m.doms[o.var].front() + 1);
                if (tuples > 5000)
                    rechoose(c, m);
                if (tuples > 50000 && k.entry == "power_table")
                    c.discard();
            }
            auto search = random_search(c, m, false);
            static const double budgets[] = {100, 1000, 10000};
            auto budget = budgets[c.weighted({3, 3, 1})];
            vector<size_t> order;
            for (size_t i = 0; i < m.doms.size(); ++i)
                order.push_back(i);
            vector<std::pair<LL, LL>> box(m.doms.size());
            vector<Asg> expected;
            Model part;
            for (int attempt = 0; attempt < 4 && expected.empty(); ++attempt) {
                c.shuffle(order);
                part = m;
                double used = 1;
                for (auto i : order) {
                    auto n = static_cast<LL>(m.doms[i].size());
                    auto room = std::max<LL>(1, std::min<LL>(n, static_cast<LL>(budget / used)));
                    LL w = c.chance(1, 3) ? room : 1 + static_cast<LL>(c.draw(static_cast<unsigned long long>(std::min<LL>(room, 4) - 1)));
                    auto at = c.weighted({2, 1, 1}) == 0 ? static_cast<LL>(c.draw(static_cast<unsigned long long>(n - w)))
                        : c.chance(1, 2)                 ? 0
                                                         : n - w;
                    part.doms[i] = Dom(m.doms[i].begin() + at, m.doms[i].begin() + at + w);
                    box[i] = {part.doms[i].front(), part.doms[i].back()};
                    used *= static_cast<double>(w);
                }
                expected = part.brute_force();
            }
            vector<unsigned> how;
            for (size_t i = 0; i < m.doms.size(); ++i)
                how.push_back(static_cast<unsigned>(c.draw(4)));
            c.shuffle(order);
            c.note() << m.text() << "search: " << search.text << " within";
            for (auto i : order)
                c.note() << " v" << i << ":" << box[i].first << ".." << box[i].second << "(" << how[i] << ")";
            c.label(expected.empty() ? "part: no solutions" : "part: has solutions");
            if (! expected.empty() && static_cast<double>(expected.size()) < m.product())
                c.nontrivial();
            Posted p;
            post(m, p);
            auto inner = search.make ? search.make(p.env, p.problem)
                                     : branch_with(variable_order::dom_then_deg(p.env.base), value_order::smallest_first());
            search.make = [&](const Env & e, const Problem &) { return within(e, order, box, how, inner); };
            Trace trace;
            if (undone_applies(m))
                trace = [&](const gcs::CurrentState & s, const Env & e) { check_undone(c, m.cons.front(), s, e); };
            Outcome o;
            try {
                o = solve(m, p, search, std::nullopt, trace);
            }
            catch (const NothingThere &) {
                o.completed = true;
                c.label("part: propagation alone shows there are none");
            }
            expect_enumeration(c, m, expected, o, "part of an enumeration");
        }

        auto wide_style(pbt::Case & c) -> Style
        {
            auto s = random_style(c);
            s.budget = 1e15;
            s.holes /= 2;
            static const LL widths[] = {3, 10, 40, 200};
            s.wide = widths[c.weighted({4, 4, 2, 1})];
            return s;
        }
    }

    auto mixed_model(pbt::Case & c, Model & m, const vector<Entry> & first, const vector<Entry> & others, size_t lo, size_t hi, double budget, LL wide) -> void
    {
        Style s;
        s.budget = budget;
        s.wide = wide;
        s.views = 15;
        s.constants = 5;
        Gen g{c, m, s};
        auto n = g.count(lo, hi);
        for (size_t i = 0; i < n; ++i) {
            // later constraints mostly talk about what the earlier ones do
            g.style.reuse = i == 0 ? 8 : 75;
            auto & from = i == 0 || c.chance(1, 2) ? first : others;
            m.cons.push_back(generate(g, c.pick(from)));
        }
    }

    auto enumeration_properties(const vector<Entry> & entries, size_t cases_each, size_t mixed_cases) -> vector<pbt::Property>
    {
        vector<pbt::Property> r;
        for (auto & e : entries)
            r.push_back({e.first, cases_each, 12, [e](pbt::Case & c) {
                             Model m;
                             auto part = c.chance(1, 5);
                             auto style = part ? wide_style(c) : random_style(c);
                             if (e.first.starts_with("power")) // whose search for a fixed point goes through values
                                 style.wide = std::min<LL>(style.wide, 10);
                             Gen g{c, m, style};
                             m.cons.push_back(generate(g, e));
                             if (part)
                                 run_slice(c, m);
                             else
                                 run_one(c, m, true);
                         }});
        r.push_back({"larger", mixed_cases / 4, 12, [entries](pbt::Case & c) {
                         Model m;
                         Style s = random_style(c);
                         s.budget = 1e15;
                         s.scale = 2 + static_cast<LL>(c.draw(1));
                         Gen g{c, m, s};
                         m.cons.push_back(generate(g, c.pick(entries)));
                         if (c.chance(1, 4)) {
                             g.style.reuse = 60;
                             m.cons.push_back(generate(g, c.pick(entries)));
                         }
                         run_large(c, m);
                     }});
        r.push_back({"conjunctions", mixed_cases, 12, [entries, all = all_entries()](pbt::Case & c) {
                         Model m;
                         auto part = c.chance(1, 6);
                         mixed_model(c, m, entries, all, 2, 4, part ? 1e15 : c.chance(1, 4) ? 4000 : 600, part ? 1 + static_cast<LL>(c.draw(7)) : 1);
                         if (part)
                             run_slice(c, m);
                         else
                             run_one(c, m, false);
                     }});
        return r;
    }
}

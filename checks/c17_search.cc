// How the search is carried out makes no difference to which solutions there are.
#include <checks/solver/enumerate.hh>
#include <checks/solver/presolve.hh>

#include <algorithm>
#include <atomic>

using namespace gcs;
using namespace mdl;
using std::optional;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    auto enumerate_with(pbt::Case & c, Model & m, const vector<Presolve> & pre) -> void
    {
        auto search = random_search(c, m, true);
        c.note() << m.text() << "search: " << search.text;
        for (auto & [t, _] : pre)
            c.note() << "; " << t;
        auto expected = m.brute_force();
        if (! expected.empty() && static_cast<double>(expected.size()) < m.product())
            c.nontrivial();
        c.label(expected.empty() ? "unsatisfiable" : "satisfiable");
        Posted p;
        post(m, p);
        for (auto & [_, f] : pre)
            f(p);
        auto o = solve(m, p, search);
        if (o.stats.restarts > 0)
            c.label("restarted");
        expect_enumeration(c, m, expected, o, "enumeration");
    }

    auto any_model(pbt::Case & c, Model & m, double budget = 600) -> void
    {
        static const auto all = all_entries();
        if (c.chance(1, 3)) {
            auto s = random_style(c);
            s.budget = budget;
            Gen g{c, m, s};
            m.cons.push_back(generate(g, c.pick(all)));
        }
        else
            mixed_model(c, m, all, all, 2, 4, budget);
        if (m.doms.empty()) {
            Gen g{c, m, Style{}};
            g.new_var({0, 1});
        }
    }

    auto figures(const Stats & s) -> vector<unsigned long long>
    {
        return {s.recursions, s.failures, s.propagations, s.effectful_propagations, s.contradicting_propagations, s.solutions, s.max_depth, s.restarts};
    }

    // The same model solved again, from the same problem and from a new one.
    auto repeated(pbt::Case & c) -> void
    {
        Model m;
        any_model(c, m);
        auto search = random_search(c, m, true);
        c.note() << m.text() << "search: " << search.text;
        Posted p, q;
        post(m, p);
        post(m, q);
        auto a = solve(m, p, search), b = solve(m, p, search), d = solve(m, q, search);
        if (a.stats.recursions > 1 && ! a.solutions.empty())
            c.nontrivial();
        if (a.solutions != b.solutions)
            c.fail("solving the problem a second time gave different solutions, or in a different order");
        if (a.solutions != d.solutions)
            c.fail("solving an identical problem gave different solutions, or in a different order");
        if (figures(a.stats) != figures(b.stats) || figures(a.stats) != figures(d.stats))
            c.fail("solving the same problem again took a different number of steps");
    }

    // Stopping early gives the beginning of what would have been found.
    auto stopped(pbt::Case & c) -> void
    {
        Model m;
        any_model(c, m);
        if (c.chance(1, 3)) {
            m.objective = Op{static_cast<int>(c.draw(m.doms.size() - 1)), c.chance(1, 3), 0};
            m.maximise = c.chance(1, 2);
        }
        auto search = random_search(c, m, true);
        enum { Solution, Trace, Flag, FlagFirst } how = static_cast<decltype(how)>(c.draw(3));
        auto after = how == FlagFirst ? 0 : 1 + c.draw(c.chance(1, 2) ? 3 : 20);
        static const char * hows[] = {"solution callback", "trace callback", "abort flag", "abort flag before starting"};
        c.note() << m.text() << "search: " << search.text << "; stopped by the " << hows[how] << " at " << after;
        if (m.objective)
            c.note() << "; " << (m.maximise ? "maximise " : "minimise ") << m.objective->text();
        Posted p, q;
        post(m, p);
        post(m, q);
        auto full = solve(m, p, search);
        vector<Asg> got;
        size_t nodes = 0, calls_after = 0;
        bool completed = false, fired = false;
        std::atomic<bool> flag{how == FlagFirst};
        SolveCallbacks cb;
        cb.solution = [&](const CurrentState & st) -> bool {
            if (fired)
                ++calls_after;
            Asg a;
            for (auto & v : q.env.base)
                a.push_back(st(v).raw_value);
            got.push_back(std::move(a));
            if (how == Solution && got.size() == after) {
                fired = true;
                return false;
            }
            return true;
        };
        cb.trace = [&](const CurrentState &) -> bool {
            if (fired)
                ++calls_after;
            if (++nodes == after && (how == Trace || how == Flag)) {
                fired = true;
                if (how == Trace)
                    return false;
                flag.store(true);
            }
            return true;
        };
        cb.completed = [&] { completed = true; };
        cb.stats_report = silent_stats_report();
        if (search.make)
            cb.branch = search.make(q.env, q.problem);
        if (search.luby)
            cb.restarts = RestartSchedule::luby(*search.luby);
        auto stats = solve_with(q.problem, cb, std::nullopt, &flag);
        if (how == FlagFirst)
            fired = true;
        if (got.size() > full.solutions.size() || ! std::equal(got.begin(), got.end(), full.solutions.begin()))
            c.fail("the solutions given before stopping are not the first ones of the whole search");
        if (calls_after > 0)
            c.fail("a callback was called after the search had been told to stop");
        if (stats.solutions != got.size())
            c.fail("the statistics count " + to_string(stats.solutions) + " solutions, of " + to_string(got.size()));
        if (how == Solution && fired && got.size() != after)
            c.fail("told to stop at solution " + to_string(after) + ", gave " + to_string(got.size()));
        if (how != FlagFirst) {
            if (completed == fired)
                c.fail(fired ? "said it had completed, though it was told to stop" : "never said it had completed, though it was not told to stop");
            if (! fired && got.size() != full.solutions.size())
                c.fail("was not told to stop, but gave only " + to_string(got.size()) + " of " + to_string(full.solutions.size()) + " solutions");
        }
        else if (! got.empty())
            c.fail("gave a solution although told to stop before it started");
        if (fired && got.size() < full.solutions.size())
            c.nontrivial();
    }

    // What a callback can ask about the state agrees with itself.
    auto states(pbt::Case & c) -> void
    {
        Model m;
        any_model(c, m);
        auto search = random_search(c, m, false);
        c.note() << m.text() << "search: " << search.text;
        auto expected = m.brute_force();
        if (expected.size() > 1)
            c.nontrivial();
        struct Kept
        {
            CurrentState state;
            vector<vector<LL>> doms;
        };
        vector<Kept> kept;
        vector<std::pair<int, std::pair<bool, LL>>> views;
        for (size_t i = 0; i < m.doms.size(); ++i)
            views.push_back({static_cast<int>(i), {c.chance(1, 2), c.around_zero(-4, 4)}});
        auto domain = [&](const CurrentState & s, const Env & e, bool thorough) {
            vector<vector<LL>> r;
            for (size_t i = 0; i < m.doms.size(); ++i) {
                r.emplace_back();
                for (auto v : s.each_value(e.base[i]))
                    r.back().push_back(v.raw_value);
                auto & d = r.back();
                if (d.empty())
                    c.fail("v" + to_string(i) + " has no values where the search was told nothing is wrong");
                if (! thorough)
                    continue;
                for (auto & v : {Op{static_cast<int>(i), false, 0}, Op{static_cast<int>(i), views[i].second.first, views[i].second.second}}) {
                    auto id = v.id(e);
                    vector<LL> want;
                    for (auto x : d)
                        want.push_back((v.neg ? -x : x) + v.off);
                    std::sort(want.begin(), want.end());
                    vector<LL> fwd, back, copy;
                    for (auto x : s.each_value(id))
                        fwd.push_back(x.raw_value);
                    for (auto x : s.each_value_reversed(id))
                        back.push_back(x.raw_value);
                    std::reverse(back.begin(), back.end());
                    auto values = s.copy_of_values(id);
                    for (auto x : values.each())
                        copy.push_back(x.raw_value);
                    // only the reversed listing promises an order
                    auto sorted = fwd;
                    std::sort(sorted.begin(), sorted.end());
                    if (sorted != want || back != want || copy != want)
                        c.fail("the ways of listing the values of " + v.text() + " disagree");
                    if (s.lower_bound(id).raw_value != want.front() || s.upper_bound(id).raw_value != want.back() ||
                        s.domain_size(id).raw_value != static_cast<LL>(want.size()) || s.has_single_value(id) != (want.size() == 1))
                        c.fail("the bounds or size of " + v.text() + " disagree with its values");
                    for (auto x = want.front() - 1; x <= want.back() + 1; ++x)
                        if (s.in_domain(id, I(x)) != std::binary_search(want.begin(), want.end(), x))
                            c.fail("membership of " + to_string(x) + " in " + v.text() + " disagrees with its values");
                    if (want.size() == 1 && s(id).raw_value != want.front())
                        c.fail("the value of " + v.text() + " disagrees with its values");
                    if (want.size() > 1) {
                        bool threw = false;
                        try {
                            (void) s(id);
                        }
                        catch (const VariableDoesNotHaveUniqueValue &) {
                            threw = true;
                        }
                        if (! threw)
                            c.fail("asking for the value of " + v.text() + ", which has several, was not refused");
                    }
                }
            }
            return r;
        };
        Posted p;
        post(m, p);
        size_t nodes = 0;
        auto o = solve(m, p, search, std::nullopt, [&](const CurrentState & s, const Env & e) {
            auto d = domain(s, e, true);
            for (size_t i = 0; i < d.size(); ++i)
                if (! std::includes(m.doms[i].begin(), m.doms[i].end(), d[i].begin(), d[i].end()))
                    c.fail("v" + to_string(i) + " has values that it was not created with");
            if (kept.size() < 5 && nodes++ % 2 == 0)
                kept.push_back(Kept{s.clone(), d});
        });
        expect_enumeration(c, m, expected, o, "enumeration");
        for (auto & k : kept)
            if (domain(k.state, p.env, true) != k.doms)
                c.fail("a copy of the state kept from a callback changed afterwards");
    }
}

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C17";
    s.rule = "presolving, restarts and settings: the model has at least one solution and at least one assignment that is not; repetition: the search "
             "branches and finds something; stopping: it stops before the end; states: there are at least two solutions";
    s.properties.push_back({"auto_table", 36000, 12, [](pbt::Case & c) {
                                Model m;
                                any_model(c, m, 300);
                                vector<Presolve> pre{auto_table(c, m)};
                                if (c.chance(1, 4))
                                    pre.push_back(auto_table(c, m));
                                enumerate_with(c, m, pre);
                            }});
    s.properties.push_back({"schedules", 15000, 12, [](pbt::Case & c) {
                                Model m;
                                auto ms = resources_model(c, m, 1);
                                vector<Presolve> pre;
                                for (auto n = 1 + c.draw(2); n > 0; --n)
                                    pre.push_back(c.chance(1, 8) ? auto_table(c, m) : c.chance(1, 6) ? difference_logic(c) : scheduling_presolver(c, ms));
                                enumerate_with(c, m, pre);
                            }});
    s.properties.push_back({"difference_logic", 36000, 12, [](pbt::Case & c) {
                                Model m;
                                differences_model(c, m, 1);
                                enumerate_with(c, m, {difference_logic(c)});
                            }});
    s.properties.push_back({"any_presolver", 24000, 12, [](pbt::Case & c) {
                                Model m;
                                any_model(c, m, 300);
                                vector<Presolve> pre;
                                for (auto n = 1 + c.draw(2); n > 0; --n)
                                    switch (c.draw(2)) {
                                    case 0: pre.push_back(auto_table(c, m)); break;
                                    case 1: pre.push_back(difference_logic(c)); break;
                                    default: pre.push_back(scheduling_presolver(c, std::nullopt));
                                    }
                                enumerate_with(c, m, pre);
                            }});
    s.properties.push_back({"repeated", 30000, 12, repeated});
    s.properties.push_back({"stopped", 30000, 12, stopped});
    s.properties.push_back({"states", 15000, 12, states});
    auto plain = [](pbt::Case & c) {
        Model m;
        any_model(c, m);
        enumerate_with(c, m, {});
    };
    auto linear = [](pbt::Case & c) {
        static const auto lin = linear_entries(), all = all_entries();
        Model m;
        mixed_model(c, m, lin, c.chance(1, 2) ? lin : all, 1, 3, 600);
        enumerate_with(c, m, {});
    };
    s.properties.push_back({"restarts", 36000, 12, plain});
    s.properties.push_back({"idempotence_claims", 36000, 12, plain, 60, {{"GCS_CHECK_IDEMPOTENT_CLAIMS", "1"}}});
    s.properties.push_back({"difference_audit", 12000, 12,
        [](pbt::Case & c) {
            Model m;
            differences_model(c, m, 1);
            enumerate_with(c, m, {difference_logic(c)});
        },
        60, {{"GCS_DIFFERENCE_AUDIT", "1"}}});
    s.properties.push_back({"linear_incremental", 18000, 12, linear, 60, {{"GCS_LINEAR_INCREMENTAL_THRESHOLD", "1"}}});
    s.properties.push_back({"linear_scratch", 18000, 12, linear, 60, {{"GCS_LINEAR_INCREMENTAL_THRESHOLD", "1000"}}});
    s.properties.push_back({"linear_slack", 18000, 12, linear, 60,
        {{"GCS_LINEAR_SLACK_WATCH_THRESHOLD", "1"}, {"GCS_LINEAR_INCREMENTAL_THRESHOLD", "1"}, {"GCS_LINEAR_SLACK_WATCH_COVER_PERCENT", "100"}}});
    s.properties.push_back({"linear_slack_cover", 18000, 12, linear, 60,
        {{"GCS_LINEAR_SLACK_WATCH_THRESHOLD", "2"}, {"GCS_LINEAR_SLACK_WATCH_COVER_PERCENT", "40"}}});
    s.properties.push_back({"tabulated_never", 18000, 12, plain, 60, {{"GCS_TABULATION_THRESHOLD", "0"}}});
    s.properties.push_back({"tabulated_always", 18000, 12, plain, 60, {{"GCS_TABULATION_THRESHOLD", "100000"}}});
    s.properties.push_back({"nogoods_scanned", 18000, 12, plain, 60, {{"GCS_LEARNED_NOGOODS_SCAN", "1"}}});
    return pbt::main(argc, argv, s);
}

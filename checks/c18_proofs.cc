// Every proof that is written is one that a checker accepts, of what was answered.
#include <checks/solver/enumerate.hh>
#include <checks/solver/presolve.hh>
#include <checks/solver/prove.hh>

#include <gcs/exception.hh>
#include <gcs/innards/proofs/proof_error.hh>

#include <algorithm>

using namespace gcs;
using namespace mdl;
using std::optional;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    auto small_style(pbt::Case & c) -> Style
    {
        auto s = random_style(c);
        static const double budgets[] = {60, 20, 200, 600};
        s.budget = budgets[c.weighted({4, 2, 3, 1})];
        return s;
    }

    auto key_of(const Model & m) -> string
    {
        // a known finding: fixing the edge a circuit needs rests on the edges that pruning skips would have removed
        for (auto & k : m.cons)
            if (auto at = k.variant().name.find("knobs "); k.entry == "circuit" && at != string::npos)
                if (auto bits = std::stoi(k.variant().name.substr(at + 6)); (bits & 4) && ! (bits & 2))
                    return "circuit-fix-without-skip";
        return m.cons.empty() ? string{} : m.cons.front().entry;
    }

    auto undecided_key_of(const Model & m) -> string
    {
        for (auto & k : m.cons)
            if (! k.undecided.empty())
                return k.undecided;
        return key_of(m);
    }

    // how many tuples a tabulated constraint goes through, all within bounds, writing down the ones so far each time
    auto table_size(const Model & m) -> double
    {
        double most = 0;
        for (auto & k : m.cons)
            if (k.variant().name.contains("tabulated")) {
                double size = 1;
                for (auto & d : m.doms)
                    size *= static_cast<double>(d.back() - d.front() + 1);
                most = std::max(most, size);
            }
        return most;
    }

    struct Stop
    {
        optional<size_t> after;
        optional<unsigned long long> nodes;
    };

    auto write(pbt::Case & c, const Model & m, const vector<Presolve> & pre, const Search & search, Writing & writing, const Stop & stop = {}) -> Written
    {
        c.note() << m.text() << "search: " << search.text << "; proof:" << writing.text();
        auto names = c.chance(1, 3);
        for (bool say = true;; say = false)
            try {
                Posted p;
                post(m, p, names);
                for (auto & [t, f] : pre) {
                    if (say)
                        c.note() << "; " << t;
                    f(p);
                }
                return write_proof(m, p, search, writing, stop.after, stop.nodes);
            }
            catch (const UnimplementedException & e) {
                // conditions on ranges, and knapsacks and bins over anything but plain variables, are not supported in proofs
                auto t = m.text();
                if (t.contains("..") || t.contains("knapsack") || t.contains("bin_packing"))
                    c.discard();
                throw;
            }
            catch (const innards::ProofError & e) {
                // a known finding: the energy rules, unlike those of cumulative, do not leave out tasks that are not plain variables
                if (string{e.what()}.contains("edge-finding wants a simple start variable"))
                    c.fail("solving with a proof threw: " + string{e.what()}, "edge-finding-view");
                throw;
            }
            catch (const UnexpectedException & e) {
                // these two kinds of reification have a documented lack of a way to be written as s-expressions
                if (! writing.scp || ! string{e.what()}.contains("Unexpected reification type in s_expr"))
                    throw;
                writing.scp = false;
                c.note() << " (without s-expressions)";
            }
    }

    // in the order of the search: the value that is minimised
    auto cost(const Model & m, const Asg & a) -> LL
    {
        return m.objective->eval(a) * (m.maximise ? -1 : 1);
    }

    // A search that may be told to stop: the proof up to there stands, and claims no more than was found.
    auto stopped(pbt::Case & c, Model & m, const vector<Presolve> & pre) -> void
    {
        if (table_size(m) > 2000)
            c.discard();
        auto search = random_search(c, m, true);
        auto writing = random_writing(c);
        Stop stop;
        if (c.chance(1, 2)) {
            stop.after = 1 + c.draw(4);
            c.note() << "stop after " << *stop.after << " solutions; ";
        }
        else {
            stop.nodes = c.draw(6);
            c.note() << "stop after " << *stop.nodes << " nodes; ";
        }
        auto expected = m.brute_force();
        auto w = write(c, m, pre, search, writing, stop);
        auto key = key_of(m);
        auto r = check_proof(c, w, key, undecided_key_of(m));
        auto & found = w.outcome.solutions;
        if (r.assertions)
            c.fail("the proof takes something on trust, although it was not to", key);
        if (static_cast<size_t>(r.solutions) != found.size())
            c.fail("the proof has " + to_string(r.solutions) + " solutions, of " + to_string(found.size()) + " given", key);
        if (w.outcome.completed) {
            c.label("finished before it was stopped");
            auto want = m.objective ? "BOUNDS" : expected.empty() ? "UNSAT" : "ENUMERATION_COMPLETE";
            if (r.conclusion.kind != want)
                c.fail("the search finished, but the proof concludes " + r.conclusion.kind, key);
            if (m.objective && ! expected.empty() && (! r.conclusion.lower || ! r.conclusion.upper || *r.conclusion.lower != *r.conclusion.upper))
                c.fail("the search finished, but the proof does not claim an optimal value", key);
            return;
        }
        c.label(found.empty() ? "stopped with no solutions" : "stopped with solutions");
        if (w.outcome.stats.recursions > 1)
            c.nontrivial();
        if (found.empty()) {
            if (r.conclusion.kind != "NONE")
                c.fail("the search stopped with no solutions, but the proof concludes " + r.conclusion.kind, key);
        }
        else if (m.objective) {
            if (r.conclusion.kind != "BOUNDS" || ! r.conclusion.upper)
                c.fail("the search stopped with a solution, but the proof concludes " + r.conclusion.kind, key);
            if (*r.conclusion.upper != cost(m, found.back()))
                c.fail("the proof's upper bound is " + to_string(static_cast<LL>(*r.conclusion.upper)) + ", but the last solution's value is " +
                        to_string(cost(m, found.back())), key);
            if (r.conclusion.lower)
                for (auto & a : expected)
                    if (cost(m, a) < *r.conclusion.lower)
                        c.fail("the proof's lower bound is " + to_string(static_cast<LL>(*r.conclusion.lower)) + ", but a solution has value " +
                                to_string(cost(m, a)), key);
        }
        else if (r.conclusion.kind != "SAT")
            c.fail("the search stopped with a solution, but the proof concludes " + r.conclusion.kind, key);
    }

    // Larger domains, where propagating bits decides less, so more of each derivation is needed. What the proof of a
    // few nodes derives is checked, and that is all that has to be: no other reference is needed, nor would one be feasible.
    auto wide(pbt::Case & c, const Entry & e) -> void
    {
        auto style = random_style(c);
        style.budget = 1e15;
        static const LL widths[] = {3, 6, 12, 40};
        style.wide = widths[c.weighted({3, 4, 3, 1})];
        style.holes /= 3;
        Model m;
        Gen g{c, m, style};
        m.cons.push_back(generate(g, e));
        if (m.doms.empty())
            g.new_var({0, 1});
        if (table_size(m) > 300)
            c.discard();
        auto search = random_search(c, m, true);
        auto writing = random_writing(c);
        Stop stop;
        stop.nodes = 1 + c.draw(20);
        auto w = write(c, m, {}, search, writing, stop);
        auto key = key_of(m);
        for (auto & a : w.outcome.solutions)
            if (! m.holds(a))
                c.fail("not a solution", key);
        auto r = check_proof(c, w, key, undecided_key_of(m));
        c.label("wide domains");
        if (w.outcome.stats.recursions > 1)
            c.nontrivial();
        if (r.assertions)
            c.fail("the proof takes something on trust, although it was not to", key);
        if (static_cast<size_t>(r.solutions) != w.outcome.solutions.size())
            c.fail("the proof has " + to_string(r.solutions) + " solutions, of " + to_string(w.outcome.solutions.size()) + " given", key);
        auto want = w.outcome.completed ? (w.outcome.solutions.empty() ? "UNSAT" : "ENUMERATION_COMPLETE") : w.outcome.solutions.empty() ? "NONE" : "SAT";
        if (r.conclusion.kind != want)
            c.fail("the proof concludes " + r.conclusion.kind + ", not " + want, key);
    }

    // With steps left out to be filled in later, what is asserted must be true: no solution that is still to come can contradict it.
    auto asserted(pbt::Case & c, Model & m) -> void
    {
        if (table_size(m) > 2000)
            c.discard();
        auto search = random_search(c, m, true);
        auto writing = random_writing(c);
        // only the first of these leaves a proof that can be checked before what is missing has been filled in
        writing.level = static_cast<AssertionLevel>(1 + c.weighted({3, 1, 1, 1}));
        auto expected = m.brute_force();
        auto w = write(c, m, {}, search, writing);
        auto key = key_of(m);
        vector<pbp::Event> events;
        if (! m.objective)
            expect_enumeration(c, m, expected, w.outcome, "with assertions");
        if (writing.level == AssertionLevel::Definitions) {
            auto r = check_proof(c, w, key, undecided_key_of(m), true);
            events = std::move(r.events);
            if (r.conclusion.kind != (m.objective ? "BOUNDS" : expected.empty() ? "UNSAT" : "ENUMERATION_COMPLETE"))
                c.fail("the proof concludes " + r.conclusion.kind, key);
        }
        else
            events = events_of(w);
        if (static_cast<size_t>(std::ranges::count(events, pbp::Event::Solution, &pbp::Event::kind)) != w.outcome.solutions.size())
            c.fail("the proof does not have the solutions that were given", key);
        auto remaining = expected;
        size_t at = 0, evaluated = 0, assertions = 0;
        for (auto & e : events) {
            if (e.kind == pbp::Event::Solution) {
                auto & s = w.outcome.solutions.at(at++);
                std::erase_if(remaining, [&](const Asg & a) { return m.objective ? cost(m, a) >= cost(m, s) : a == s; });
                continue;
            }
            ++assertions;
            bool all_known = true;
            for (auto & a : remaining) {
                // the most that the left hand side can be
                pbp::Big most = 0;
                for (auto & [k, name] : e.terms) {
                    auto v = value_of(w, name, a);
                    if (! v)
                        all_known = false;
                    most += v ? (*v ? k : 0) : k > 0 ? k : 0;
                }
                if (most < e.bound) {
                    string t;
                    for (auto & [k, name] : e.terms)
                        t += to_string(static_cast<LL>(k)) + " " + name + " ";
                    string s;
                    for (auto & v : a)
                        s += " " + to_string(v);
                    c.fail("the assertion " + t + ">= " + to_string(static_cast<LL>(e.bound)) + " is not true of the solution" + s, key);
                }
            }
            if (all_known && ! remaining.empty())
                ++evaluated;
        }
        c.label(assertions == 0 ? "no assertions" : evaluated * 2 >= assertions ? "most assertions could contradict" : evaluated ? "some assertions could contradict"
                                                                                                                          : "no solutions remained, or unknown literals");
        if (evaluated)
            c.nontrivial();
    }

    auto whole(pbt::Case & c, Model & m, const vector<Presolve> & pre = {}) -> void
    {
        if (table_size(m) > 2000)
            c.discard();
        auto search = random_search(c, m, true);
        auto writing = random_writing(c);
        auto expected = m.brute_force();
        auto w = write(c, m, pre, search, writing);
        if (w.outcome.stats.recursions > 1 && static_cast<double>(expected.size()) < m.product())
            c.nontrivial();
        c.label(expected.empty() ? "unsatisfiable" : "satisfiable");
        if (w.outcome.stats.restarts > 0)
            c.label("restarted");
        auto key = key_of(m);
        auto r = check_proof(c, w, key, undecided_key_of(m));
        if (r.hinted)
            c.label("has hinted steps");
        if (r.subproofs)
            c.label("has subproofs");
        if (r.assertions)
            c.fail("the proof takes something on trust, although it was not to", key);
        if (m.objective) {
            if (r.conclusion.kind != "BOUNDS")
                c.fail("an optimisation that finished concludes " + r.conclusion.kind, key);
            if (expected.empty()) {
                if (r.conclusion.lower || r.conclusion.upper)
                    c.fail("the proof claims bounds for a problem that has no solutions", key);
            }
            else if (! r.conclusion.lower || ! r.conclusion.upper || *r.conclusion.lower != *r.conclusion.upper)
                c.fail("the proof does not claim an optimal value", key);
            else {
                LL best = 0;
                bool any = false;
                for (auto & a : expected) {
                    auto v = m.objective->eval(a) * (m.maximise ? -1 : 1);
                    if (! any || v < best)
                        best = v;
                    any = true;
                }
                if (*r.conclusion.lower != best)
                    c.fail("the proof claims the optimal value is " + to_string(static_cast<LL>(*r.conclusion.lower)) + ", but it is " + to_string(best),
                        key);
            }
            if (static_cast<size_t>(r.solutions) != w.outcome.solutions.size())
                c.fail("the proof has " + to_string(r.solutions) + " solutions, of " + to_string(w.outcome.solutions.size()) + " given", key);
            if (! w.outcome.completed)
                c.fail("the search never said it had completed", key);
        }
        else {
            expect_enumeration(c, m, expected, w.outcome, "with a proof");
            if (r.conclusion.kind != (expected.empty() ? "UNSAT" : "ENUMERATION_COMPLETE"))
                c.fail("the proof concludes " + r.conclusion.kind, key);
            if (static_cast<size_t>(r.solutions) != expected.size())
                c.fail("the proof has " + to_string(r.solutions) + " solutions, of " + to_string(expected.size()), key);
        }
        if (c.chance(1, 4)) {
            // the proof must be only a by-product
            Posted q;
            post(m, q);
            for (auto & [_, f] : pre)
                f(q);
            auto o = solve(m, q, search);
            // a budget for a derivation only counts with a proof, so with one
            // a constraint can be left as it was and the search be different
            bool budgeted = false;
            for (auto & [name, _] : pre)
                if (name.find(" budgets ") != string::npos)
                    budgeted = true;
            if (budgeted) {
                auto a = o.solutions, b = w.outcome.solutions;
                std::ranges::sort(a);
                std::ranges::sort(b);
                if (m.objective ? a.empty() != b.empty() || (! a.empty() && m.objective->eval(o.solutions.back()) != m.objective->eval(w.outcome.solutions.back()))
                                : a != b)
                    c.fail("different solutions without a proof", key);
                return;
            }
            if (o.solutions != w.outcome.solutions)
                c.fail("different solutions, or in a different order, without a proof", key);
            if (o.stats.recursions != w.outcome.stats.recursions || o.stats.failures != w.outcome.stats.failures)
                c.fail("a different search without a proof", key);
        }
    }
}

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C18";
    s.rule = "the search branches, and not every assignment is a solution";
    for (auto & e : all_entries())
        s.properties.push_back({e.first, 1200, 24, [e](pbt::Case & c) {
                                    if (c.chance(1, 3)) {
                                        wide(c, e);
                                        return;
                                    }
                                    Model m;
                                    Gen g{c, m, small_style(c)};
                                    m.cons.push_back(generate(g, e));
                                    if (m.doms.empty())
                                        g.new_var({0, 1});
                                    whole(c, m);
                                }});
    auto any = [all = all_entries()](pbt::Case & c, Model & m, double budget) {
        mixed_model(c, m, all, all, 2, 3, budget);
        if (m.doms.empty()) {
            Gen g{c, m, Style{}};
            g.new_var({0, 1});
        }
    };
    s.properties.push_back({"conjunctions", 8000, 18, [any](pbt::Case & c) {
                                Model m;
                                any(c, m, c.chance(1, 4) ? 600 : 100);
                                whole(c, m);
                            }});
    s.properties.push_back({"pairs", 8000, 18, [all = all_entries()](pbt::Case & c) {
                                // two of the same kind
                                Model m;
                                vector<Entry> one{c.pick(all)};
                                mixed_model(c, m, one, one, 2, 2, 60);
                                if (m.doms.empty()) {
                                    Gen g{c, m, Style{}};
                                    g.new_var({0, 1});
                                }
                                whole(c, m);
                            }});
    s.properties.push_back({"objectives", 8000, 18, [any](pbt::Case & c) {
                                Model m;
                                any(c, m, c.chance(1, 4) ? 600 : 100);
                                m.objective = Op{static_cast<int>(c.draw(m.doms.size() - 1)), c.chance(1, 3), c.chance(1, 3) ? c.around_zero(-5, 5) : 0};
                                m.maximise = c.chance(1, 2);
                                whole(c, m);
                            }});
    s.properties.push_back({"presolvers", 8000, 12, [any](pbt::Case & c) {
                                Model m;
                                any(c, m, 100);
                                vector<Presolve> pre;
                                for (auto n = 1 + c.draw(1); n > 0; --n)
                                    switch (c.draw(2)) {
                                    case 0: pre.push_back(auto_table(c, m)); break;
                                    case 1: pre.push_back(difference_logic(c)); break;
                                    default: pre.push_back(scheduling_presolver(c, std::nullopt));
                                    }
                                whole(c, m, pre);
                            }});
    auto objective = [](pbt::Case & c, Model & m) {
        m.objective = Op{static_cast<int>(c.draw(m.doms.size() - 1)), c.chance(1, 3), c.chance(1, 3) ? c.around_zero(-5, 5) : 0};
        m.maximise = c.chance(1, 2);
    };
    auto presolvers = [](pbt::Case & c, const Model & m) {
        vector<Presolve> pre;
        if (c.chance(1, 4))
            switch (c.draw(2)) {
            case 0: pre.push_back(auto_table(c, m)); break;
            case 1: pre.push_back(difference_logic(c)); break;
            default: pre.push_back(scheduling_presolver(c, std::nullopt));
            }
        return pre;
    };
    s.properties.push_back({"stopped", 6000, 12, [any, objective, presolvers](pbt::Case & c) {
                                Model m;
                                any(c, m, c.chance(1, 4) ? 600 : 100);
                                if (c.chance(1, 3))
                                    objective(c, m);
                                stopped(c, m, presolvers(c, m));
                            }});
    s.properties.push_back({"asserted", 6000, 12, [any, objective](pbt::Case & c) {
                                Model m;
                                any(c, m, c.chance(1, 4) ? 600 : 100);
                                if (c.chance(1, 4))
                                    objective(c, m);
                                asserted(c, m);
                            }});
    // the presolvers that look for resources or differences, on models that have some
    s.properties.push_back({"resources", 4000, 12, [](pbt::Case & c) {
                                Model m;
                                auto ms = resources_model(c, m, 0.3);
                                if (ms && c.chance(1, 2))
                                    m.objective = *ms;
                                vector<Presolve> pre;
                                for (auto n = 1 + c.draw(1); n > 0; --n)
                                    pre.push_back(c.chance(1, 8) ? auto_table(c, m) : c.chance(1, 6) ? difference_logic(c) : scheduling_presolver(c, ms));
                                if (m.product() > 20000)
                                    c.discard();
                                whole(c, m, pre);
                            }});
    s.properties.push_back({"differences", 4000, 12, [objective](pbt::Case & c) {
                                Model m;
                                differences_model(c, m, 0.3);
                                vector<Presolve> pre;
                                if (c.chance(3, 4))
                                    pre.push_back(difference_logic(c));
                                if (m.product() > 20000)
                                    c.discard();
                                if (c.chance(1, 3))
                                    objective(c, m);
                                whole(c, m, pre);
                            }});
    return pbt::main(argc, argv, s);
}

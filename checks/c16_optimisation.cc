// Minimising and maximising give improving solutions, ending with an optimal one.
#include <checks/solver/enumerate.hh>
#include <checks/solver/presolve.hh>

#include <algorithm>
#include <atomic>

using namespace gcs;
using namespace mdl;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    auto objective(pbt::Case & c, Model & m) -> void
    {
        Style s;
        s.views = 40;
        s.reuse = 100;
        s.constants = c.chance(1, 30) ? 100 : 0;
        s.budget = m.product() * 8;
        Gen g{c, m, s};
        m.objective = g.op(-3, 3);
        m.maximise = c.chance(1, 2);
    }

    auto with_total(pbt::Case & c, Model & m) -> void
    {
        // an objective that is the sum of what there is
        Style s;
        s.budget = m.product() * 40;
        Gen g{c, m, s};
        Ops os;
        vector<LL> ws;
        LL lo = 0, hi = 0;
        for (size_t i = 0; i < m.doms.size(); ++i) {
            os.push_back(Op{static_cast<int>(i), false, 0});
            ws.push_back(c.around_zero(-3, 3));
            auto a = ws.back() * m.doms[i].front(), b = ws.back() * m.doms[i].back();
            lo += std::min(a, b);
            hi += std::max(a, b);
        }
        auto from = c.chance(1, 2) ? lo : c.range(lo, hi);
        auto to = std::min(hi, from + static_cast<LL>(c.draw(39)));
        Dom d;
        for (auto v = from; v <= to; ++v)
            d.push_back(v);
        Op total{g.new_var(d), false, 0};
        Cons k;
        k.entry = "linear_eq";
        k.text = text(os) + " * " + text(ws) + " == " + total.text();
        k.scope = os;
        k.scope.push_back(total);
        k.holds = [=](const Asg & a) {
            LL t = 0;
            for (size_t i = 0; i < os.size(); ++i)
                t += ws[i] * os[i].eval(a);
            return t == total.eval(a);
        };
        k.variants = {{"", [=](const Env & e) {
                           WeightedSum w;
                           for (size_t i = 0; i < os.size(); ++i)
                               w += I(ws[i]) * os[i].id(e);
                           w += -1_i * total.id(e);
                           return mk<LinearEquality>(w, 0_i);
                       }}};
        m.cons.push_back(k);
        m.objective = total;
        if (c.chance(1, 4))
            m.objective->off = c.around_zero(-5, 5);
        if (c.chance(1, 4))
            m.objective->neg = true;
        m.maximise = c.chance(1, 2);
    }

    auto check(pbt::Case & c, const Model & m, const vector<Asg> & all, const Outcome & o) -> void
    {
        auto key = m.cons.front().entry;
        auto better = [&](LL a, LL b) { return m.maximise ? a > b : a < b; };
        for (size_t i = 0; i < o.solutions.size(); ++i) {
            if (! m.holds(o.solutions[i]))
                c.fail("gave " + show(o.solutions[i]) + ", which is not a solution", key);
            if (i > 0 && ! better(m.objective->eval(o.solutions[i]), m.objective->eval(o.solutions[i - 1])))
                c.fail("gave " + show(o.solutions[i]) + " after " + show(o.solutions[i - 1]) + ", which it does not improve on", key);
        }
        if (o.solutions.empty() != all.empty())
            c.fail(all.empty() ? "found a solution of an unsatisfiable problem" : "found no solution, though " + show(all.front()) + " is one", key);
        for (auto & a : all)
            if (better(m.objective->eval(a), m.objective->eval(o.solutions.back())))
                c.fail("ended with " + show(o.solutions.back()) + ", though " + show(a) + " is better", key);
        if (! o.completed)
            c.fail("the search never said it had completed", key);
        if (o.stats.solutions != o.solutions.size())
            c.fail("the statistics count " + to_string(o.stats.solutions) + " solutions, of " + to_string(o.solutions.size()), key);
    }

    auto run(pbt::Case & c, Model & m, const vector<Presolve> & pre) -> void
    {
        auto search = random_search(c, m, true);
        c.note() << m.text() << (m.maximise ? "maximise " : "minimise ") << m.objective->text() << "; search: " << search.text;
        for (auto & [t, _] : pre)
            c.note() << "; " << t;
        auto all = m.brute_force();
        std::set<LL> values;
        for (auto & a : all)
            values.insert(m.objective->eval(a));
        if (values.size() >= 2)
            c.nontrivial();
        Posted p;
        post(m, p);
        for (auto & [_, f] : pre)
            f(p);
        auto o = solve(m, p, search);
        if (o.solutions.size() >= 2)
            c.label("improved at least once");
        check(c, m, all, o);
    }
}

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C16";
    s.rule = "the solutions have at least two different objective values";
    auto one = [](const char * name, size_t n, vector<Entry> entries) {
        return pbt::Property{name, n, 12, [entries](pbt::Case & c) {
                                 Model m;
                                 Gen g{c, m, random_style(c)};
                                 m.cons.push_back(generate(g, c.pick(entries)));
                                 objective(c, m);
                                 run(c, m, {});
                             }};
    };
    s.properties.push_back(one("arithmetic", 120000, arithmetic_entries()));
    s.properties.push_back(one("linear", 100000, linear_entries()));
    s.properties.push_back(one("logical", 60000, logical_entries()));
    s.properties.push_back(one("counting", 100000, counting_entries()));
    s.properties.push_back(one("extensional", 80000, extensional_entries()));
    s.properties.push_back(one("scheduling", 60000, scheduling_entries()));
    s.properties.push_back(one("ordering", 60000, ordering_entries()));
    s.properties.push_back({"totals", 80000, 12, [all = all_entries()](pbt::Case & c) {
                                Model m;
                                mixed_model(c, m, all, all, 1, 3, 300);
                                with_total(c, m);
                                run(c, m, {});
                            }});
    s.properties.push_back({"schedules", 25000, 12, [](pbt::Case & c) {
                                Model m;
                                auto ms = resources_model(c, m, 1);
                                if (ms)
                                    m.objective = *ms, m.maximise = c.chance(1, 10);
                                else
                                    objective(c, m);
                                vector<Presolve> pre;
                                for (auto n = c.draw(2); n > 0; --n)
                                    pre.push_back(c.chance(1, 5) ? difference_logic(c) : scheduling_presolver(c, ms));
                                run(c, m, pre);
                            }});
    return pbt::main(argc, argv, s);
}

// The pseudo-Boolean model that is written down says the same as the problem that was posed.
#include <checks/solver/enumerate.hh>
#include <checks/solver/prove.hh>

#include <gcs/exception.hh>
#include <gcs/innards/proofs/proof_error.hh>

#include <algorithm>

using namespace gcs;
using namespace mdl;
using std::optional;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    auto key_of(const Model & m) -> string
    {
        return m.cons.empty() ? string{} : m.cons.front().entry;
    }

    auto write_model(pbt::Case & c, const Model & m, Posted & p, Writing & writing) -> Written
    {
        try {
            return write_proof(m, p, default_search(), writing, std::nullopt, 0);
        }
        catch (const UnimplementedException & e) {
            // conditions on ranges, and knapsacks and bins over anything but plain variables, are not supported in proofs
            auto t = m.text();
            if (t.contains("..") || t.contains("knapsack") || t.contains("bin_packing"))
                c.discard();
            throw;
        }
        catch (const innards::ProofError & e) {
            // a known finding of the proofs, which are not what is looked at here
            if (string{e.what()}.contains("edge-finding wants a simple start variable"))
                c.discard();
            throw;
        }
    }

    // the bits of a variable in the model, with what each is worth
    auto bits_of_each(const Written & w, const pbp::Checker & k, size_t n) -> vector<vector<std::pair<LL, pbp::Lit>>>
    {
        vector<vector<std::pair<LL, pbp::Lit>>> r(n);
        for (auto & [name, m] : w.names)
            if (m.kind == Meaning::Bit && m.real)
                if (auto at = w.position.find(m.variable); at != w.position.end())
                    if (auto l = k.find(name))
                        r.at(at->second).emplace_back(m.value, *l);
        return r;
    }

    auto faithful(pbt::Case & c, Model & m) -> void
    {
        auto writing = random_writing(c);
        writing.scp = false;
        c.note() << m.text() << "model:" << writing.text();
        Posted p;
        post(m, p, c.chance(1, 3));
        auto w = write_model(c, m, p, writing);
        auto key = key_of(m);
        pbp::Checker k;
        try {
            k.read_opb(w.opb);
        }
        catch (const pbp::Refused & e) {
            c.fail("the model is malformed: " + e.why, key);
        }
        catch (const pbp::TooLarge &) {
            c.discard();
        }
        auto bits = bits_of_each(w, k, m.doms.size());

        // values that the bits can take, in and a little outside of each domain's hull
        vector<Dom> around;
        double size = 1;
        for (size_t i = 0; i < m.doms.size(); ++i) {
            Dom d;
            for (auto v = m.doms[i].front() - 1; v <= m.doms[i].back() + 1; ++v) {
                LL sum = 0;
                for (auto & [value, _] : bits[i])
                    if (value < 0 ? v < 0 : (static_cast<unsigned long long>(v) & static_cast<unsigned long long>(value)) != 0)
                        sum += value;
                if (sum == v)
                    d.push_back(v);
            }
            for (auto v : m.doms[i])
                if (! std::ranges::binary_search(d, v))
                    c.fail("v" + to_string(i) + " cannot be written as " + to_string(v) + " in the model", key);
            size *= static_cast<double>(d.size());
            around.push_back(std::move(d));
        }

        size_t yes = 0, no = 0, most = 0;
        auto ask = [&](const Asg & a) {
            bool want = true;
            for (size_t i = 0; i < a.size(); ++i)
                want = want && std::ranges::binary_search(m.doms[i], a[i]);
            want = want && m.holds(a);
            vector<pbp::Lit> lits;
            for (size_t i = 0; i < a.size(); ++i)
                for (auto & [value, l] : bits[i])
                    lits.push_back((value < 0 ? a[i] < 0 : (static_cast<unsigned long long>(a[i]) & static_cast<unsigned long long>(value)) != 0) ? l : l ^ 1);
            size_t decisions = 0;
            auto got = k.satisfiable(lits, decisions);
            most = std::max(most, decisions);
            ++(want ? yes : no);
            if (got != want)
                c.fail(show(a) + (want ? " is a solution, but the model does not allow it" : " is not a solution, but the model allows it"), key);
            if (want && m.objective) {
                if (! k.objective())
                    c.fail("the model has no objective", key);
                pbp::Big sum = 0;
                for (auto & [coefficient, l] : *k.objective()) {
                    lits.push_back(l);
                    auto on = k.satisfiable(lits, decisions);
                    lits.back() = l ^ 1;
                    auto off = k.satisfiable(lits, decisions);
                    if (on == off)
                        c.fail("the value of the objective is not determined by " + show(a), key);
                    lits.back() = on ? l : l ^ 1;
                    sum += on ? coefficient : 0;
                }
                auto value = m.objective->eval(a) * (m.maximise ? -1 : 1);
                if (sum != value)
                    c.fail("the model's objective is " + to_string(static_cast<LL>(sum)) + " for " + show(a) + ", whose value is " + to_string(value), key);
            }
        };
        if (! m.objective && k.objective())
            c.fail("the model has an objective that the problem does not", key);
        try {
            const double cap = 160;
            if (size <= cap) {
                Asg a(around.size());
                auto go = [&](auto && self, size_t i) -> void {
                    if (i == around.size())
                        return ask(a);
                    for (auto v : around[i]) {
                        a[i] = v;
                        self(self, i + 1);
                    }
                };
                go(go, 0);
            }
            else {
                auto solutions = m.brute_force();
                for (size_t n = 0; n < 60 && ! solutions.empty(); ++n)
                    ask(solutions[c.draw(solutions.size() - 1)]);
                for (size_t n = 0; n < 60; ++n) {
                    // near a solution or anywhere
                    Asg a;
                    if (! solutions.empty() && c.chance(1, 2)) {
                        a = solutions[c.draw(solutions.size() - 1)];
                        auto i = c.draw(a.size() - 1);
                        a[i] = c.pick(around[i]);
                    }
                    else
                        for (auto & d : around)
                            a.push_back(c.pick(d));
                    ask(a);
                }
            }
        }
        catch (const pbp::TooLarge &) {
            c.label("too hard");
            c.discard();
        }
        c.label(most == 0 ? "decided by propagation alone" : "needed decisions");
        if (yes && no)
            c.nontrivial();
    }
}

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C19";
    s.rule = "at least one of the assignments asked about is a solution and at least one is not";
    for (auto & e : all_entries())
        s.properties.push_back({e.first, 1000, 12, [e](pbt::Case & c) {
                                    Model m;
                                    auto style = random_style(c);
                                    style.budget = c.chance(1, 3) ? 300 : 60;
                                    Gen g{c, m, style};
                                    m.cons.push_back(generate(g, e));
                                    if (m.doms.empty())
                                        g.new_var({0, 1});
                                    faithful(c, m);
                                }});
    auto any = [all = all_entries()](pbt::Case & c, Model & m) {
        mixed_model(c, m, all, all, 2, 3, c.chance(1, 4) ? 600 : 100);
        if (m.doms.empty()) {
            Gen g{c, m, Style{}};
            g.new_var({0, 1});
        }
    };
    s.properties.push_back({"conjunctions", 8000, 12, [any](pbt::Case & c) {
                                Model m;
                                any(c, m);
                                faithful(c, m);
                            }});
    s.properties.push_back({"pairs", 6000, 12, [all = all_entries()](pbt::Case & c) {
                                Model m;
                                vector<Entry> one{c.pick(all)};
                                mixed_model(c, m, one, one, 2, 2, 60);
                                if (m.doms.empty()) {
                                    Gen g{c, m, Style{}};
                                    g.new_var({0, 1});
                                }
                                faithful(c, m);
                            }});
    s.properties.push_back({"objectives", 6000, 12, [any](pbt::Case & c) {
                                Model m;
                                any(c, m);
                                m.objective = Op{static_cast<int>(c.draw(m.doms.size() - 1)), c.chance(1, 3), c.chance(1, 3) ? c.around_zero(-5, 5) : 0};
                                m.maximise = c.chance(1, 2);
                                faithful(c, m);
                            }});
    return pbt::main(argc, argv, s);
}

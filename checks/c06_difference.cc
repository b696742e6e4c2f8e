// C06: the difference-logic graph algorithms agree with brute-force shortest paths.
#include <engine/pbt.hh>

#include <gcs/constraints/difference/difference_incremental.hh>
#include <gcs/constraints/difference/difference_simplify.hh>
#include <gcs/exception.hh>

#include <algorithm>
#include <map>
#include <optional>
#include <set>

using namespace gcs;
using namespace gcs::innards;
using pbt::Case;
using std::nullopt;
using std::optional;
using std::size_t;
using std::string;
using std::vector;

namespace
{
    struct Arc
    {
        size_t from, to;
        long long d;
    };

    using Distances = vector<vector<optional<long long>>>;

    // All pairs shortest paths over the chosen arcs, or nothing if there is a negative cycle
    auto all_pairs(size_t n, const vector<Arc> & arcs, const vector<bool> & use) -> optional<Distances>
    {
        Distances r(n, vector<optional<long long>>(n));
        for (size_t i = 0; i < n; ++i)
            r[i][i] = 0;
        for (size_t e = 0; e < arcs.size(); ++e)
            if (use[e]) {
                auto & x = r[arcs[e].from][arcs[e].to];
                if (! x || arcs[e].d < *x)
                    x = arcs[e].d;
            }
        for (size_t k = 0; k < n; ++k)
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (r[i][k] && r[k][j] && (! r[i][j] || *r[i][k] + *r[k][j] < *r[i][j]))
                        r[i][j] = *r[i][k] + *r[k][j];
        for (size_t i = 0; i < n; ++i)
            if (*r[i][i] < 0)
                return nullopt;
        return r;
    }

    struct Shape
    {
        size_t n;
        vector<Arc> arcs;
    };

    auto gen_graph(Case & c, size_t max_nodes, size_t max_arcs) -> Shape
    {
        Shape s;
        s.n = 1 + c.draw(max_nodes - 1);
        auto scale = c.weighted({6, 2, 1}) == 2 ? 1'000'000'000'000LL : 1;
        // weights from potentials plus slack give systems with few negative cycles; plain ones give many
        vector<long long> hidden(s.n, 0);
        bool from_hidden = c.chance(4, 5);
        if (from_hidden)
            for (auto & h : hidden)
                h = c.around_zero(-8, 8);
        auto slack_max = c.pick(vector<long long>{0, 1, 3, 10});
        auto arcs = c.draw(max_arcs);
        auto style = c.weighted({5, 2, 2});
        for (size_t e = 0; e < arcs; ++e) {
            Arc a{c.draw(s.n - 1), c.draw(s.n - 1), 0};
            if (style == 1 && e + 1 < s.n) // a chain, in reverse index order, which is what plain relaxation finds slow
                a.from = s.n - 1 - e, a.to = s.n - 2 - e;
            if (! s.arcs.empty() && c.chance(1, 6)) // parallel or opposite to an earlier one
            {
                auto b = s.arcs[c.draw(s.arcs.size() - 1)];
                a = c.chance(1, 2) ? Arc{b.from, b.to, 0} : Arc{b.to, b.from, 0};
            }
            if (from_hidden)
                a.d = hidden[a.to] - hidden[a.from] + static_cast<long long>(c.draw(slack_max));
            else
                a.d = c.around_zero(-3, 9);
            if (from_hidden && c.chance(1, 40))
                a.d -= c.draw(3);
            a.d *= scale;
            s.arcs.push_back(a);
        }
        return s;
    }

    auto note(Case & c, const Shape & s) -> void
    {
        c.note() << s.n << " nodes";
        for (auto & a : s.arcs)
            c.note() << " " << a.from << "->" << a.to << ":" << a.d;
    }

    auto simplify(Case & c) -> void
    {
        auto s = gen_graph(c, 8, 18);
        note(c, s);
        vector<DifferenceSimplifyEdge> edges;
        vector<DifferenceSimplifyRole> roles;
        vector<bool> base;
        using enum DifferenceSimplifyRole;
        auto base_weight = c.pick(vector<unsigned>{2, 6});
        c.note() << " roles ";
        for (auto & a : s.arcs) {
            edges.push_back({a.from, a.to, Integer{a.d}});
            switch (c.weighted({base_weight, 3, 1})) {
            case 0: roles.push_back(Base); break;
            case 1: roles.push_back(Candidate); break;
            default: roles.push_back(Ignored); break;
            }
            // conditional edges that contradict the base graph
            if (roles.back() == Candidate && c.chance(1, 3)) {
                s.arcs[roles.size() - 1].d -= c.draw(6);
                edges.back().d = Integer{s.arcs[roles.size() - 1].d};
            }
            base.push_back(roles.back() == Base);
            c.note() << (roles.back() == Base ? "b" : roles.back() == Candidate ? "c" : "i");
        }
        note(c, s);

        auto out = simplify_difference_graph(s.n, edges, roles);
        auto dist = all_pairs(s.n, s.arcs, base);
        if (out.base_negative_cycle != ! dist.has_value())
            c.fail(dist ? "a negative cycle was reported where there is none" : "a negative cycle was missed");
        c.expect(out.remove.size() == s.arcs.size(), "remove has the wrong length");
        if (! dist) {
            c.label("base negative cycle");
            c.expect(out.fix.empty(), "conditions fixed in an infeasible base graph");
            return;
        }

        // what is kept must imply what was there
        vector<bool> kept(s.arcs.size());
        for (size_t e = 0; e < s.arcs.size(); ++e)
            kept[e] = base[e] && ! out.remove[e];
        auto kept_dist = all_pairs(s.n, s.arcs, kept);
        c.expect(kept_dist == dist, "dropping edges changed a distance");

        std::map<std::pair<size_t, size_t>, int> tight, tight_kept;
        int removed = 0;
        for (size_t e = 0; e < s.arcs.size(); ++e) {
            auto & a = s.arcs[e];
            auto & d = (*dist)[a.from][a.to];
            bool implied = d && a.d >= *d, strictly = d && a.d > *d;
            string name = "edge " + std::to_string(e);
            removed += out.remove[e];
            switch (roles[e]) {
            case Base:
                if (strictly != out.remove[e] && (strictly || ! implied))
                    c.fail(name + (strictly ? " is implied by a shorter path but was kept" : " was dropped"));
                if (! strictly && a.from != a.to) {
                    ++tight[{a.from, a.to}];
                    tight_kept[{a.from, a.to}] += ! out.remove[e];
                }
                break;
            case Candidate:
                if (implied != out.remove[e])
                    c.fail("conditional " + name + (implied ? " adds nothing but was kept" : " was dropped"));
                break;
            case Ignored:
                if (out.remove[e])
                    c.fail("dead " + name + " was reported as redundant");
                break;
            }
        }
        for (auto & [k, t] : tight)
            c.expect(tight_kept[k] == 1, "of the edges attaining a distance, " + std::to_string(tight_kept[k]) + " were kept");

        std::set<size_t> fixed;
        for (auto & [e, path] : out.fix) {
            c.expect(e < s.arcs.size() && roles[e] == Candidate, "something that is not an undecided condition was fixed");
            c.expect(fixed.insert(e).second, "a condition was fixed twice");
            c.expect(! out.remove[e], "an edge is both redundant and fixed");
            auto at = s.arcs[e].to;
            auto weight = s.arcs[e].d;
            for (auto p : path) {
                c.expect(p < s.arcs.size() && base[p], "a witness path uses an edge outside the base graph");
                c.expect(s.arcs[p].from == at, "a witness path is broken");
                at = s.arcs[p].to;
                weight += s.arcs[p].d;
            }
            c.expect(at == s.arcs[e].from, "a witness path does not come back");
            c.expect(weight < 0, "a witness cycle is not negative");
        }
        for (size_t e = 0; e < s.arcs.size(); ++e)
            if (roles[e] == Candidate && ! out.remove[e]) {
                auto & back = (*dist)[s.arcs[e].to][s.arcs[e].from];
                bool must = back && s.arcs[e].d + *back < 0;
                c.expect(must == fixed.contains(e), "edge " + std::to_string(e) + (must ? "'s condition must be false but was not fixed" : " was fixed"));
            }

        // zero-weight cycles through more than one node
        size_t on = 0, groups = 0;
        for (size_t v = 0; v < s.n; ++v) {
            bool any = false, first = true;
            for (size_t w = 0; w < s.n; ++w)
                if (w != v && (*dist)[v][w] && (*dist)[w][v] && *(*dist)[v][w] + *(*dist)[w][v] == 0) {
                    any = true;
                    first = first && w > v;
                }
            on += any;
            groups += any && first;
        }
        c.expect(out.nodes_on_zero_weight_cycles == on, "nodes on zero-weight cycles: " + std::to_string(out.nodes_on_zero_weight_cycles) + " rather than " + std::to_string(on));
        c.expect(out.zero_weight_cycles == groups, "zero-weight cycles: " + std::to_string(out.zero_weight_cycles) + " rather than " + std::to_string(groups));

        if (removed)
            c.label("something redundant");
        if (! out.fix.empty())
            c.label("a condition fixed");
        for (auto & [_, p] : out.fix)
            if (p.size() > 2)
                c.label("a witness of over two edges");
        if (on)
            c.label("zero-weight cycle");
        if (removed || ! out.fix.empty())
            c.nontrivial();
    }

    struct Propagator
    {
        // what the search restores when it backtracks
        struct Saved
        {
            vector<char> active;
            vector<Integer> bound, gate;
        };
    };

    auto integers(const vector<long long> & v) -> vector<Integer>
    {
        vector<Integer> r;
        for (auto & x : v)
            r.emplace_back(x);
        return r;
    }

    // A search's worth of activations, bound changes and backtracks.
    auto incremental(Case & c) -> void
    {
        auto s = gen_graph(c, 9, 20);
        if (s.arcs.empty())
            c.discard();
        note(c, s);
        auto n = s.n;
        vector<DifferenceArc> arcs;
        for (size_t e = 0; e < s.arcs.size(); ++e)
            arcs.push_back({s.arcs[e].from, s.arcs[e].to, Integer{s.arcs[e].d}, e});
        long long span = 12;
        for (auto & a : s.arcs)
            span = std::max(span, std::abs(a.d) * 2);

        auto tails = build_difference_adjacency(n, arcs, true), heads = build_difference_adjacency(n, arcs, false);
        for (bool by_tail : {true, false}) {
            auto & adj = by_tail ? tails : heads;
            c.expect(adj.start.size() == n + 1 && adj.start[0] == 0 && adj.start[n] == arcs.size() && adj.arcs.size() == arcs.size(), "adjacency shape");
            vector<int> seen(arcs.size(), 0);
            for (size_t v = 0; v < n; ++v)
                for (auto i = adj.start[v]; i < adj.start[v + 1]; ++i) {
                    auto e = adj.arcs.at(i);
                    c.expect(e < arcs.size() && (by_tail ? arcs[e].from : arcs[e].to) == v, "adjacency lists an arc at the wrong node");
                    ++seen[e];
                }
            c.expect(std::all_of(seen.begin(), seen.end(), [](int x) { return x == 1; }), "adjacency does not list each arc once");
        }

        vector<char> active(arcs.size(), 1);
        bool unconditional = c.chance(1, 8);
        if (! unconditional)
            for (auto & a : active)
                a = c.chance(2, 3) ? 1 : 0;
        auto flags = [&](const vector<char> & a) {
            // an empty list means that everything is active
            return unconditional && c.chance(1, 2) ? vector<char>{} : a;
        };
        auto used = [&](const vector<char> & a) {
            vector<bool> r(arcs.size());
            for (size_t e = 0; e < arcs.size(); ++e)
                r[e] = a[e];
            return r;
        };
        for (size_t e = 0; e < arcs.size(); ++e) {
            c.expect(difference_arc_is_active({}, e), "an empty list of flags");
            c.expect(difference_arc_is_active(active, e) == (active[e] != 0), "a flag");
        }

        auto potential = difference_initial_potential(n, arcs, flags(active));
        auto feasible = all_pairs(n, s.arcs, used(active)).has_value();
        if (potential.has_value() != feasible)
            c.fail(feasible ? "no potential was found for a feasible system" : "a potential was given for a system with a negative cycle");
        if (! potential) {
            c.label("infeasible from the start");
            return;
        }
        auto check_potential = [&](const string & when) {
            c.expect(potential->size() == n, when + ": potential size");
            optional<size_t> bad;
            for (size_t e = 0; e < arcs.size(); ++e)
                if (active[e] && (*potential)[arcs[e].from].raw_value + s.arcs[e].d - (*potential)[arcs[e].to].raw_value < 0)
                    bad = e;
            if (bad)
                c.fail(when + ": the potential is not valid at arc " + std::to_string(*bad));
            c.expect(! difference_invalid_potential_arc(arcs, active, *potential), when + ": a valid potential was called invalid");
        };
        check_potential("initially");
        {
            // and the checker notices one that is not
            auto wrong = *potential;
            auto v = c.draw(n - 1);
            wrong[v] += Integer{c.around_zero(-4, 4)};
            bool is_wrong = false;
            for (size_t e = 0; e < arcs.size(); ++e)
                is_wrong = is_wrong || (active[e] && wrong[arcs[e].from].raw_value + s.arcs[e].d < wrong[arcs[e].to].raw_value);
            auto got = difference_invalid_potential_arc(arcs, active, wrong);
            c.expect(got.has_value() == is_wrong, "checking a potential that may be wrong");
            if (got)
                c.expect(active[*got] && wrong[arcs[*got].from].raw_value + s.arcs[*got].d < wrong[arcs[*got].to].raw_value, "the arc reported is not the one that is wrong");
        }

        DifferencePotentialWorkspace repair_work;
        DifferenceBoundsWorkspace bounds_work; // shared between both directions, as the propagator does
        vector<Integer> lower(n, 0_i), upper_neg(n, 0_i), gate_lower, gate_upper;
        for (size_t v = 0; v < n; ++v) {
            lower[v] = Integer{c.around_zero(-10, 10)};
            upper_neg[v] = Integer{c.around_zero(-10, 10)};
        }
        gate_lower = lower;
        gate_upper = upper_neg;
        vector<char> forced_lower(n, 1), forced_upper(n, 1); // the first time, everything is new

        struct Saved
        {
            vector<char> active;
            vector<Integer> lower, upper_neg, gate_lower, gate_upper;
        };
        vector<Saved> trail;
        int pushes = 0, repairs = 0, backtracks = 0, conflicts = 0;

        auto propagate_one = [&](bool is_lower) {
            auto & bound = is_lower ? lower : upper_neg;
            auto & gate = is_lower ? gate_lower : gate_upper;
            auto pot = *potential;
            if (! is_lower)
                for (auto & p : pot)
                    p = -p;
            difference_incremental_bounds(n, arcs, is_lower ? tails : heads, is_lower, flags(active), pot, bound, gate, is_lower ? forced_lower : forced_upper, bounds_work);

            // the fixpoint, by relaxing until nothing moves
            auto expected = bound;
            for (bool changed = true; changed;) {
                changed = false;
                for (size_t e = 0; e < arcs.size(); ++e)
                    if (active[e]) {
                        auto src = is_lower ? arcs[e].from : arcs[e].to, dst = is_lower ? arcs[e].to : arcs[e].from;
                        auto x = expected[src] - arcs[e].d;
                        if (x > expected[dst]) {
                            expected[dst] = x;
                            changed = true;
                        }
                    }
            }
            vector<int> position(n, -1);
            auto claim = bound;
            for (size_t i = 0; i < bounds_work.settle_order.size(); ++i) {
                auto v = bounds_work.settle_order[i];
                c.expect(v < n && position[v] == -1, "a node was settled twice");
                position[v] = static_cast<int>(i);
                auto b = bounds_work.settled_bound[v];
                claim[v] = std::max(claim[v], b);
                if (b > bound[v]) {
                    ++pushes;
                    c.expect(bounds_work.has_predecessor[v], "a pushed bound has no arc to explain it");
                }
                if (bounds_work.has_predecessor[v]) {
                    auto e = bounds_work.predecessor[v];
                    auto src = is_lower ? arcs[e].from : arcs[e].to, dst = is_lower ? arcs[e].to : arcs[e].from;
                    c.expect(e < arcs.size() && active[e], "a bound is explained by an arc that is not active");
                    c.expect(dst == v, "a bound is explained by an arc that does not lead there");
                    c.expect(position[src] != -1 && src != v, "a bound is explained by one that comes after it");
                    c.expect(bounds_work.settled_bound[src] - arcs[e].d == b, "a bound does not follow from the arc and bound that explain it");
                }
            }
            for (size_t v = 0; v < n; ++v)
                if (claim[v] != expected[v])
                    c.fail(string{is_lower ? "lower" : "upper"} + " bound of node " + std::to_string(v) + " came to " + claim[v].to_string() + " rather than " +
                        expected[v].to_string());
            for (auto v : bounds_work.settle_order)
                gate[v] = std::max(gate[v], bounds_work.settled_bound[v]);
            bound = claim;
        };

        auto propagate = [&] {
            propagate_one(true);
            propagate_one(false);
            forced_lower.assign(n, 0);
            forced_upper.assign(n, 0);
        };
        propagate();

        auto steps = 1 + c.draw(14);
        for (size_t step = 0; step < steps; ++step) {
            auto kind = c.weighted({4, 4, 3});
            if (kind == 2 && ! trail.empty()) {
                auto to = c.draw(trail.size() - 1);
                auto & t = trail[to];
                active = t.active;
                lower = t.lower;
                upper_neg = t.upper_neg;
                gate_lower = t.gate_lower;
                gate_upper = t.gate_upper;
                trail.resize(to);
                ++backtracks;
                c.note() << "; backtrack to level " << to;
                forced_lower.assign(n, 0);
                forced_upper.assign(n, 0);
                check_potential("after backtracking");
                continue;
            }
            trail.push_back({active, lower, upper_neg, gate_lower, gate_upper});
            bool dead = false;
            vector<size_t> inactive;
            for (size_t e = 0; e < arcs.size(); ++e)
                if (! active[e])
                    inactive.push_back(e);
            auto activations = kind == 1 || inactive.empty() ? 0 : 1 + c.draw(std::min<size_t>(2, inactive.size() - 1));
            for (size_t k = 0; k < activations && ! dead && ! inactive.empty(); ++k) {
                auto i = c.draw(inactive.size() - 1);
                auto e = inactive[i];
                inactive.erase(inactive.begin() + i);
                active[e] = 1;
                c.note() << "; activate " << e;
                auto before = *potential;
                bool needs_repair = before[arcs[e].from].raw_value + s.arcs[e].d < before[arcs[e].to].raw_value;
                bool ok = difference_repair_potential(n, arcs, tails, active, *potential, e, repair_work);
                bool should = all_pairs(n, s.arcs, used(active)).has_value();
                if (ok != should)
                    c.fail(should ? "a feasible addition was refused" : "an addition that closes a negative cycle was accepted");
                repairs += needs_repair;
                if (! ok) {
                    c.expect(*potential == before, "the potential was changed by an addition that was refused");
                    dead = true;
                    ++conflicts;
                }
                else {
                    if (! needs_repair)
                        c.expect(*potential == before, "the potential was changed without need");
                    check_potential("after adding an arc");
                    forced_lower[arcs[e].from] = 1;
                    forced_upper[arcs[e].to] = 1;
                }
            }
            if (dead) {
                auto & t = trail.back();
                active = t.active;
                lower = t.lower;
                upper_neg = t.upper_neg;
                gate_lower = t.gate_lower;
                gate_upper = t.gate_upper;
                trail.pop_back();
                forced_lower.assign(n, 0);
                forced_upper.assign(n, 0);
                check_potential("after refusing an arc");
                continue;
            }
            for (auto k = c.draw(activations ? 1 : 3); k; --k) {
                auto v = c.draw(n - 1);
                auto by = Integer{static_cast<long long>(1 + c.draw(span))};
                c.note() << "; raise " << v << " by " << by.raw_value;
                (c.chance(1, 2) ? lower : upper_neg)[v] += by;
            }
            propagate();
        }
        if (pushes > 1)
            c.nontrivial();
        if (repairs)
            c.label("a potential repaired");
        if (conflicts)
            c.label("an addition refused");
        if (backtracks)
            c.label("backtracking");
    }
}

auto main(int argc, char ** argv) -> int
{
    return pbt::main(argc, argv,
        pbt::Suite{
            .id = "C06",
            .rule = "Graphs of up to nine nodes and twenty edges, with parallel edges, self loops, zero-weight and negative cycles and huge weights; "
                    "and histories of activations, bound changes and backtracks over them. Compared with Floyd-Warshall and with relaxing until "
                    "nothing moves. Non-trivial: an edge was dropped or a condition fixed; or a bound was pushed more than once.",
            .properties = {{"simplify", 700000, 12, [](Case & c) { simplify(c); }}, {"incremental", 500000, 12, [](Case & c) { incremental(c); }}},
            .assumptions = {"callers maintain the potential and the gate as the headers describe, which is how the propagator uses them"},
        });
}

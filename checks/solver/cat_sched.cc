// Scheduling and packing constraints.
#include <checks/solver/model.hh>

#include <algorithm>

using namespace gcs;
using std::make_unique;
using std::optional;
using std::string;
using std::vector;

namespace mdl
{
    namespace
    {
        auto constants(const vector<LL> & v) -> Ops
        {
            Ops r;
            for (auto x : v)
                r.push_back(Op{-1, false, x});
            return r;
        }

        auto mostly_constants(Gen & g, std::size_t n, LL lo, LL hi, bool all) -> Ops
        {
            Ops r;
            for (std::size_t i = 0; i < n; ++i)
                r.push_back(all || g.c.chance(2, 3) ? Op{-1, false, g.rnd(lo, hi)} : g.op(lo, hi, true, 3));
            return r;
        }

        auto add(Ops & a, const Ops & b) -> void
        {
            a.insert(a.end(), b.begin(), b.end());
        }

        auto raw(const Ops & os) -> vector<LL>
        {
            vector<LL> r;
            for (auto & o : os)
                r.push_back(o.off);
            return r;
        }

        auto gen_cumulative(Gen & g) -> Cons
        {
            auto n = g.count(1, 5);
            auto starts = g.ops(n, g.c.chance(1, 4) ? -2 : 0, g.c.chance(1, 3) ? 3 : 6, false, 5);
            bool integer_form = g.c.chance(1, 3);
            auto lengths = mostly_constants(g, n, g.c.chance(1, 4) ? 0 : 1, 4, integer_form || g.c.chance(1, 2));
            auto heights = mostly_constants(g, n, g.c.chance(1, 4) ? 0 : 1, 3, integer_form || g.c.chance(1, 2));
            Op cap = integer_form || g.c.chance(1, 2) ? Op{-1, false, g.rnd(g.c.chance(1, 8) ? 0 : 1, 5)} : g.op(0, 5, true, 3);
            optional<Ops> pres;
            if (! integer_form && g.c.chance(1, 3)) {
                pres.emplace();
                for (std::size_t i = 0; i < n; ++i)
                    pres->push_back(g.c.chance(1, 2) ? Op{-1, false, static_cast<LL>(g.c.draw(1))} : g.op(0, 1, true, 2));
            }
            CumulativeRules rules;
            auto bits = g.c.draw(1023);
            bool with_rules = g.c.chance(2, 3);
            rules.time_table = bits & 1;
            rules.overload = bits & 2;
            rules.profile_overload = bits & 4;
            rules.elastic_overload = bits & 8;
            rules.knapsack_overload = bits & 16;
            rules.edge_finding = bits & 32;
            rules.time_table_edge_finding = bits & 64;
            rules.energetic_edge_finding = bits & 128;
            rules.not_first_not_last = bits & 256;
            rules.not_first_not_last_published = bits & 512;
            Cons k;
            k.text = "s=" + text(starts) + " l=" + text(lengths) + " h=" + text(heights) + (pres ? " p=" + text(*pres) : "") + " c=" + cap.text();
            k.scope = starts;
            add(k.scope, lengths);
            add(k.scope, heights);
            if (pres)
                add(k.scope, *pres);
            k.scope.push_back(cap);
            k.holds = [=](const Asg & a) {
                auto s = eval(starts, a), l = eval(lengths, a), h = eval(heights, a);
                vector<LL> p(n, 1);
                if (pres)
                    p = eval(*pres, a);
                auto c = cap.eval(a);
                if (n == 0)
                    return true;
                LL from = *std::min_element(s.begin(), s.end()), to = from;
                for (std::size_t i = 0; i < n; ++i)
                    to = std::max(to, s[i] + l[i]);
                for (LL t = from; t < to; ++t) {
                    LL u = 0;
                    for (std::size_t i = 0; i < n; ++i)
                        if (p[i] == 1 && s[i] <= t && t < s[i] + l[i])
                            u += h[i];
                    if (u > c)
                        return false;
                }
                return true;
            };
            k.variants = {{with_rules ? "rules " + std::to_string(bits) : "default rules", [=](const Env & e) {
                               std::unique_ptr<Cumulative> c;
                               if (integer_form)
                                   c = make_unique<Cumulative>(ids(starts, e), integers(raw(lengths)), integers(raw(heights)), I(cap.off));
                               else if (pres)
                                   c = make_unique<Cumulative>(ids(starts, e), ids(lengths, e), ids(heights, e), ids(*pres, e), cap.id(e));
                               else
                                   c = make_unique<Cumulative>(ids(starts, e), ids(lengths, e), ids(heights, e), cap.id(e));
                               if (with_rules)
                                   c->with_rules(rules);
                               return c;
                           }}};
            return k;
        }

        auto gen_disjunctive(Gen & g) -> Cons
        {
            auto n = g.count(1, 5);
            auto starts = g.ops(n, g.c.chance(1, 4) ? -2 : 0, g.c.chance(1, 3) ? 4 : 8, false, 6);
            bool integer_form = g.c.chance(1, 3);
            auto lengths = mostly_constants(g, n, g.c.chance(1, 3) ? 0 : 1, 3, integer_form || g.c.chance(1, 2));
            optional<Ops> pres;
            if (! integer_form && g.c.chance(1, 3)) {
                pres.emplace();
                for (std::size_t i = 0; i < n; ++i)
                    pres->push_back(g.c.chance(1, 2) ? Op{-1, false, static_cast<LL>(g.c.draw(1))} : g.op(0, 1, true, 2));
            }
            int strict = static_cast<int>(g.c.draw(2)); // default, strict, non-strict
            DisjunctiveRules rules;
            auto bits = g.c.draw(4095);
            bool with_rules = g.c.chance(2, 3);
            rules.time_table = bits & 1;
            rules.detectable_precedences = bits & 2;
            rules.detectable_precedences_set = bits & 4;
            rules.overload = bits & 8;
            rules.edge_finding = bits & 16;
            rules.edge_finding_lb = bits & 32;
            rules.edge_finding_ub = bits & 64;
            rules.not_first_not_last = bits & 128;
            rules.not_first = bits & 256;
            rules.not_last = bits & 512;
            rules.not_first_not_last_published = bits & 1024;
            rules.overload_cache_bridge = bits & 2048;
            auto cert = with_rules ? g.c.draw(2) : 0;
            rules.overload_certificate = cert == 0 ? DisjunctiveOverloadCertificate::Cheaper
                : cert == 1                        ? DisjunctiveOverloadCertificate::TimeIndexed
                                                   : DisjunctiveOverloadCertificate::SortingNetwork;
            if (with_rules)
                rules.overload_max_window = g.c.chance(1, 4) ? g.c.draw(6) : 0;
            Cons k;
            k.text = "s=" + text(starts) + " l=" + text(lengths) + (pres ? " p=" + text(*pres) : "") +
                (strict == 2 ? " non-strict" : strict == 1 ? " strict" : "");
            k.scope = starts;
            add(k.scope, lengths);
            if (pres)
                add(k.scope, *pres);
            k.holds = [=](const Asg & a) {
                auto s = eval(starts, a), l = eval(lengths, a);
                vector<LL> p(n, 1);
                if (pres)
                    p = eval(*pres, a);
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = i + 1; j < n; ++j) {
                        if (p[i] != 1 || p[j] != 1)
                            continue;
                        if (strict == 2 && (l[i] == 0 || l[j] == 0))
                            continue;
                        if (s[i] + l[i] > s[j] && s[j] + l[j] > s[i])
                            return false;
                    }
                return true;
            };
            k.variants = {{with_rules ? "rules " + std::to_string(bits) + "/" + std::to_string(cert) : "default rules", [=](const Env & e) {
                               std::unique_ptr<Disjunctive> c;
                               if (integer_form)
                                   c = make_unique<Disjunctive>(ids(starts, e), integers(raw(lengths)));
                               else if (pres)
                                   c = make_unique<Disjunctive>(ids(starts, e), ids(lengths, e), ids(*pres, e));
                               else
                                   c = make_unique<Disjunctive>(ids(starts, e), ids(lengths, e));
                               if (strict)
                                   c->with_strict(strict == 1);
                               if (with_rules)
                                   c->with_rules(rules);
                               return c;
                           }}};
            return k;
        }

        auto gen_disjunctive_2d(Gen & g) -> Cons
        {
            auto n = g.count(1, 3);
            auto xs = g.ops(n, -1, 4, false, 4), ys = g.ops(n, 0, 4, false, 4);
            bool integer_form = g.c.chance(1, 2);
            auto ws = mostly_constants(g, n, g.c.chance(1, 3) ? 0 : 1, 3, integer_form), hs = mostly_constants(g, n, g.c.chance(1, 3) ? 0 : 1, 3, integer_form);
            int strict = static_cast<int>(g.c.draw(2));
            Cons k;
            k.text = "x=" + text(xs) + " y=" + text(ys) + " w=" + text(ws) + " h=" + text(hs) + (strict == 2 ? " non-strict" : "");
            k.scope = xs;
            add(k.scope, ys);
            add(k.scope, ws);
            add(k.scope, hs);
            k.holds = [=](const Asg & a) {
                auto x = eval(xs, a), y = eval(ys, a), w = eval(ws, a), h = eval(hs, a);
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = i + 1; j < n; ++j) {
                        if (strict == 2 && (w[i] == 0 || w[j] == 0 || h[i] == 0 || h[j] == 0))
                            continue;
                        if (x[i] + w[i] <= x[j] || x[j] + w[j] <= x[i] || y[i] + h[i] <= y[j] || y[j] + h[j] <= y[i])
                            continue;
                        return false;
                    }
                return true;
            };
            k.variants = {{integer_form ? "integers" : "variables", [=](const Env & e) {
                               auto c = integer_form
                                   ? make_unique<Disjunctive2D>(ids(xs, e), ids(ys, e), integers(raw(ws)), integers(raw(hs)))
                                   : make_unique<Disjunctive2D>(ids(xs, e), ids(ys, e), ids(ws, e), ids(hs, e));
                               if (strict)
                                   c->with_strict(strict == 1);
                               return c;
                           }}};
            return k;
        }

        auto gen_bin_packing(Gen & g) -> Cons
        {
            auto n = g.count(0, 4);
            auto bins = static_cast<LL>(g.count(1, 3));
            auto items = g.ops(n, 0, bins - 1, true, 3);
            vector<LL> sizes;
            LL total = 0;
            for (std::size_t i = 0; i < n; ++i) {
                sizes.push_back(g.rnd(0, 4));
                total += sizes.back();
            }
            bool load_form = g.c.chance(1, 2);
            Ops loads;
            vector<LL> caps;
            for (LL b = 0; b < bins; ++b) {
                if (load_form)
                    loads.push_back(g.op(0, std::max<LL>(1, total), true, 5));
                else
                    caps.push_back(g.rnd(0, std::max<LL>(1, total)));
            }
            Cons k;
            k.text = text(items) + " sizes " + text(sizes) + (load_form ? " loads " + text(loads) : " capacities " + text(caps));
            k.scope = items;
            add(k.scope, loads);
            k.holds = [=](const Asg & a) {
                auto v = eval(items, a);
                vector<LL> l(static_cast<std::size_t>(bins), 0);
                for (std::size_t i = 0; i < n; ++i)
                    l[v[i]] += sizes[i];
                for (LL b = 0; b < bins; ++b)
                    if (load_form ? l[b] != loads[b].eval(a) : l[b] > caps[b])
                        return false;
                return true;
            };
            auto build = [=](int how) {
                return [=](const Env & e) {
                    auto c = load_form ? make_unique<BinPacking>(ids(items, e), integers(sizes), ids(loads, e))
                                       : make_unique<BinPacking>(ids(items, e), integers(sizes), integers(caps));
                    if (how == 1)
                        c->with_consistency(consistency::BC{});
                    if (how == 2)
                        c->with_proof_strategy(proof_strategy::Upfront{});
                    if (how == 3)
                        c->with_proof_strategy(proof_strategy::PerCall{});
                    return c;
                };
            };
            k.variants = {{"default", build(0)}, {"bc", build(1)}, {"upfront", build(2)}, {"per call", build(3)}};
            return k;
        }

        auto gen_min_distance(Gen & g) -> Cons
        {
            auto p = g.count(2, 4);
            auto n = static_cast<LL>(g.count(1, 4));
            auto xs = g.ops(p, 0, n - 1, true, 4);
            vector<vector<LL>> d(n, vector<LL>(n, 0)), r(p, vector<LL>(p, 0));
            LL most = 0;
            for (LL i = 0; i < n; ++i)
                for (LL j = i + 1; j < n; ++j) {
                    d[i][j] = d[j][i] = g.rnd(0, 5);
                    most = std::max(most, d[i][j]);
                }
            bool req = g.c.chance(1, 3);
            if (req)
                for (std::size_t i = 0; i < p; ++i)
                    for (std::size_t j = i + 1; j < p; ++j)
                        r[i][j] = g.rnd(0, 2);
            auto z = g.op(-1, most + 1, false, 6);
            Cons k;
            k.text = z.text() + " = mindist " + text(xs);
            for (auto & row : d)
                k.text += text(row);
            if (req) {
                k.text += " requirements ";
                for (auto & row : r)
                    k.text += text(row);
            }
            k.scope = xs;
            k.scope.push_back(z);
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                LL best = 1000;
                for (std::size_t i = 0; i < p; ++i)
                    for (std::size_t j = i + 1; j < p; ++j) {
                        best = std::min(best, d[v[i]][v[j]]);
                        if (req && d[v[i]][v[j]] < r[i][j])
                            return false;
                    }
                return best == z.eval(a);
            };
            auto build = [=](MinDistancePropagation how) {
                return [=](const Env & e) {
                    MinDistance::Matrix dm, rm;
                    for (auto & row : d)
                        dm.push_back(integers(row));
                    for (auto & row : r)
                        rm.push_back(integers(row));
                    optional<ArrayParam<MinDistance::Matrix>> ro;
                    if (req)
                        ro.emplace(rm);
                    return mk<MinDistance>(ids(xs, e), z.id(e), ArrayParam<MinDistance::Matrix>{dm}, ro, how);
                };
            };
            using enum MinDistancePropagation;
            k.variants = {{"forward bound", build(ForwardBound)}, {"check only", build(CheckOnly)}, {"pair support", build(PairSupport)},
                {"forward bound, matching", build(ForwardBoundMatch)}, {"pair support, matching", build(PairSupportMatch)}};
            return k;
        }
    }

    auto scheduling_entries() -> vector<Entry>
    {
        return {{"cumulative", gen_cumulative}, {"disjunctive", gen_disjunctive}, {"disjunctive_2d", gen_disjunctive_2d},
            {"bin_packing", gen_bin_packing}, {"min_distance", gen_min_distance}};
    }
}

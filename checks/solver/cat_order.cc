// Orderings, permutations, circuits and symmetry-breaking constraints.
#include <checks/solver/model.hh>

#include <gcs/constraints/lex_smart_table.hh>

#include <algorithm>
#include <set>

using namespace gcs;
using std::make_unique;
using std::optional;
using std::string;
using std::vector;

namespace mdl
{
    namespace
    {
        auto gen_circuit(Gen & g) -> Cons
        {
            auto n = static_cast<LL>(g.count(1, 6));
            auto xs = g.handles(static_cast<std::size_t>(n), 0, n - 1, true, 5);
            Cons k;
            k.text = text(xs);
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                std::set<LL> seen;
                LL at = 0;
                for (LL i = 0; i < n; ++i) {
                    if (! seen.insert(at).second)
                        return false;
                    at = v[at];
                }
                return at == 0;
            };
            auto bits = g.c.draw(255);
            auto build = [=](int how) {
                return [=](const Env & e) {
                    auto c = make_unique<Circuit>(ids(xs, e));
                    if (how == 1 || how == 3)
                        c->with_algorithm(circuit::Prevent{});
                    if (how == 2)
                        c->with_algorithm(circuit::SCC{});
                    if (how == 3 || how == 4)
                        c->with_gac_all_different();
                    if (how >= 4) {
                        c->with_prune_root(bits & 1).with_prune_skip(bits & 2).with_fix_req(bits & 4).with_prune_within(bits & 8);
                        c->with_prove_using_dominance(bits & 16).with_enable_comments(bits & 32).with_prove_am1_by_contradiction(bits & 64);
                        c->with_short_reasons(bits & 128);
                    }
                    return c;
                };
            };
            k.variants = {{"default", build(0)}, {"prevent", build(1)}, {"scc", build(2)}, {"prevent, gac", build(3)},
                {"scc, gac, knobs " + std::to_string(bits), build(4)}, {"scc, knobs " + std::to_string(bits), build(5)}};
            return k;
        }

        auto gen_increasing(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(0, 5), -2, 5, false, 5);
            bool strict = g.c.chance(1, 2), desc = g.c.chance(1, 2);
            Cons k;
            k.text = text(xs) + (strict ? " strictly" : "") + (desc ? " decreasing" : " increasing");
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                for (std::size_t i = 0; i + 1 < v.size(); ++i) {
                    auto d = desc ? v[i] - v[i + 1] : v[i + 1] - v[i];
                    if (d < 0 || (strict && d == 0))
                        return false;
                }
                return true;
            };
            k.variants = {{"", [=](const Env & e) -> std::unique_ptr<Constraint> {
                                if (strict)
                                    return desc ? mk<StrictlyDecreasing>(ids(xs, e)) : mk<StrictlyIncreasing>(ids(xs, e));
                                return desc ? mk<Decreasing>(ids(xs, e)) : mk<Increasing>(ids(xs, e));
                            },
                Level::Full}};
            return k;
        }

        auto gen_inverse(Gen & g) -> Cons
        {
            auto n = static_cast<LL>(g.count(1, 4));
            LL s1 = g.c.chance(1, 2) ? 0 : g.small(-1, 2), s2 = g.c.chance(1, 2) ? 0 : g.small(-1, 2);
            auto xs = g.handles(static_cast<std::size_t>(n), s2 - (g.c.chance(1, 6) ? 1 : 0), s2 + n - 1 + (g.c.chance(1, 6) ? 1 : 0), false, 4);
            auto ys = g.handles(static_cast<std::size_t>(n), s1, s1 + n - 1, false, 4);
            Cons k;
            k.text = text(xs) + " from " + std::to_string(s1) + " inverse of " + text(ys) + " from " + std::to_string(s2);
            k.scope = xs;
            k.scope.insert(k.scope.end(), ys.begin(), ys.end());
            k.holds = [=](const Asg & a) {
                auto x = eval(xs, a), y = eval(ys, a);
                for (LL i = 0; i < n; ++i) {
                    auto j = x[i] - s2;
                    if (j < 0 || j >= n || y[j] - s1 != i)
                        return false;
                    j = y[i] - s1;
                    if (j < 0 || j >= n || x[j] - s2 != i)
                        return false;
                }
                return true;
            };
            k.variants = {{"", [=](const Env & e) { return mk<Inverse>(ids(xs, e), ids(ys, e), I(s1), I(s2)); }}};
            return k;
        }

        auto lex_compare(const vector<LL> & x, const vector<LL> & y) -> int
        {
            for (std::size_t i = 0; i < x.size() && i < y.size(); ++i)
                if (x[i] != y[i])
                    return x[i] < y[i] ? -1 : 1;
            return x.size() == y.size() ? 0 : (x.size() < y.size() ? -1 : 1);
        }

        auto gen_lex(Gen & g) -> Cons
        {
            auto n = g.count(0, 3);
            auto m = g.c.chance(1, 3) ? g.count(0, 3) : n;
            auto xs = g.ops(n, -1, 3, false, 4), ys = g.ops(m, -1, 3, false, 4);
            bool or_equal = g.c.chance(1, 2);
            auto r = g.reif();
            bool named = r.kind != 1 && r.kind != 3 && g.c.chance(2, 3);
            bool less = named && g.c.chance(1, 2);
            Cons k;
            k.text = text(xs) + (less ? " <" : " >") + (or_equal ? "= " : " ") + text(ys) + r.text();
            k.scope = xs;
            k.scope.insert(k.scope.end(), ys.begin(), ys.end());
            if (r.kind >= 2)
                k.scope.push_back(r.c.op);
            k.holds = [=](const Asg & a) {
                auto c = lex_compare(eval(xs, a), eval(ys, a));
                if (less)
                    c = -c;
                return r.eval(or_equal ? c >= 0 : c > 0, a);
            };
            k.variants = {{named ? "named" : "general", [=](const Env & e) -> std::unique_ptr<Constraint> {
                               auto x = ids(xs, e), y = ids(ys, e);
                               if (! named)
                                   return mk<LexCompareGreaterThanOrMaybeEqual>(x, y, r.get(e), or_equal);
                               if (r.kind == 0) {
                                   if (less)
                                       return or_equal ? mk<LexLessThanEqual>(x, y) : mk<LexLessThan>(x, y);
                                   return or_equal ? mk<LexGreaterEqual>(x, y) : mk<LexGreaterThan>(x, y);
                               }
                               auto c = r.c.get(e);
                               if (r.kind == 2) {
                                   if (less)
                                       return or_equal ? mk<LexLessThanEqualIf>(x, y, c) : mk<LexLessThanIf>(x, y, c);
                                   return or_equal ? mk<LexGreaterEqualIf>(x, y, c) : mk<LexGreaterThanIf>(x, y, c);
                               }
                               if (less)
                                   return or_equal ? mk<LexLessThanEqualIff>(x, y, c) : mk<LexLessThanIff>(x, y, c);
                               return or_equal ? mk<LexGreaterEqualIff>(x, y, c) : mk<LexGreaterThanIff>(x, y, c);
                           },
                r.kind == 0 ? Level::Full : Level::None}};
            return k;
        }

        auto gen_lex_smart_table(Gen & g) -> Cons
        {
            auto n = g.count(1, 3);
            auto old = g.style;
            g.style.constants = 0;
            auto all = g.handles(2 * n, -1, 3, false, 4);
            g.style = old;
            Ops xs(all.begin(), all.begin() + static_cast<long>(n)), ys(all.begin() + static_cast<long>(n), all.end());
            Cons k;
            k.text = text(xs) + " > " + text(ys);
            k.scope = all;
            k.holds = [=](const Asg & a) { return lex_compare(eval(xs, a), eval(ys, a)) > 0; };
            k.variants = {{"smart table", [=](const Env & e) { return mk<LexSmartTable>(ids(xs, e), ids(ys, e)); }, Level::Full}};
            return k;
        }

        auto gen_seq_precede_chain(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(0, 5), -1, 4, false, 5);
            Cons k;
            k.text = text(xs);
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                LL most = 0;
                for (auto v : eval(xs, a)) {
                    if (v > most + 1)
                        return false;
                    most = std::max(most, v);
                }
                return true;
            };
            k.variants = {{"", [=](const Env & e) { return mk<SeqPrecedeChain>(ids(xs, e)); }}};
            return k;
        }

        auto gen_value_precede(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(0, 5), -1, 3, false, 5);
            std::set<LL> pool;
            for (std::size_t i = 0, n = g.count(0, 4); i < n; ++i)
                pool.insert(g.small(-2, 4));
            vector<LL> chain(pool.begin(), pool.end());
            g.c.shuffle(chain);
            bool pair = chain.size() == 2 && g.c.chance(1, 2);
            Cons k;
            k.text = text(chain) + " in " + text(xs);
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                for (std::size_t q = 0; q + 1 < chain.size(); ++q) {
                    bool seen = false;
                    for (auto w : v) {
                        if (w == chain[q])
                            seen = true;
                        if (w == chain[q + 1] && ! seen)
                            return false;
                    }
                }
                return true;
            };
            k.variants = {{pair ? "pair" : "chain", [=](const Env & e) -> std::unique_ptr<Constraint> {
                               if (pair)
                                   return mk<ValuePrecede>(I(chain[0]), I(chain[1]), ids(xs, e));
                               return mk<ValuePrecede>(integers(chain), ids(xs, e));
                           }}};
            return k;
        }

        auto gen_sort(Gen & g) -> Cons
        {
            auto n = g.count(0, 3);
            auto xs = g.ops(n, -2, 4, false, 4), ys = g.ops(n, -2, 4, false, 4);
            Cons k;
            k.text = text(ys) + " = sorted " + text(xs);
            k.scope = xs;
            k.scope.insert(k.scope.end(), ys.begin(), ys.end());
            k.holds = [=](const Asg & a) {
                auto x = eval(xs, a);
                std::sort(x.begin(), x.end());
                return x == eval(ys, a);
            };
            k.variants = {{"", [=](const Env & e) { return mk<Sort>(ids(xs, e), ids(ys, e)); }, Level::Bounds}};
            return k;
        }

        auto gen_arg_sort(Gen & g) -> Cons
        {
            auto n = g.count(0, 4);
            LL off = g.c.chance(1, 2) ? 0 : g.small(-2, 2);
            auto xs = g.ops(n, -2, 4, false, 4), ps = g.ops(n, off, off + static_cast<LL>(n) - (n ? 1 : 0), false, 4);
            Cons k;
            k.text = text(ps) + " = argsort " + text(xs) + " from " + std::to_string(off);
            k.scope = xs;
            k.scope.insert(k.scope.end(), ps.begin(), ps.end());
            k.holds = [=](const Asg & a) {
                auto x = eval(xs, a);
                vector<LL> p;
                for (std::size_t i = 0; i < n; ++i)
                    p.push_back(static_cast<LL>(i));
                std::stable_sort(p.begin(), p.end(), [&](LL i, LL j) { return x[i] < x[j]; });
                for (auto & v : p)
                    v += off;
                return p == eval(ps, a);
            };
            k.variants = {{"", [=](const Env & e) { return mk<ArgSort>(ids(xs, e), ids(ps, e), I(off)); }}};
            return k;
        }
    }

    auto ordering_entries() -> vector<Entry>
    {
        return {{"circuit", gen_circuit}, {"increasing", gen_increasing}, {"inverse", gen_inverse}, {"lex", gen_lex},
            {"lex_smart_table", gen_lex_smart_table}, {"seq_precede_chain", gen_seq_precede_chain}, {"value_precede", gen_value_precede},
            {"sort", gen_sort}, {"arg_sort", gen_arg_sort}};
    }
}

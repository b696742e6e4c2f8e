// C22: a definition with no meaning is refused, and a meaningful neighbour of it is not.
//
// For each rule the library's documentation or exceptions state, valid data are
// generated, and one rule is broken at a random position. Posting and solving
// must throw InvalidProblemDefinitionException before any solution is
// delivered. The unbroken data go through the same code, and must not throw.
#include <engine/pbt.hh>

#include <gcs/constraints/regular/regular_legacy.hh>
#include <gcs/gcs.hh>

#include <algorithm>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using namespace gcs;
using std::make_unique;
using std::size_t;
using std::string;
using std::unordered_map;
using std::vector;

namespace
{
    using LL = long long;
    using Vars = vector<IntegerVariableID>;

    auto I(LL v) -> Integer
    {
        return Integer{v};
    }

    // What a rule's generator works with. `broken` says whether to break the rule.
    struct Gen
    {
        pbt::Case & c;
        Problem & p;
        bool broken;

        auto size(LL lo, LL hi) -> size_t
        {
            return static_cast<size_t>(c.range(lo, hi));
        }
        auto var(LL lo, LL hi) -> IntegerVariableID
        {
            auto a = c.range(lo, hi), b = c.range(lo, hi);
            if (a > b)
                std::swap(a, b);
            if (c.chance(1, 4)) {
                vector<Integer> d{I(a), I(b)};
                for (auto v = a + 1; v < b; ++v)
                    if (c.chance(1, 2))
                        d.push_back(I(v));
                std::sort(d.begin(), d.end());
                d.erase(std::unique(d.begin(), d.end()), d.end());
                return p.create_integer_variable(d);
            }
            return p.create_integer_variable(I(a), I(b));
        }
        // A plain variable, a view, or a constant, within lo..hi.
        auto op(LL lo, LL hi) -> IntegerVariableID
        {
            switch (c.weighted({6, 1, 1, 1})) {
            case 1: {
                auto k = c.range(-3, 3);
                return var(lo - k, hi - k) + I(k);
            }
            case 2: {
                auto k = c.range(-3, 3);
                return -var(-hi + k, -lo + k) + I(k);
            }
            case 3: return constant_variable(I(c.range(lo, hi)));
            default: return var(lo, hi);
            }
        }
        // An operand some of whose values are below zero, and others perhaps not.
        auto negative_op() -> IntegerVariableID
        {
            auto lo = c.range(-4, -1), hi = c.range(lo, 4);
            switch (c.weighted({4, 1, 1, 2})) {
            case 1: return p.create_integer_variable(I(lo - 2), I(hi - 2)) + 2_i;
            case 2: return -p.create_integer_variable(I(-hi), I(-lo));
            case 3: return constant_variable(I(lo));
            default: return p.create_integer_variable(I(lo), I(hi));
            }
        }
        // An operand that can take a value outside 0..1.
        auto not_boolean_op() -> IntegerVariableID
        {
            switch (c.weighted({3, 3, 1, 2})) {
            case 1: return p.create_integer_variable(I(c.range(-3, -1)), I(c.range(0, 1)));
            case 2: return constant_variable(I(c.chance(1, 2) ? c.range(2, 4) : c.range(-3, -1)));
            case 3: return p.create_integer_variable({0_i, 1_i, I(c.range(2, 5))});
            default: return p.create_integer_variable(I(c.range(0, 1)), I(c.range(2, 5)));
            }
        }
        auto ops(size_t n, LL lo, LL hi) -> Vars
        {
            Vars r;
            for (size_t i = 0; i < n; ++i)
                r.push_back(op(lo, hi));
            return r;
        }
        auto vars(size_t n, LL lo, LL hi) -> Vars
        {
            Vars r;
            for (size_t i = 0; i < n; ++i)
                r.push_back(var(lo, hi));
            return r;
        }
        auto integers(size_t n, LL lo, LL hi) -> vector<Integer>
        {
            vector<Integer> r;
            for (size_t i = 0; i < n; ++i)
                r.push_back(I(c.range(lo, hi)));
            return r;
        }
        template <typename T_>
        auto position(const vector<T_> & v) -> T_ &
        {
            throw_if_empty(v.size());
            return const_cast<T_ &>(v[c.draw(v.size() - 1)]);
        }
        auto throw_if_empty(size_t n) -> void
        {
            if (0 == n)
                c.discard();
        }
        // A different number of entries: one lost or gained, anywhere.
        template <typename T_>
        auto resize(vector<T_> & v, const T_ & extra) -> void
        {
            if (! v.empty() && c.chance(1, 2))
                v.erase(v.begin() + static_cast<long>(c.draw(v.size() - 1)));
            else
                v.insert(v.begin() + static_cast<long>(c.draw(v.size())), extra);
        }
        auto flip() -> bool
        {
            return c.chance(1, 2);
        }
        template <typename C_, typename... A_>
        auto post(A_ &&... a) -> void
        {
            p.post(C_{std::forward<A_>(a)...});
        }
    };

    struct Rule
    {
        string name;
        std::function<auto(Gen &)->void> run;
    };

    auto scheduling_rules(vector<Rule> & rules) -> void
    {
        auto disjunctive = [](Gen & g, int rule) {
            auto n = g.size(1, 4);
            auto starts = g.ops(n, 0, 6);
            auto constant = rule == 1 && g.flip();
            auto lengths = g.ops(n, 0, 3);
            auto fixed = g.integers(n, 0, 3);
            auto presences = g.ops(n, 0, 1);
            if (g.broken) {
                if (rule == 1) {
                    g.position(lengths) = g.negative_op();
                    g.position(fixed) = I(g.c.range(-4, -1));
                }
                else if (rule == 2)
                    g.resize(presences, g.op(0, 1));
                else
                    g.position(presences) = g.not_boolean_op();
            }
            auto strict = g.flip();
            if (rule >= 2 || (! constant && g.flip()))
                g.p.post(Disjunctive{starts, lengths, presences}.with_strict(strict));
            else if (constant)
                g.p.post(Disjunctive{starts, fixed}.with_strict(strict));
            else
                g.p.post(Disjunctive{starts, lengths}.with_strict(strict));
        };
        rules.push_back({"disjunctive:sizes", [=](Gen & g) {
                             auto n = g.size(1, 4);
                             auto starts = g.ops(n, 0, 6), lengths = g.ops(n, 0, 3);
                             auto fixed = g.integers(n, 0, 3);
                             if (g.broken) {
                                 g.resize(starts, g.op(0, 6));
                             }
                             if (g.flip())
                                 g.p.post(Disjunctive{starts, fixed});
                             else
                                 g.p.post(Disjunctive{starts, lengths});
                         }});
        rules.push_back({"disjunctive:lengths", [=](Gen & g) { disjunctive(g, 1); }});
        rules.push_back({"disjunctive:presence-count", [=](Gen & g) { disjunctive(g, 2); }});
        rules.push_back({"disjunctive:presences", [=](Gen & g) { disjunctive(g, 3); }});

        auto rectangles = [](Gen & g, int rule) {
            auto n = g.size(1, 4);
            vector<Vars> v{g.ops(n, 0, 5), g.ops(n, 0, 5), g.ops(n, 0, 3), g.ops(n, 0, 3)};
            vector<vector<Integer>> f{g.integers(n, 0, 3), g.integers(n, 0, 3)};
            auto constant = g.flip();
            if (g.broken) {
                if (rule == 0) {
                    if (constant) {
                        auto which = g.size(0, 3);
                        if (which < 2)
                            g.resize(v[which], g.op(0, 5));
                        else
                            g.resize(f[which - 2], 1_i);
                    }
                    else
                        g.resize(v[g.size(0, 3)], g.op(0, 3));
                }
                else if (constant)
                    g.position(f[rule - 1]) = I(g.c.range(-4, -1));
                else
                    g.position(v[rule + 1]) = g.negative_op();
            }
            if (constant)
                g.p.post(Disjunctive2D{v[0], v[1], f[0], f[1]}.with_strict(g.flip()));
            else
                g.p.post(Disjunctive2D{v[0], v[1], v[2], v[3]}.with_strict(g.flip()));
        };
        rules.push_back({"disjunctive-2d:sizes", [=](Gen & g) { rectangles(g, 0); }});
        rules.push_back({"disjunctive-2d:widths", [=](Gen & g) { rectangles(g, 1); }});
        rules.push_back({"disjunctive-2d:heights", [=](Gen & g) { rectangles(g, 2); }});

        auto cumulative = [](Gen & g, int rule) {
            auto n = g.size(1, 4);
            auto starts = g.ops(n, 0, 6), lengths = g.ops(n, 0, 3), heights = g.ops(n, 0, 3), presences = g.ops(n, 0, 1);
            auto capacity = g.op(1, 4);
            auto fl = g.integers(n, 0, 3), fh = g.integers(n, 0, 3);
            auto fc = I(g.c.range(1, 4));
            auto form = rule >= 4 ? 2 : g.size(0, 2);
            if (g.broken)
                switch (rule) {
                case 0:
                    if (form == 0)
                        g.flip() ? g.resize(fl, 1_i) : g.resize(fh, 1_i);
                    else
                        g.flip() ? g.resize(lengths, g.op(0, 3)) : g.resize(heights, g.op(0, 3));
                    break;
                case 1:
                    g.position(lengths) = g.negative_op();
                    g.position(fl) = I(g.c.range(-3, -1));
                    break;
                case 2:
                    g.position(heights) = g.negative_op();
                    g.position(fh) = I(g.c.range(-3, -1));
                    break;
                case 3:
                    capacity = g.negative_op();
                    fc = I(g.c.range(-3, -1));
                    break;
                case 4: g.resize(presences, g.op(0, 1)); break;
                default: g.position(presences) = g.not_boolean_op();
                }
            if (form == 0)
                g.p.post(Cumulative{starts, fl, fh, fc});
            else if (form == 1)
                g.p.post(Cumulative{starts, lengths, heights, capacity});
            else
                g.p.post(Cumulative{starts, lengths, heights, presences, capacity});
        };
        rules.push_back({"cumulative:sizes", [=](Gen & g) { cumulative(g, 0); }});
        rules.push_back({"cumulative:lengths", [=](Gen & g) { cumulative(g, 1); }});
        rules.push_back({"cumulative:heights", [=](Gen & g) { cumulative(g, 2); }});
        rules.push_back({"cumulative:capacity", [=](Gen & g) { cumulative(g, 3); }});
        rules.push_back({"cumulative:presence-count", [=](Gen & g) { cumulative(g, 4); }});
        rules.push_back({"cumulative:presences", [=](Gen & g) { cumulative(g, 5); }});

        auto packing = [](Gen & g, int rule) {
            auto n = g.size(1, 4);
            auto bins = static_cast<LL>(g.size(1, 3));
            auto items = g.ops(n, 0, bins - 1);
            auto sizes = g.integers(n, 0, 3);
            auto loads = g.ops(static_cast<size_t>(bins), 0, 9);
            auto caps = g.integers(static_cast<size_t>(bins), 0, 9);
            auto use_loads = g.flip();
            if (g.broken)
                switch (rule) {
                case 0: g.resize(sizes, 1_i); break;
                case 1: g.position(sizes) = I(g.c.range(-3, -1)); break;
                case 2:
                    loads.clear();
                    caps.clear();
                    break;
                case 3:
                    g.position(items) = g.flip() ? g.p.create_integer_variable(0_i, I(bins + g.c.range(0, 2))) + 0_i : g.negative_op();
                    break;
                default:
                    g.position(loads) = g.negative_op();
                    g.position(caps) = I(g.c.range(-3, -1));
                }
            auto gac = g.flip();
            auto send = [&](BinPacking b) {
                if (gac)
                    b.with_consistency(consistency::GAC{});
                else
                    b.with_consistency(consistency::BC{});
                g.p.post(b);
            };
            if (use_loads)
                send(BinPacking{items, sizes, loads});
            else
                send(BinPacking{items, sizes, caps});
        };
        rules.push_back({"bin-packing:sizes", [=](Gen & g) { packing(g, 0); }});
        rules.push_back({"bin-packing:negative-size", [=](Gen & g) { packing(g, 1); }});
        rules.push_back({"bin-packing:no-bins", [=](Gen & g) { packing(g, 2); }});
        rules.push_back({"bin-packing:item-domain", [=](Gen & g) { packing(g, 3); }});
        rules.push_back({"bin-packing:loads", [=](Gen & g) { packing(g, 4); }});
    }

    auto knapsack(Gen & g, int rule) -> void
    {
        auto n = g.size(1, 4), eqns = g.size(1, 3);
        auto items = g.ops(n, 0, 3), totals = g.ops(eqns, 0, 12);
        vector<vector<Integer>> coeffs;
        for (size_t i = 0; i < eqns; ++i)
            coeffs.push_back(g.integers(n, 0, 4));
        if (g.broken)
            switch (rule) {
            case 0: g.resize(totals, g.op(0, 12)); break;
            case 1:
                coeffs.clear();
                totals.clear();
                break;
            case 2:
                if (eqns < 2)
                    g.c.discard();
                g.resize(g.position(coeffs), 1_i);
                break;
            case 3: {
                auto shorter = g.flip();
                for (auto & r : coeffs)
                    if (shorter)
                        r.pop_back();
                    else
                        r.push_back(I(g.c.range(0, 4)));
                break;
            }
            case 4: g.position(g.position(coeffs)) = I(g.c.range(-3, -1)); break;
            case 5: g.position(items) = g.negative_op(); break;
            default: g.position(totals) = g.negative_op();
            }
        auto k = Knapsack{coeffs, items, totals};
        if (g.flip())
            k.with_proof_strategy(proof_strategy::Upfront{});
        g.p.post(k);
    }

    auto min_distance(Gen & g, int rule) -> void
    {
        using Matrix = MinDistance::Matrix;
        auto n = g.size(1, 4), p = g.size(2, 4);
        auto square = [&](size_t k, LL hi) {
            Matrix m(k, vector<Integer>(k, 0_i));
            for (size_t i = 0; i < k; ++i)
                for (size_t j = i + 1; j < k; ++j)
                    m[i][j] = m[j][i] = I(g.c.range(0, hi));
            return m;
        };
        auto d = square(n, 6);
        auto r = square(p, 1);
        auto x = g.ops(p, 0, static_cast<LL>(n) - 1);
        auto z = g.op(0, 6);
        auto with_r = rule >= 6 || g.flip();
        auto pair = [&](size_t k) {
            if (k < 2)
                g.c.discard();
            auto i = g.size(0, static_cast<LL>(k) - 2);
            return std::pair{i, g.size(static_cast<LL>(i) + 1, static_cast<LL>(k) - 1)};
        };
        if (g.broken)
            switch (rule) {
            case 0:
                x.resize(g.size(0, 1), z);
                with_r = false;
                break;
            case 1: d.clear(); break;
            case 2:
                if (g.flip())
                    g.resize(d, vector<Integer>(n, 0_i));
                else
                    g.resize(g.position(d), 0_i);
                if (d.empty())
                    g.c.discard();
                break;
            case 3: {
                auto i = g.size(0, static_cast<LL>(n) - 1);
                d[i][i] = I(g.flip() ? g.c.range(1, 4) : g.c.range(-4, -1));
                break;
            }
            case 4: {
                auto [i, j] = pair(n);
                d[i][j] = d[j][i] = I(g.c.range(-4, -1));
                break;
            }
            case 5: {
                auto [i, j] = pair(n);
                (g.flip() ? d[i][j] : d[j][i]) += I(g.c.range(1, 3));
                break;
            }
            case 6:
                if (g.flip())
                    g.resize(r, vector<Integer>(p, 0_i));
                else
                    g.resize(g.position(r), 0_i);
                break;
            default: {
                auto [i, j] = pair(p);
                r[i][j] = I(g.c.range(-4, -1));
            }
            }
        auto how = vector{MinDistancePropagation::CheckOnly, MinDistancePropagation::ForwardBound, MinDistancePropagation::PairSupport,
            MinDistancePropagation::ForwardBoundMatch, MinDistancePropagation::PairSupportMatch}[g.size(0, 4)];
        g.p.post(MinDistance{x, z, d, with_r ? std::make_optional<ArrayParam<Matrix>>(r) : std::nullopt, how});
    }

    auto mdd(Gen & g, int rule) -> void
    {
        auto n = g.size(1, 4);
        vector<long> npl{1};
        for (size_t i = 0; i < n; ++i)
            npl.push_back(static_cast<long>(g.size(1, 3)));
        vector<vector<unordered_map<Integer, long>>> t(n);
        for (size_t i = 0; i < n; ++i) {
            t[i].resize(static_cast<size_t>(npl[i]));
            for (auto & node : t[i])
                for (LL v = 0; v < 3; ++v)
                    if (g.c.chance(2, 3))
                        node.emplace(I(v), static_cast<long>(g.size(0, npl[i + 1] - 1)));
        }
        vector<long> accept;
        for (long i = 0; i < npl.back(); ++i)
            if (g.c.chance(2, 3))
                accept.push_back(i);
        auto x = g.ops(n, 0, 2);
        if (g.broken)
            switch (rule) {
            case 0:
                g.resize(npl, 1L);
                if (npl.empty() || npl[0] != 1)
                    g.c.discard();
                break;
            case 1: g.resize(t, {}); break;
            case 2: npl[0] = static_cast<long>(g.flip() ? g.c.range(2, 3) : g.c.range(-1, 0)); break;
            case 3: {
                auto & layer = g.position(t);
                layer.pop_back();
                break;
            }
            case 4: {
                auto i = g.size(0, static_cast<LL>(n) - 1);
                g.position(t[i])[I(g.c.range(0, 2))] = static_cast<long>(g.flip() ? npl[i + 1] + g.c.range(0, 3) : g.c.range(-4, -2)); // -1 is taken to be no transition
                break;
            }
            default:
                accept.insert(accept.begin() + static_cast<long>(g.c.draw(accept.size())),
                    static_cast<long>(g.flip() ? npl.back() + g.c.range(0, 3) : g.c.range(-3, -1)));
            }
        g.p.post(MDD{x, t, npl, accept});
    }

    auto regular(Gen & g, int rule) -> void
    {
        auto n = g.size(0, 4), q = g.size(1, 4), symbols = g.size(1, 3);
        auto x = g.ops(n, 0, static_cast<LL>(symbols) - 1);
        // The two ways to write it, a map per state and a dense table, and the older propagator.
        auto form = g.size(0, 3);
        vector<vector<long>> dense(q, vector<long>(symbols, -1));
        for (auto & row : dense)
            for (auto & e : row)
                if (g.c.chance(3, 4))
                    e = static_cast<long>(g.size(0, static_cast<LL>(q) - 1));
        vector<long> final_states;
        for (size_t i = 0; i < q; ++i)
            if (g.c.chance(1, 2))
                final_states.push_back(static_cast<long>(i));
        auto states = static_cast<long>(q);
        if (! g.broken && g.c.chance(1, 4))
            dense.resize(g.size(0, q));
        if (g.broken)
            switch (rule) {
            case 0:
                // More rows than states. Fewer are allowed: the rest have no transitions.
                dense.insert(dense.end(), g.size(1, 3), vector<long>(symbols, -1));
                break;
            case 1:
                g.position(g.position(dense)) = states + static_cast<long>(g.c.range(0, 3));
                break;
            case 2:
                final_states.insert(final_states.begin() + static_cast<long>(g.c.draw(final_states.size())),
                    static_cast<long>(g.flip() ? states + g.c.range(0, 3) : g.c.range(-3, -1)));
                break;
            default: states = static_cast<long>(g.c.range(-1, 0)); dense.clear(); final_states.clear();
            }
        vector<unordered_map<Integer, long>> map;
        for (auto & row : dense) {
            map.emplace_back();
            for (size_t v = 0; v < row.size(); ++v)
                if (row[v] != -1)
                    map.back().emplace(I(static_cast<LL>(v)), row[v]);
        }
        if (form == 0)
            g.p.post(Regular{x, states, dense, final_states});
        else if (form == 1)
            g.p.post(Regular{x, states, map, final_states});
        else if (form == 2)
            g.p.post(RegularLegacy{x, states, dense, final_states});
        else
            g.p.post(RegularLegacy{x, states, map, final_states});
    }

    auto all_rules() -> vector<Rule>
    {
        vector<Rule> rules;

        rules.push_back({"variable:bounds", [](Gen & g) {
                             auto lo = g.c.any_long(), hi = g.c.any_long();
                             if (lo > hi)
                                 std::swap(lo, hi);
                             if (g.broken && lo == hi)
                                 g.c.discard();
                             // Huge domains are not searched, only created.
                             (void)(g.broken ? g.p.create_integer_variable(I(hi), I(lo)) : g.p.create_integer_variable(I(lo % 50), I(lo % 50 + 3)));
                         }});
        rules.push_back({"variable:vector", [](Gen & g) {
                             auto n = g.size(1, 4), bad = g.size(0, static_cast<LL>(n) - 1);
                             if (! g.broken)
                                 (void)g.p.create_integer_variable_vector(n, I(-1), I(static_cast<LL>(bad)));
                             else
                                 (void)g.p.create_integer_variable_vector(n, I(static_cast<LL>(bad)), I(static_cast<LL>(bad) - g.c.range(1, 5)));
                         }});
        rules.push_back({"variable:empty-domain", [](Gen & g) {
                             vector<Integer> d;
                             if (! g.broken)
                                 d = g.integers(g.size(1, 4), -5, 5);
                             (void)g.p.create_integer_variable(d);
                         }});
        rules.push_back({"condition:range", [](Gen & g) {
                             auto x = g.op(0, 5);
                             auto lo = g.c.range(0, 5), hi = g.c.range(0, 5);
                             if (lo > hi)
                                 std::swap(lo, hi);
                             if (g.broken) {
                                 if (lo == hi)
                                     ++hi;
                                 std::swap(lo, hi);
                             }
                             if (g.flip())
                                 g.post<Or>(innards::Literals{innards::Literal{in_range(x, I(lo), I(hi))}, innards::Literal{x >= I(3)}}, innards::Literal{innards::TrueLiteral{}});
                             else
                                 g.post<Or>(innards::Literals{innards::Literal{not_in_range(x, I(lo), I(hi))}, innards::Literal{x >= I(3)}}, innards::Literal{innards::TrueLiteral{}});
                         }});

        rules.push_back({"global-cardinality:sizes", [](Gen & g) {
                             auto x = g.ops(g.size(1, 4), 0, 3);
                             auto k = g.size(1, 3);
                             vector<Integer> values;
                             for (size_t i = 0; i < k; ++i)
                                 values.push_back(I(static_cast<LL>(i)));
                             auto counts = g.ops(k, 0, 4);
                             if (g.broken)
                                 g.flip() ? g.resize(values, 9_i) : g.resize(counts, g.op(0, 4));
                             auto gcc = GlobalCardinality{x, values, counts};
                             if (g.flip())
                                 gcc.with_consistency(consistency::GAC{});
                             g.p.post(gcc);
                         }});
        rules.push_back({"inverse:sizes", [](Gen & g) {
                             auto n = g.size(1, 4);
                             auto x = g.vars(n, 0, 3), y = g.vars(n, 0, 3);
                             if (g.broken)
                                 g.flip() ? g.resize(x, g.var(0, 3)) : g.resize(y, g.var(0, 3));
                             g.post<Inverse>(x, y, I(g.c.range(-1, 1)), I(g.c.range(-1, 1)));
                         }});
        rules.push_back({"inverse:duplicate", [](Gen & g) {
                             auto n = g.size(2, 4);
                             auto x = g.ops(n, 0, 3), y = g.ops(n, 0, 3);
                             if (g.broken) {
                                 auto & a = g.flip() ? x : y;
                                 auto i = g.size(0, static_cast<LL>(n) - 2), j = g.size(static_cast<LL>(i) + 1, static_cast<LL>(n) - 1);
                                 a[i] = g.var(0, 3);
                                 if (g.flip())
                                     a[i] = a[i] + 1_i;
                                 a[j] = a[i];
                             }
                             g.post<Inverse>(x, y);
                         }});
        rules.push_back({"circuit:duplicate", [](Gen & g) {
                             auto n = g.size(2, 5);
                             auto x = g.ops(n, 0, static_cast<LL>(n) - 1);
                             if (g.broken) {
                                 auto i = g.size(0, static_cast<LL>(n) - 2), j = g.size(static_cast<LL>(i) + 1, static_cast<LL>(n) - 1);
                                 x[i] = g.var(0, static_cast<LL>(n) - 1);
                                 x[j] = x[i];
                             }
                             auto k = Circuit{x};
                             if (g.flip())
                                 k.with_algorithm(circuit::Prevent{});
                             g.p.post(k);
                         }});
        rules.push_back({"element:ragged", [](Gen & g) {
                             auto rows = g.size(2, 3), cols = g.size(1, 3);
                             auto constant = g.flip();
                             vector<vector<Integer>> c;
                             vector<Vars> v;
                             for (size_t i = 0; i < rows; ++i) {
                                 c.push_back(g.integers(cols, 0, 4));
                                 v.push_back(g.ops(cols, 0, 4));
                             }
                             if (g.broken) {
                                 g.resize(g.position(c), 2_i);
                                 g.resize(g.position(v), g.op(0, 4));
                             }
                             auto i1 = g.op(0, static_cast<LL>(rows) - 1), i2 = g.op(0, static_cast<LL>(cols) - 1), r = g.op(0, 4);
                             if (constant)
                                 g.post<Element2DConstantArray>(r, i1, i2, c);
                             else
                                 g.post<Element2D>(r, i1, i2, v);
                         }});
        rules.push_back({"difference:negated", [](Gen & g) {
                             vector<DifferenceEdge> edges;
                             auto n = g.size(1, 4);
                             auto operand = [&]() -> IntegerVariableID {
                                 return g.flip() ? g.var(0, 4) : g.c.chance(1, 3) ? constant_variable(I(g.c.range(0, 4))) : g.var(0, 4) + I(g.c.range(-3, 3));
                             };
                             for (size_t i = 0; i < n; ++i) {
                                 auto x = operand(), y = operand();
                                 edges.push_back({x, y, I(g.c.range(-3, 3))});
                             }
                             if (g.broken) {
                                 auto & e = g.position(edges);
                                 (g.flip() ? e.x : e.y) = -g.var(0, 4) + I(g.c.range(-2, 2));
                             }
                             g.post<DifferenceConstraints>(edges);
                         }});
        for (auto & [which, n] : vector<std::pair<string, int>>{{"points", 0}, {"empty", 1}, {"square", 2}, {"diagonal", 3}, {"negative", 4},
                 {"symmetric", 5}, {"requirements-shape", 6}, {"requirements-negative", 7}})
            rules.push_back({"min-distance:" + which, [n](Gen & g) { min_distance(g, n); }});
        rules.push_back({"sort:sizes", [](Gen & g) {
                             auto n = g.size(1, 4);
                             auto x = g.ops(n, 0, 3), y = g.ops(n, 0, 3);
                             if (g.broken)
                                 g.flip() ? g.resize(x, g.op(0, 3)) : g.resize(y, g.op(0, 3));
                             g.post<Sort>(x, y);
                         }});
        rules.push_back({"arg-sort:sizes", [](Gen & g) {
                             auto n = g.size(1, 4);
                             auto x = g.ops(n, 0, 3), y = g.ops(n, 0, 3);
                             if (g.broken)
                                 g.flip() ? g.resize(x, g.op(0, 3)) : g.resize(y, g.op(0, 3));
                             g.post<ArgSort>(x, y, I(g.c.range(0, 1)));
                         }});
        rules.push_back({"comparison:same-handle", [](Gen & g) {
                             auto x = g.var(0, 4), y = g.op(0, 4);
                             if (g.flip())
                                 x = x + I(g.c.range(1, 3));
                             else if (g.flip())
                                 x = -x + I(g.c.range(1, 3));
                             if (g.broken)
                                 y = x;
                             switch (g.size(0, 2)) {
                             case 0: g.post<NotEquals>(x, y); break;
                             case 1: g.post<LessThan>(x, y); break;
                             default: g.post<GreaterThan>(x, y);
                             }
                         }});
        for (auto & [which, n] : vector<std::pair<string, int>>{
                 {"layers", 0}, {"transitions", 1}, {"root", 2}, {"entries", 3}, {"target", 4}, {"accepting", 5}})
            rules.push_back({"mdd:" + which, [n](Gen & g) { mdd(g, n); }});
        for (auto & [which, n] : vector<std::pair<string, int>>{{"transitions", 0}, {"target", 1}, {"final", 2}, {"states", 3}})
            rules.push_back({"regular:" + which, [n](Gen & g) { regular(g, n); }});
        rules.push_back({"min-max:empty", [](Gen & g) {
                             auto x = g.ops(g.broken ? 0 : g.size(1, 3), 0, 4);
                             auto r = g.op(0, 4);
                             if (g.flip())
                                 g.post<ArrayMin>(x, r);
                             else
                                 g.post<ArrayMax>(x, r);
                         }});
        rules.push_back({"table:tuple-size", [](Gen & g) {
                             auto n = g.size(1, 3), k = g.size(1, 4);
                             auto x = g.ops(n, 0, 2);
                             SimpleTuples plain;
                             WildcardTuples wild;
                             for (size_t i = 0; i < k; ++i) {
                                 plain.push_back(g.integers(n, 0, 2));
                                 wild.emplace_back();
                                 for (auto & v : plain.back())
                                     if (g.c.chance(1, 4))
                                         wild.back().emplace_back(Wildcard{});
                                     else
                                         wild.back().emplace_back(v);
                             }
                             if (g.broken) {
                                 g.resize(g.position(plain), 1_i);
                                 g.resize(g.position(wild), IntegerOrWildcard{Wildcard{}});
                             }
                             auto negative = g.flip();
                             ExtensionalTuples t = g.flip() ? ExtensionalTuples{plain} : ExtensionalTuples{wild};
                             if (negative)
                                 g.post<NegativeTable>(x, std::move(t));
                             else
                                 g.post<Table>(x, std::move(t));
                         }});
        rules.push_back({"smart-table:aliased", [](Gen & g) {
                             auto n = g.size(2, 4);
                             auto x = g.vars(n, 0, 3);
                             SmartTuples t(g.size(1, 3));
                             for (auto & tuple : t) {
                                 // A path of entries, so that no two of them are between the same variables.
                                 for (size_t i = 0; i + 1 < n; ++i)
                                     if (g.flip())
                                         tuple.push_back(SmartTable::less_than(x[i], x[i + 1]));
                             }
                             if (g.broken) {
                                 auto i = g.size(0, static_cast<LL>(n) - 1);
                                 auto other = x[i];
                                 if (g.flip())
                                     other = x[i] + I(g.c.range(1, 3));
                                 auto & tuple = g.position(t);
                                 tuple.insert(tuple.begin() + static_cast<long>(g.c.draw(tuple.size())),
                                     g.flip() ? SmartTable::not_equals(x[i], other) : SmartTable::greater_than(other, x[i]));
                             }
                             g.post<SmartTable>(x, t);
                         }});
        for (auto & [which, n] : vector<std::pair<string, int>>{
                 {"totals", 0}, {"empty", 1}, {"ragged", 2}, {"row-length", 3}, {"negative-coefficient", 4}, {"negative-item", 5}, {"negative-total", 6}})
            rules.push_back({"knapsack:" + which, [n](Gen & g) { knapsack(g, n); }});
        scheduling_rules(rules);
        return rules;
    }
}

auto main(int argc, char ** argv) -> int
{
    pbt::Suite suite;
    suite.id = "C22";
    suite.rule = "the definition breaks exactly the one rule, at a position and in a way that were generated";
    for (auto & rule : all_rules())
        suite.properties.push_back({rule.name, 600, 20, [run = rule.run](pbt::Case & c) {
            Problem p;
            auto broken = c.chance(3, 4);
            Gen g{c, p, broken};
            // Something else to solve, before or after, that has solutions whatever happens.
            auto other = p.create_integer_variable(0_i, 1_i);
            auto solutions = 0;
            string refused;
            try {
                run(g);
                p.post(LessThan{other, p.create_integer_variable(0_i, 1_i)});
                solve_with(p,
                    SolveCallbacks{.solution = [&](const CurrentState &) -> bool {
                        ++solutions;
                        return solutions < 2;
                    }});
            }
            catch (const InvalidProblemDefinitionException & e) {
                refused = e.what();
            }
            c.label(broken ? "broken" : "meaningful");
            c.note() << (broken ? "broken" : "meaningful") << "; " << (refused.empty() ? "not refused" : refused) << "; " << solutions << " solutions\n";
            if (broken) {
                c.nontrivial();
                if (solutions > 0)
                    c.fail("the definition breaks the rule, but a solution was delivered");
                if (refused.empty())
                    c.fail("the definition breaks the rule, but it was not refused");
            }
            else if (! refused.empty())
                c.fail("a definition that keeps every rule was refused: " + refused);
        }});
    return pbt::main(argc, argv, suite);
}

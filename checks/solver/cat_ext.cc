// Extensional, automaton, element and knapsack constraints.
#include <checks/solver/model.hh>

#include <gcs/constraints/regular/regex.hh>
#include <gcs/constraints/regular/regular_bacchus.hh>
#include <gcs/constraints/regular/regular_legacy.hh>

#include <algorithm>
#include <set>
#include <unordered_map>

using namespace gcs;
using std::make_unique;
using std::optional;
using std::string;
using std::vector;

namespace mdl
{
    namespace
    {
        constexpr LL star = 1000000;

        auto gen_table(Gen & g) -> Cons
        {
            bool neg = g.c.chance(1, 3), lengthy = neg && g.c.chance(1, 2);
            auto xs = lengthy ? g.ops(g.count(3, 7), -1, 2, false, 2) : g.ops(g.count(1, 4), -2, 3, false, 5);
            bool wild = g.c.chance(1, 2), shared = g.c.chance(1, 3);
            vector<vector<LL>> ts;
            for (std::size_t i = 0, n = g.count(g.c.chance(1, 12) ? 0 : 1, neg ? 6 : 10); i < n; ++i) {
                vector<LL> t;
                for (auto & o : xs) {
                    if (wild && g.c.chance(1, 4))
                        t.push_back(star);
                    else {
                        auto [lo, hi] = g.range_of(o);
                        t.push_back(g.c.chance(1, 12) ? g.small(-4, 5) : g.rnd(lo, hi));
                    }
                }
                ts.push_back(t);
            }
            Cons k;
            k.text = text(xs) + (neg ? " none of" : " one of");
            for (auto & t : ts)
                k.text += " " + text(t);
            k.scope = xs;
            for (std::size_t i = 0; i < ts.size() && ! neg; ++i)
                for (std::size_t j = 0; j < i; ++j) {
                    bool both = ts[i] != ts[j];
                    for (std::size_t p = 0; p < xs.size(); ++p)
                        both = both && (ts[i][p] == star || ts[j][p] == star || ts[i][p] == ts[j][p]);
                    if (both)
                        k.undecided = "overlapping-wildcards";
                }
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                for (auto & t : ts) {
                    bool match = true;
                    for (std::size_t i = 0; i < t.size(); ++i)
                        match = match && (t[i] == star || t[i] == v[i]);
                    if (match)
                        return ! neg;
                }
                return neg;
            };
            if (neg)
                k.undone = [ts](const vector<Dom> & ds, const string &) -> optional<string> {
                    for (auto & t : ts) {
                        std::size_t open = 0;
                        bool possible = true;
                        for (std::size_t i = 0; i < t.size(); ++i)
                            if (t[i] != star) {
                                possible = possible && std::binary_search(ds[i].begin(), ds[i].end(), t[i]);
                                open += ds[i].size() > 1;
                            }
                        if (possible && open <= 1)
                            return "the last value that makes it " + text(t) + " was kept";
                    }
                    return std::nullopt;
                };
            k.variants = {{wild ? "wildcards" : "values", [=](const Env & e) -> std::unique_ptr<Constraint> {
                                auto make = [&](ExtensionalTuples x) -> std::unique_ptr<Constraint> {
                                    if (neg)
                                        return mk<NegativeTable>(ids(xs, e), std::move(x));
                                    return mk<Table>(ids(xs, e), std::move(x));
                                };
                                if (wild) {
                                    WildcardTuples w;
                                    for (auto & t : ts) {
                                        vector<IntegerOrWildcard> r;
                                        for (auto q : t)
                                            r.push_back(q == star ? IntegerOrWildcard{Wildcard{}} : IntegerOrWildcard{I(q)});
                                        w.push_back(r);
                                    }
                                    if (shared)
                                        return make(ArrayParam<WildcardTuples>{std::make_shared<const WildcardTuples>(w)});
                                    return make(ArrayParam<WildcardTuples>{w});
                                }
                                SimpleTuples s;
                                for (auto & t : ts)
                                    s.push_back(integers(t));
                                if (shared)
                                    return make(ArrayParam<SimpleTuples>{std::make_shared<const SimpleTuples>(s)});
                                return make(ArrayParam<SimpleTuples>{s});
                            },
                neg ? Level::None : Level::Full}};
            return k;
        }

        struct SEntry
        {
            bool binary;
            int a, b;
            LL v;
            vector<LL> set;
            int op; // < <= == != > >= in notin
        };

        auto gen_smart_table(Gen & g) -> Cons
        {
            auto old = g.style;
            g.style.constants = 0;
            auto xs = g.handles(g.count(2, 4), -2, 3, false, 5);
            g.style = old;
            vector<vector<SEntry>> ts;
            for (std::size_t i = 0, n = g.count(1, 4); i < n; ++i) {
                vector<SEntry> t;
                // each variable after the first is linked with at most one earlier one, a forest, and sometimes also
                // with others, or with the same one again
                auto cyclic = g.c.chance(1, 5);
                for (std::size_t j = 0; j < xs.size(); ++j) {
                    if (j > 0 && g.c.chance(1, 2)) {
                        SEntry s{true, static_cast<int>(g.c.draw(j - 1)), static_cast<int>(j), 0, {}, static_cast<int>(g.c.draw(5))};
                        if (g.c.chance(1, 2))
                            std::swap(s.a, s.b);
                        t.push_back(s);
                    }
                    if (g.c.chance(2, 5)) {
                        SEntry s{false, static_cast<int>(j), 0, g.small(-3, 4), {}, static_cast<int>(g.c.draw(7))};
                        if (s.op >= 6)
                            for (std::size_t q = 0, m = g.count(0, 3); q < m; ++q)
                                s.set.push_back(g.small(-3, 4));
                        t.push_back(s);
                    }
                }
                for (std::size_t q = 0, m = cyclic ? g.count(1, 3) : 0; q < m; ++q) {
                    auto a = g.c.draw(xs.size() - 1), b = g.c.draw(xs.size() - 2);
                    t.push_back(SEntry{true, static_cast<int>(a), static_cast<int>(b >= a ? b + 1 : b), 0, {}, static_cast<int>(g.c.draw(5))});
                }
                g.c.shuffle(t);
                ts.push_back(t);
            }
            Cons k;
            k.text = text(xs);
            static const char * names[] = {"<", "<=", "==", "!=", ">", ">=", "in", "notin"};
            for (auto & t : ts) {
                k.text += " {";
                for (auto & s : t)
                    k.text += " " + xs[s.a].text() + names[s.op] + (s.binary ? xs[s.b].text() : s.op >= 6 ? text(s.set) : std::to_string(s.v));
                k.text += " }";
            }
            k.scope = xs;
            auto rel = [](LL x, LL y, int op) {
                switch (op) {
                case 0: return x < y;
                case 1: return x <= y;
                case 2: return x == y;
                case 3: return x != y;
                case 4: return x > y;
                default: return x >= y;
                }
            };
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                for (auto & t : ts) {
                    bool ok = true;
                    for (auto & s : t) {
                        if (s.binary)
                            ok = ok && rel(v[s.a], v[s.b], s.op);
                        else if (s.op >= 6)
                            ok = ok && (std::find(s.set.begin(), s.set.end(), v[s.a]) != s.set.end()) == (s.op == 6);
                        else
                            ok = ok && rel(v[s.a], s.v, s.op);
                    }
                    if (ok)
                        return true;
                }
                return false;
            };
            auto build = [=](bool longer) {
                return [=](const Env & e) {
                    SmartTuples tuples;
                    for (auto & t : ts) {
                        vector<SmartEntry> r;
                        for (auto & s : t) {
                            auto x = xs[s.a].id(e);
                            if (s.binary) {
                                auto y = xs[s.b].id(e);
                                switch (s.op) {
                                case 0: r.push_back(SmartTable::less_than(x, y)); break;
                                case 1: r.push_back(SmartTable::less_than_equal(x, y)); break;
                                case 2: r.push_back(SmartTable::equals(x, y)); break;
                                case 3: r.push_back(SmartTable::not_equals(x, y)); break;
                                case 4: r.push_back(SmartTable::greater_than(x, y)); break;
                                default: r.push_back(SmartTable::greater_than_equal(x, y)); break;
                                }
                            }
                            else
                                switch (s.op) {
                                case 0: r.push_back(SmartTable::less_than(x, I(s.v))); break;
                                case 1: r.push_back(SmartTable::less_than_equal(x, I(s.v))); break;
                                case 2: r.push_back(SmartTable::equals(x, I(s.v))); break;
                                case 3: r.push_back(SmartTable::not_equals(x, I(s.v))); break;
                                case 4: r.push_back(SmartTable::greater_than(x, I(s.v))); break;
                                case 5: r.push_back(SmartTable::greater_than_equal(x, I(s.v))); break;
                                case 6: r.push_back(SmartTable::in_set(x, integers(s.set))); break;
                                default: r.push_back(SmartTable::not_in_set(x, integers(s.set))); break;
                                }
                        }
                        tuples.push_back(r);
                    }
                    auto c = make_unique<SmartTable>(ids(xs, e), tuples);
                    if (longer)
                        c->with_short_reasons(false);
                    return c;
                };
            };
            k.variants = {{"default", build(false)}, {"long reasons", build(true)}};
            return k;
        }

        struct Aut
        {
            long n;
            vector<std::map<LL, long>> next;
            std::set<long> finals;

            [[nodiscard]] auto accepts(const vector<LL> & w) const -> bool
            {
                long s = 0;
                for (auto v : w) {
                    auto f = next[s].find(v);
                    if (f == next[s].end())
                        return false;
                    s = f->second;
                }
                return finals.contains(s);
            }
        };

        auto gen_regular(Gen & g) -> Cons
        {
            bool dense = g.c.chance(1, 3);
            auto xs = g.ops(g.count(1, 5), dense ? 0 : -1, 3, dense, 4);
            Aut d;
            d.n = static_cast<long>(g.count(1, 4));
            for (long s = 0; s < d.n; ++s) {
                std::map<LL, long> m;
                for (LL v = dense ? 0 : -1; v <= 3; ++v)
                    if (g.c.chance(3, 5))
                        m[v] = static_cast<long>(g.c.draw(d.n - 1));
                d.next.push_back(m);
                if (g.c.chance(1, 2))
                    d.finals.insert(s);
            }
            if (d.finals.empty())
                d.finals.insert(static_cast<long>(g.c.draw(d.n - 1)));
            Cons k;
            k.text = text(xs) + " dfa";
            for (long s = 0; s < d.n; ++s) {
                k.text += " " + std::to_string(s) + (d.finals.contains(s) ? "!" : "") + "{";
                for (auto & [v, t] : d.next[s])
                    k.text += std::to_string(v) + "->" + std::to_string(t) + ",";
                k.text += "}";
            }
            k.scope = xs;
            k.holds = [=](const Asg & a) { return d.accepts(eval(xs, a)); };
            auto build = [=](int how) {
                return [=](const Env & e) -> std::unique_ptr<Constraint> {
                    vector<std::unordered_map<Integer, long>> sparse;
                    vector<vector<long>> den;
                    for (auto & m : d.next) {
                        std::unordered_map<Integer, long> u;
                        vector<long> r(4, -1);
                        for (auto & [v, t] : m) {
                            u.emplace(I(v), t);
                            if (v >= 0)
                                r[v] = t;
                        }
                        sparse.push_back(u);
                        den.push_back(r);
                    }
                    vector<long> fin(d.finals.begin(), d.finals.end());
                    auto regular = [&] { return dense ? make_unique<Regular>(ids(xs, e), d.n, den, fin) : make_unique<Regular>(ids(xs, e), d.n, sparse, fin); };
                    auto legacy = [&] {
                        return dense ? make_unique<RegularLegacy>(ids(xs, e), d.n, den, fin) : make_unique<RegularLegacy>(ids(xs, e), d.n, sparse, fin);
                    };
                    switch (how) {
                    case 0: return regular();
                    case 1: {
                        auto c = regular();
                        c->with_proof_strategy(proof_strategy::PerCall{});
                        return c;
                    }
                    case 2: {
                        auto c = regular();
                        c->with_proof_strategy(proof_strategy::Bacchus{});
                        return c;
                    }
                    case 3: {
                        auto c = regular();
                        c->with_proof_strategy(proof_strategy::Upfront{});
                        return c;
                    }
                    case 4: {
                        auto c = regular();
                        c->with_short_reasons(false);
                        return c;
                    }
                    case 5: return legacy();
                    case 6: {
                        auto c = legacy();
                        c->with_short_reasons(false);
                        return c;
                    }
                    default:
                        return dense ? make_unique<RegularBacchus>(ids(xs, e), d.n, den, fin) : make_unique<RegularBacchus>(ids(xs, e), d.n, sparse, fin);
                    }
                };
            };
            k.variants = {{"default", build(0), Level::Full}, {"per call", build(1), Level::Full}, {"bacchus", build(2), Level::Full},
                {"upfront", build(3), Level::Full}, {"long reasons", build(4), Level::Full}, {"legacy", build(5), Level::Full},
                {"legacy, long reasons", build(6), Level::Full}, {"RegularBacchus", build(7), Level::Full}};
            return k;
        }

        // A small regular expression, with its own matcher.
        struct Rx
        {
            int kind; // 0 symbol, 1 concatenation, 2 alternation, 3 star, 4 plus, 5 optional, 6 any
            LL v = 0;
            vector<Rx> kids;

            // positions reachable from `from`
            [[nodiscard]] auto match(const vector<LL> & w, std::size_t from) const -> std::set<std::size_t>
            {
                switch (kind) {
                case 0: return from < w.size() && w[from] == v ? std::set<std::size_t>{from + 1} : std::set<std::size_t>{};
                case 6: return from < w.size() ? std::set<std::size_t>{from + 1} : std::set<std::size_t>{};
                case 1: {
                    std::set<std::size_t> at{from};
                    for (auto & k : kids) {
                        std::set<std::size_t> next;
                        for (auto p : at)
                            for (auto q : k.match(w, p))
                                next.insert(q);
                        at = next;
                    }
                    return at;
                }
                case 2: {
                    std::set<std::size_t> r;
                    for (auto & k : kids)
                        for (auto q : k.match(w, from))
                            r.insert(q);
                    return r;
                }
                case 5: {
                    auto r = kids[0].match(w, from);
                    r.insert(from);
                    return r;
                }
                default: {
                    std::set<std::size_t> r, todo{from};
                    if (kind == 3)
                        r.insert(from);
                    std::set<std::size_t> done;
                    while (! todo.empty()) {
                        auto p = *todo.begin();
                        todo.erase(todo.begin());
                        if (! done.insert(p).second)
                            continue;
                        for (auto q : kids[0].match(w, p)) {
                            r.insert(q);
                            todo.insert(q);
                        }
                    }
                    return r;
                }
                }
            }
            [[nodiscard]] auto text() const -> string
            {
                switch (kind) {
                case 0: return std::to_string(v);
                case 6: return ".";
                case 1: {
                    string s;
                    for (auto & k : kids)
                        s += (s.empty() ? "" : " ") + (k.kind == 2 ? "(" + k.text() + ")" : k.text());
                    return s;
                }
                case 2: {
                    string s;
                    for (auto & k : kids)
                        s += (s.empty() ? "" : "|") + k.text();
                    return s;
                }
                default: {
                    auto & k = kids[0];
                    auto inner = k.kind == 0 || k.kind == 6 ? k.text() : "(" + k.text() + ")";
                    return inner + (kind == 3 ? "*" : kind == 4 ? "+" : "?");
                }
                }
            }
        };

        auto gen_rx(Gen & g, int depth) -> Rx
        {
            auto k = depth == 0 ? 0 : g.c.weighted({3, 4, 3, 2, 1, 1, 1});
            Rx r{static_cast<int>(k)};
            switch (k) {
            case 0: r.v = g.rnd(0, 3); break;
            case 1:
            case 2:
                for (std::size_t i = 0, n = g.count(2, 3); i < n; ++i)
                    r.kids.push_back(gen_rx(g, depth - 1));
                break;
            case 6: break;
            default: r.kids.push_back(gen_rx(g, depth - 1));
            }
            return r;
        }

        auto gen_regex(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(1, 5), 0, 3, true, 4);
            auto r = gen_rx(g, 3);
            Cons k;
            k.text = text(xs) + " matches " + r.text();
            k.scope = xs;
            LL lo = 0, hi = 0;
            for (auto & o : xs) {
                auto [l, h] = g.range_of(o);
                lo = std::min(lo, l);
                hi = std::max(hi, h);
            }
            vector<Integer> alphabet;
            for (auto v = lo; v <= hi; ++v)
                alphabet.push_back(I(v));
            for (auto & from : gcs::innards::regex_to_nfa(r.text(), alphabet).transitions)
                for (auto & [_, to] : from)
                    if (to.size() > 1)
                        k.undecided = "nondeterministic-regex";
            k.holds = [=](const Asg & a) {
                auto w = eval(xs, a);
                return r.match(w, 0).contains(w.size());
            };
            k.variants = {{"regular", [=](const Env & e) { return mk<Regular>(ids(xs, e), r.text()); }, Level::Full},
                {"per call",
                    [=](const Env & e) {
                        auto c = make_unique<Regular>(ids(xs, e), r.text());
                        c->with_proof_strategy(proof_strategy::PerCall{});
                        return c;
                    },
                    Level::Full},
                {"legacy", [=](const Env & e) { return mk<RegularLegacy>(ids(xs, e), r.text()); }, Level::Full}};
            return k;
        }

        auto gen_mdd(Gen & g) -> Cons
        {
            auto n = g.count(1, 4);
            auto xs = g.ops(n, -1, 3, false, 4);
            vector<long> sizes{1};
            for (std::size_t i = 0; i < n; ++i)
                sizes.push_back(static_cast<long>(g.count(1, 3)));
            vector<vector<std::map<LL, long>>> tr;
            for (std::size_t i = 0; i < n; ++i) {
                vector<std::map<LL, long>> layer;
                for (long q = 0; q < sizes[i]; ++q) {
                    std::map<LL, long> m;
                    for (LL v = -1; v <= 3; ++v)
                        if (g.c.chance(3, 5))
                            m[v] = static_cast<long>(g.c.draw(sizes[i + 1] - 1));
                    layer.push_back(m);
                }
                tr.push_back(layer);
            }
            vector<long> acc;
            for (long q = 0; q < sizes[n]; ++q)
                if (g.c.chance(2, 3))
                    acc.push_back(q);
            if (acc.empty())
                acc.push_back(0);
            Cons k;
            k.text = text(xs) + " mdd";
            for (auto & l : tr) {
                k.text += " |";
                for (auto & m : l) {
                    k.text += "{";
                    for (auto & [v, t] : m)
                        k.text += std::to_string(v) + "->" + std::to_string(t) + ",";
                    k.text += "}";
                }
            }
            k.text += " accept";
            for (auto q : acc)
                k.text += " " + std::to_string(q);
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                long s = 0;
                auto w = eval(xs, a);
                for (std::size_t i = 0; i < n; ++i) {
                    auto f = tr[i][s].find(w[i]);
                    if (f == tr[i][s].end())
                        return false;
                    s = f->second;
                }
                return std::find(acc.begin(), acc.end(), s) != acc.end();
            };
            k.variants = {{"", [=](const Env & e) {
                                vector<vector<std::unordered_map<Integer, long>>> t;
                                for (auto & l : tr) {
                                    vector<std::unordered_map<Integer, long>> layer;
                                    for (auto & m : l) {
                                        std::unordered_map<Integer, long> u;
                                        for (auto & [v, q] : m)
                                            u.emplace(I(v), q);
                                        layer.push_back(u);
                                    }
                                    t.push_back(layer);
                                }
                                return mk<MDD>(ids(xs, e), t, sizes, acc);
                            },
                Level::Full}};
            return k;
        }

        auto with_level(auto c, int how)
        {
            if (how == 1)
                c->with_consistency(consistency::GAC{});
            if (how == 2)
                c->with_consistency(consistency::BC{});
            return c;
        }

        auto gen_element(Gen & g) -> Cons
        {
            auto n = static_cast<LL>(g.count(1, 5));
            bool with_start = g.c.chance(1, 2);
            LL start = with_start ? g.small(-2, 3) : 0;
            auto idx = g.op(start - 1, start + n, false, 6);
            auto x = g.op(-3, 5, false, 6);
            bool constants = g.c.chance(1, 2);
            Ops arr;
            vector<LL> vals;
            for (LL i = 0; i < n; ++i) {
                if (constants)
                    vals.push_back(g.small(-3, 5));
                else
                    arr.push_back(g.op(-3, 5, false, 4));
            }
            Cons k;
            k.text = x.text() + " = " + (constants ? text(vals) : text(arr)) + "[" + idx.text() + " from " + std::to_string(start) + "]";
            k.scope = arr;
            k.scope.push_back(idx);
            k.scope.push_back(x);
            k.holds = [=](const Asg & a) {
                auto i = idx.eval(a) - start;
                if (i < 0 || i >= n)
                    return false;
                return x.eval(a) == (constants ? vals[i] : arr[i].eval(a));
            };
            auto build = [=](int how) {
                return [=](const Env & e) -> std::unique_ptr<Constraint> {
                    if (constants) {
                        if (with_start)
                            return with_level(make_unique<ElementConstantArray>(x.id(e), std::pair{idx.id(e), I(start)}, integers(vals)), how);
                        return with_level(make_unique<ElementConstantArray>(x.id(e), idx.id(e), integers(vals)), how);
                    }
                    if (with_start)
                        return with_level(make_unique<Element>(x.id(e), std::pair{idx.id(e), I(start)}, ids(arr, e)), how);
                    return with_level(make_unique<Element>(x.id(e), idx.id(e), ids(arr, e)), how);
                };
            };
            k.variants = {{"default", build(0), constants ? Level::Bounds : Level::Full}, {"gac", build(1), Level::Full}, {"bc", build(2), Level::Bounds}};
            return k;
        }

        auto gen_element_2d(Gen & g) -> Cons
        {
            auto n = static_cast<LL>(g.count(1, 3)), m = static_cast<LL>(g.count(1, 3));
            bool with_start = g.c.chance(1, 2);
            LL s1 = with_start ? g.small(-1, 2) : 0, s2 = with_start ? g.small(-1, 2) : 0;
            auto i1 = g.op(s1 - 1, s1 + n, false, 4), i2 = g.op(s2 - 1, s2 + m, false, 4);
            auto x = g.op(-2, 4, false, 5);
            bool constants = g.c.chance(1, 2);
            vector<Ops> arr;
            vector<vector<LL>> vals;
            Cons k;
            for (LL i = 0; i < n; ++i) {
                arr.emplace_back();
                vals.emplace_back();
                for (LL j = 0; j < m; ++j) {
                    if (constants)
                        vals.back().push_back(g.small(-2, 4));
                    else {
                        arr.back().push_back(g.op(-2, 4, false, 3));
                        k.scope.push_back(arr.back().back());
                    }
                }
                k.text += constants ? text(vals.back()) : text(arr.back());
            }
            k.text = x.text() + " = (" + k.text + ")[" + i1.text() + " from " + std::to_string(s1) + "][" + i2.text() + " from " + std::to_string(s2) + "]";
            k.scope.push_back(i1);
            k.scope.push_back(i2);
            k.scope.push_back(x);
            k.holds = [=](const Asg & a) {
                auto i = i1.eval(a) - s1, j = i2.eval(a) - s2;
                if (i < 0 || i >= n || j < 0 || j >= m)
                    return false;
                return x.eval(a) == (constants ? vals[i][j] : arr[i][j].eval(a));
            };
            auto build = [=](int how) {
                return [=](const Env & e) -> std::unique_ptr<Constraint> {
                    auto p1 = std::pair{i1.id(e), I(s1)}, p2 = std::pair{i2.id(e), I(s2)};
                    if (constants) {
                        vector<vector<Integer>> v;
                        for (auto & r : vals)
                            v.push_back(integers(r));
                        if (with_start)
                            return with_level(make_unique<Element2DConstantArray>(x.id(e), p1, p2, v), how);
                        return with_level(make_unique<Element2DConstantArray>(x.id(e), i1.id(e), i2.id(e), v), how);
                    }
                    vector<vector<IntegerVariableID>> v;
                    for (auto & r : arr)
                        v.push_back(ids(r, e));
                    if (with_start)
                        return with_level(make_unique<Element2D>(x.id(e), p1, p2, v), how);
                    return with_level(make_unique<Element2D>(x.id(e), i1.id(e), i2.id(e), v), how);
                };
            };
            k.variants = {{"default", build(0), constants ? Level::Bounds : Level::Full}, {"gac", build(1), Level::Full}, {"bc", build(2), Level::Bounds}};
            return k;
        }

        auto gen_knapsack(Gen & g) -> Cons
        {
            auto n = g.count(1, 4);
            auto xs = g.ops(n, 0, 3, true, 3);
            auto eqs = g.count(1, 3);
            bool two = eqs == 2 && g.c.chance(1, 2);
            vector<vector<LL>> co;
            Ops tot;
            for (std::size_t i = 0; i < eqs; ++i) {
                vector<LL> row;
                LL most = 0;
                for (auto & x : xs) {
                    row.push_back(g.rnd(0, 4));
                    most += row.back() * g.range_of(x).second;
                }
                co.push_back(row);
                tot.push_back(g.op(0, std::max<LL>(1, most), true, 6));
            }
            Cons k;
            k.text = text(xs);
            for (std::size_t i = 0; i < eqs; ++i)
                k.text += " " + text(co[i]) + "=" + tot[i].text();
            k.scope = xs;
            for (auto & o : tot)
                k.scope.push_back(o);
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                for (std::size_t i = 0; i < eqs; ++i) {
                    LL s = 0;
                    for (std::size_t j = 0; j < n; ++j)
                        s += co[i][j] * v[j];
                    if (s != tot[i].eval(a))
                        return false;
                }
                return true;
            };
            auto build = [=](int how) {
                return [=](const Env & e) -> std::unique_ptr<Constraint> {
                    std::unique_ptr<Knapsack> c;
                    if (two)
                        c = make_unique<Knapsack>(integers(co[0]), integers(co[1]), ids(xs, e), tot[0].id(e), tot[1].id(e));
                    else {
                        vector<vector<Integer>> m;
                        for (auto & r : co)
                            m.push_back(integers(r));
                        c = make_unique<Knapsack>(m, ids(xs, e), ids(tot, e));
                    }
                    if (how == 1)
                        c->with_proof_strategy(proof_strategy::PerCall{});
                    if (how == 2)
                        c->with_proof_strategy(proof_strategy::Upfront{});
                    return c;
                };
            };
            k.variants = {{"default", build(0), Level::Full}, {"per call", build(1), Level::Full}, {"upfront", build(2), Level::Full}};
            return k;
        }
    }

    auto extensional_entries() -> vector<Entry>
    {
        return {{"table", gen_table}, {"smart_table", gen_smart_table}, {"regular", gen_regular}, {"regex", gen_regex}, {"mdd", gen_mdd},
            {"element", gen_element}, {"element_2d", gen_element_2d}, {"knapsack", gen_knapsack}};
    }
}

// Counting, distinctness and cardinality constraints.
#include <checks/solver/model.hh>

#include <gcs/constraints/at_most_one.hh>

#include <algorithm>
#include <map>
#include <set>

using namespace gcs;
using std::make_unique;
using std::optional;
using std::string;
using std::vector;

namespace mdl
{
    namespace
    {
        // A value that no way of giving different values to each has, other than those that may be repeated.
        auto not_matched(const vector<Dom> & ds, const vector<LL> & except) -> optional<string>
        {
            // which of the values each could have: one that may be repeated is as many values as there are variables
            std::map<std::pair<LL, std::size_t>, std::size_t> number;
            vector<vector<std::size_t>> to(ds.size());
            for (std::size_t i = 0; i < ds.size(); ++i)
                for (auto v : ds[i]) {
                    bool free = std::find(except.begin(), except.end(), v) != except.end();
                    to[i].push_back(number.emplace(std::pair{v, free ? i + 1 : 0}, number.size()).first->second);
                }
            vector<int> owner;
            vector<bool> seen;
            std::size_t fixed = 0;
            std::function<auto(std::size_t)->bool> place = [&](std::size_t i) -> bool {
                for (auto t : to[i]) {
                    if (seen[t])
                        continue;
                    seen[t] = true;
                    if (owner[t] < 0 || (static_cast<std::size_t>(owner[t]) != fixed && place(static_cast<std::size_t>(owner[t])))) {
                        owner[t] = static_cast<int>(i);
                        return true;
                    }
                }
                return false;
            };
            owner.assign(number.size(), -1);
            fixed = ds.size();
            for (std::size_t i = 0; i < ds.size(); ++i) {
                seen.assign(number.size(), false);
                if (! place(i))
                    return "nothing is left that gives everything a value, but it has not been noticed";
            }
            auto base = owner;
            for (std::size_t i = 0; i < ds.size(); ++i)
                for (std::size_t k = 0; k < ds[i].size(); ++k) {
                    auto t = to[i][k];
                    if (base[t] == static_cast<int>(i))
                        continue;
                    // move i there, and whatever was there elsewhere
                    owner = base;
                    for (auto & o : owner)
                        if (o == static_cast<int>(i))
                            o = -1;
                    auto was = owner[t];
                    owner[t] = static_cast<int>(i);
                    fixed = i;
                    seen.assign(number.size(), false);
                    seen[t] = true;
                    if (was >= 0 && ! place(static_cast<std::size_t>(was)))
                        return "operand " + std::to_string(i) + " kept " + std::to_string(ds[i][k]) + ", which leaves too few values for the others";
                }
            return std::nullopt;
        }

        auto gen_all_different(Gen & g) -> Cons
        {
            auto n = g.count(1, 5);
            LL hi = static_cast<LL>(n) + g.small(-1, 2);
            auto xs = g.ops(n, 0, std::max<LL>(hi, 1), false, 5);
            Cons k;
            k.text = text(xs);
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                return std::set<LL>(v.begin(), v.end()).size() == v.size();
            };
            k.undone = [](const vector<Dom> & ds, const string & variant) -> optional<string> {
                if (variant != "vc")
                    return not_matched(ds, {});
                for (std::size_t i = 0; i < ds.size(); ++i)
                    for (std::size_t j = 0; j < ds.size(); ++j)
                        if (i != j && ds[i].size() == 1 && std::binary_search(ds[j].begin(), ds[j].end(), ds[i][0]))
                            return "operand " + std::to_string(j) + " kept the only value of operand " + std::to_string(i);
                return std::nullopt;
            };
            k.variants = {
                {"default", [=](const Env & e) { return mk<AllDifferent>(ids(xs, e)); }, Level::Full},
                {"gac",
                    [=](const Env & e) {
                        auto c = make_unique<AllDifferent>(ids(xs, e));
                        c->with_consistency(consistency::GAC{});
                        return c;
                    },
                    Level::Full},
                {"vc",
                    [=](const Env & e) {
                        auto c = make_unique<AllDifferent>(ids(xs, e));
                        c->with_consistency(consistency::VC{});
                        return c;
                    }},
            };
            return k;
        }

        auto gen_all_different_except(Gen & g) -> Cons
        {
            auto n = g.count(1, 5);
            auto xs = g.ops(n, -1, static_cast<LL>(n), false, 5);
            vector<LL> ex;
            bool zero = g.c.chance(1, 3);
            if (zero)
                ex = {0};
            else
                for (std::size_t i = 0, m = g.count(0, 3); i < m; ++i)
                    ex.push_back(g.small(-1, static_cast<LL>(n)));
            Cons k;
            k.text = text(xs) + " except " + text(ex);
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                std::set<LL> seen;
                for (auto v : eval(xs, a))
                    if (std::find(ex.begin(), ex.end(), v) == ex.end() && ! seen.insert(v).second)
                        return false;
                return true;
            };
            k.undone = [ex](const vector<Dom> & ds, const string &) { return not_matched(ds, ex); };
            k.variants = {{"", [=](const Env & e) -> std::unique_ptr<Constraint> {
                                if (zero)
                                    return mk<AllDifferentExceptZero>(ids(xs, e));
                                return mk<AllDifferentExcept>(ids(xs, e), integers(ex));
                            },
                Level::Full}};
            return k;
        }

        auto gen_symmetric_all_different(Gen & g) -> Cons
        {
            auto n = static_cast<LL>(g.count(1, 5));
            LL start = g.c.chance(1, 2) ? 0 : g.small(-2, 3);
            auto xs = g.handles(static_cast<std::size_t>(n), start - (g.c.chance(1, 6) ? 1 : 0), start + n - 1 + (g.c.chance(1, 6) ? 1 : 0), false, 5);
            Cons k;
            k.text = text(xs) + " start " + std::to_string(start);
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                for (LL i = 0; i < n; ++i) {
                    auto j = v[i] - start;
                    if (j < 0 || j >= n || v[j] - start != i)
                        return false;
                }
                return true;
            };
            k.undone = [start](const vector<Dom> & ds, const string &) -> optional<string> {
                auto has = [&](std::size_t i, LL v) { return std::binary_search(ds[i].begin(), ds[i].end(), v); };
                for (std::size_t i = 0; i < ds.size(); ++i)
                    for (auto v : ds[i]) {
                        auto j = v - start;
                        if (j < 0 || j >= static_cast<LL>(ds.size()) || ! has(static_cast<std::size_t>(j), static_cast<LL>(i) + start))
                            return "operand " + std::to_string(i) + " kept " + std::to_string(v) + ", which has lost its converse";
                    }
                return not_matched(ds, {});
            };
            k.variants = {{"", [=](const Env & e) { return mk<SymmetricAllDifferent>(ids(xs, e), I(start)); }}};
            return k;
        }

        auto gen_all_equal(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(0, 4), -2, 5, false, 6);
            Cons k;
            k.text = text(xs);
            k.scope = xs;
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                return std::set<LL>(v.begin(), v.end()).size() <= 1;
            };
            k.variants = {{"", [=](const Env & e) { return mk<AllEqual>(ids(xs, e)); }, Level::Full}};
            return k;
        }

        auto gen_among(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(0, 4), -2, 3, false, 5);
            vector<LL> vals;
            for (std::size_t i = 0, m = g.count(0, 4); i < m; ++i)
                vals.push_back(g.small(-2, 3));
            auto r = g.op(-1, static_cast<LL>(xs.size()) + 1, false, 5);
            Cons k;
            k.text = "#" + text(xs) + " in " + text(vals) + " = " + r.text();
            k.scope = xs;
            k.scope.push_back(r);
            k.holds = [=](const Asg & a) {
                LL n = 0;
                for (auto v : eval(xs, a))
                    n += std::find(vals.begin(), vals.end(), v) != vals.end();
                return n == r.eval(a);
            };
            k.variants = {{"", [=](const Env & e) { return mk<Among>(ids(xs, e), integers(vals), r.id(e)); }, Level::Full}};
            return k;
        }

        auto gen_count(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(0, 4), -2, 3, false, 5);
            auto v = g.op(-2, 3, false, 5);
            auto r = g.op(-1, static_cast<LL>(xs.size()) + 1, false, 5);
            Cons k;
            k.text = "#" + text(xs) + " == " + v.text() + " is " + r.text();
            k.scope = xs;
            k.scope.push_back(v);
            k.scope.push_back(r);
            k.holds = [=](const Asg & a) {
                LL n = 0, w = v.eval(a);
                for (auto x : eval(xs, a))
                    n += x == w;
                return n == r.eval(a);
            };
            k.variants = {{"", [=](const Env & e) { return mk<Count>(ids(xs, e), v.id(e), r.id(e)); }}};
            return k;
        }

        auto gen_at_most_one(Gen & g) -> Cons
        {
            bool smart = g.c.chance(1, 3);
            auto n = g.count(smart ? 1 : 0, 4);
            Ops xs;
            Op v;
            if (smart) {
                auto old = g.style;
                g.style.constants = 0;
                xs = g.handles(n, -1, 3, false, 4);
                v = g.distinct(-1, 3, 4);
                g.style = old;
            }
            else {
                xs = g.ops(n, -1, 3, false, 4);
                v = g.op(-1, 3, false, 4);
            }
            Cons k;
            k.text = "#" + text(xs) + " == " + v.text() + " <= 1";
            k.scope = xs;
            k.scope.push_back(v);
            k.holds = [=](const Asg & a) {
                LL c = 0, w = v.eval(a);
                for (auto x : eval(xs, a))
                    c += x == w;
                return c <= 1;
            };
            k.variants = {{"", [=](const Env & e) { return mk<AtMostOne>(ids(xs, e), v.id(e)); }, Level::Full}};
            if (smart)
                k.variants.push_back({"smart table", [=](const Env & e) { return mk<AtMostOneSmartTable>(ids(xs, e), v.id(e)); }});
            return k;
        }

        auto gen_n_value(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(0, 5), -2, 3, false, 4);
            auto r = g.op(-1, static_cast<LL>(xs.size()) + 1, false, 5);
            Cons k;
            k.text = r.text() + " distinct in " + text(xs);
            k.scope = xs;
            k.scope.push_back(r);
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                return static_cast<LL>(std::set<LL>(v.begin(), v.end()).size()) == r.eval(a);
            };
            k.variants = {{"", [=](const Env & e) { return mk<NValue>(r.id(e), ids(xs, e)); }}};
            return k;
        }

        auto gen_gcc(Gen & g) -> Cons
        {
            auto xs = g.ops(g.count(0, 4), -1, 3, false, 4);
            std::set<LL> vs;
            for (std::size_t i = 0, m = g.count(0, 3); i < m; ++i)
                vs.insert(g.small(-1, 3));
            vector<LL> vals(vs.begin(), vs.end());
            g.c.shuffle(vals);
            auto cs = g.ops(vals.size(), -1, static_cast<LL>(xs.size()), false, 4);
            bool closed = g.c.chance(1, 3);
            Cons k;
            k.text = text(xs) + " values " + text(vals) + " counts " + text(cs) + (closed ? " closed" : "");
            k.scope = xs;
            for (auto & o : cs)
                k.scope.push_back(o);
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                LL total = 0;
                for (std::size_t i = 0; i < vals.size(); ++i) {
                    auto n = std::count(v.begin(), v.end(), vals[i]);
                    total += n;
                    if (n != cs[i].eval(a))
                        return false;
                }
                return ! closed || total == static_cast<LL>(v.size());
            };
            auto build = [=](int how) {
                return [=](const Env & e) {
                    auto c = make_unique<GlobalCardinality>(ids(xs, e), integers(vals), ids(cs, e));
                    if (how == 1)
                        c->with_consistency(consistency::BC{});
                    if (how == 2)
                        c->with_consistency(consistency::GAC{});
                    if (closed)
                        c->with_closed();
                    return c;
                };
            };
            k.variants = {{"default", build(0)}, {"bc", build(1)}, {"gac", build(2)}};
            return k;
        }

        auto gen_in(Gen & g) -> Cons
        {
            auto x = g.op(-3, 5, false, 8);
            auto form = g.c.draw(2);
            Ops vs;
            vector<LL> vals;
            if (form != 2)
                vs = g.ops(g.count(0, 3), -3, 5, false, 4);
            if (form != 1)
                for (std::size_t i = 0, m = g.count(0, 5); i < m; ++i)
                    vals.push_back(g.small(-4, 6));
            Cons k;
            k.text = x.text() + " in " + text(vs) + " or " + text(vals);
            k.scope = vs;
            k.scope.push_back(x);
            k.holds = [=](const Asg & a) {
                auto w = x.eval(a);
                auto v = eval(vs, a);
                return std::find(v.begin(), v.end(), w) != v.end() || std::find(vals.begin(), vals.end(), w) != vals.end();
            };
            k.variants = {{"", [=](const Env & e) -> std::unique_ptr<Constraint> {
                                if (form == 0)
                                    return mk<In>(x.id(e), ids(vs, e), integers(vals));
                                if (form == 1)
                                    return mk<In>(x.id(e), ids(vs, e));
                                return mk<In>(x.id(e), integers(vals));
                            },
                Level::Full}};
            return k;
        }
    }

    auto counting_entries() -> vector<Entry>
    {
        return {{"all_different", gen_all_different}, {"all_different_except", gen_all_different_except},
            {"symmetric_all_different", gen_symmetric_all_different}, {"all_equal", gen_all_equal}, {"among", gen_among}, {"count", gen_count},
            {"at_most_one", gen_at_most_one}, {"n_value", gen_n_value}, {"global_cardinality", gen_gcc}, {"in", gen_in}};
    }
}

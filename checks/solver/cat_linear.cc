// Comparisons, equalities, linear and logical constraints, and their reified forms.
#include <checks/solver/model.hh>

#include <algorithm>

using namespace gcs;
using std::make_unique;
using std::optional;
using std::string;
using std::vector;

namespace mdl
{
    namespace
    {
        struct Lin
        {
            vector<LL> coef;
            Ops ops;
            LL value = 0;

            [[nodiscard]] auto sum(const Asg & a) const -> LL
            {
                LL s = 0;
                for (std::size_t i = 0; i < ops.size(); ++i)
                    s += coef[i] * ops[i].eval(a);
                return s;
            }
            [[nodiscard]] auto text() const -> string
            {
                string s;
                for (std::size_t i = 0; i < ops.size(); ++i)
                    s += (i ? " + " : "") + std::to_string(coef[i]) + "*(" + ops[i].text() + ")";
                return s.empty() ? "0" : s;
            }
            [[nodiscard]] auto get(const Env & e) const -> WeightedSum
            {
                WeightedSum w;
                for (std::size_t i = 0; i < ops.size(); ++i)
                    w += I(coef[i]) * ops[i].id(e);
                return w;
            }
        };

        auto gen_lin(Gen & g) -> Lin
        {
            Lin l;
            auto n = g.c.weighted({1, 3, 6, 8, 6, 4, 2});
            if (g.c.chance(1, 12))
                n = g.count(7, 10);
            bool units = g.c.chance(1, 4);
            LL lo = 0, hi = 0;
            for (std::size_t i = 0; i < n; ++i) {
                LL c = units ? (g.c.chance(1, 3) ? -1 : 1) : g.c.around_zero(-4, 5);
                if (c == 0 && ! g.c.chance(1, 6))
                    c = 2;
                auto o = g.op(-3, 4, false, n > 6 ? 2 : 5);
                auto [a, b] = g.range_of(o);
                lo += std::min(c * a, c * b);
                hi += std::max(c * a, c * b);
                l.coef.push_back(c);
                l.ops.push_back(o);
            }
            l.value = g.c.chance(1, 12) ? g.rnd(lo - 3, hi + 3) : g.rnd(lo, hi);
            return l;
        }

        // A bound that is past what any values of the others between their bounds, even if not integers, would allow.
        auto out_of_reach(const vector<LL> & coef, LL value, const vector<Dom> & ds, bool at_most, bool at_least) -> optional<string>
        {
            LL lo = 0, hi = 0;
            for (std::size_t i = 0; i < coef.size(); ++i) {
                auto a = coef[i] * ds[i].front(), b = coef[i] * ds[i].back();
                lo += std::min(a, b);
                hi += std::max(a, b);
            }
            for (std::size_t i = 0; i < coef.size(); ++i) {
                auto a = coef[i] * ds[i].front(), b = coef[i] * ds[i].back();
                auto others_lo = lo - std::min(a, b), others_hi = hi - std::max(a, b);
                for (auto x : {a, b})
                    if ((at_most && others_lo + x > value) || (at_least && others_hi + x < value))
                        return "operand " + std::to_string(i) + " kept a bound that nothing between the others' bounds supports";
            }
            return std::nullopt;
        }

        auto with_reif(const Ops & base, const Reif & r) -> Ops
        {
            auto s = base;
            if (r.kind >= 2)
                s.push_back(r.c.op);
            return s;
        }

        auto gen_compare(Gen & g) -> Cons
        {
            auto x = g.op(-3, 5), y = g.op(-3, 5);
            bool or_equal = g.c.chance(1, 2);
            auto r = g.reif();
            if (r.kind != 1 && r.kind != 3 && g.c.chance(1, 3)) {
                bool swap = g.c.chance(1, 2); // GreaterThan
                // identical handles are refused for the unreified strict forms
                if (! or_equal && x.var == y.var && x.neg == y.neg && x.off == y.off && r.kind == 0)
                    y.off += 1;
                auto big = swap ? x : y, little = swap ? y : x;
                Cons k;
                k.text = x.text() + (swap ? " >" : " <") + (or_equal ? "= " : " ") + y.text() + r.text();
                k.scope = with_reif({x, y}, r);
                k.holds = [=](const Asg & a) {
                    auto l = little.eval(a), b = big.eval(a);
                    return r.eval(or_equal ? l <= b : l < b, a);
                };
                k.variants = {{"named",
                    [=](const Env & e) -> std::unique_ptr<Constraint> {
                        auto p = x.id(e), q = y.id(e);
                        if (r.kind == 0) {
                            if (swap)
                                return or_equal ? mk<GreaterThanEqual>(p, q) : mk<GreaterThan>(p, q);
                            return or_equal ? mk<LessThanEqual>(p, q) : mk<LessThan>(p, q);
                        }
                        auto c = r.c.get(e);
                        if (r.kind == 2) {
                            if (swap)
                                return or_equal ? mk<GreaterThanEqualIf>(p, q, c) : mk<GreaterThanIf>(p, q, c);
                            return or_equal ? mk<LessThanEqualIf>(p, q, c) : mk<LessThanIf>(p, q, c);
                        }
                        if (swap)
                            return or_equal ? mk<GreaterThanEqualIff>(p, q, c) : mk<GreaterThanIff>(p, q, c);
                        return or_equal ? mk<LessThanEqualIff>(p, q, c) : mk<LessThanIff>(p, q, c);
                    },
                    Level::Full}};
                return k;
            }
            Cons k;
            k.text = x.text() + (or_equal ? " <= " : " < ") + y.text() + r.text();
            k.scope = with_reif({x, y}, r);
            k.holds = [=](const Asg & a) {
                auto l = x.eval(a), b = y.eval(a);
                return r.eval(or_equal ? l <= b : l < b, a);
            };
            k.variants = {{"general", [=](const Env & e) { return mk<ReifiedCompareLessThanOrMaybeEqual>(x.id(e), y.id(e), r.get(e), or_equal); },
                Level::Full}};
            return k;
        }

        auto gen_equals(Gen & g) -> Cons
        {
            auto x = g.op(-3, 5), y = g.op(-3, 5);
            bool neq = g.c.chance(1, 2);
            auto r = g.reif();
            Cons k;
            k.scope = with_reif({x, y}, r);
            k.holds = [=](const Asg & a) { return r.eval((x.eval(a) == y.eval(a)) != neq, a); };
            if (r.kind != 1 && r.kind != 3 && g.c.chance(1, 3)) {
                if (neq && x.var == y.var && x.neg == y.neg && x.off == y.off && r.kind == 0) {
                    y.off += 1;
                    k.scope = with_reif({x, y}, r);
                    k.holds = [=](const Asg & a) { return r.eval((x.eval(a) == y.eval(a)) != neq, a); };
                }
                k.variants = {{"named",
                    [=](const Env & e) -> std::unique_ptr<Constraint> {
                        auto p = x.id(e), q = y.id(e);
                        if (r.kind == 0)
                            return neq ? mk<NotEquals>(p, q) : mk<Equals>(p, q);
                        auto c = r.c.get(e);
                        if (r.kind == 2)
                            return neq ? mk<NotEqualsIf>(p, q, c) : mk<EqualsIf>(p, q, c);
                        return neq ? mk<NotEqualsIff>(p, q, c) : mk<EqualsIff>(p, q, c);
                    },
                    Level::Full}};
            }
            else {
                // ReifiedEquals(..., neq) only records which spelling was used: it negates the condition itself, so post plain equality.
                auto rr = r;
                k.holds = [=](const Asg & a) { return rr.eval(x.eval(a) == y.eval(a), a); };
                neq = false;
                k.variants = {{"general", [=](const Env & e) { return mk<ReifiedEquals>(x.id(e), y.id(e), rr.get(e)); }, Level::Full}};
            }
            k.text = x.text() + (neq ? " != " : " == ") + y.text() + r.text();
            return k;
        }

        auto gen_linear_eq(Gen & g) -> Cons
        {
            auto l = gen_lin(g);
            auto form = g.c.draw(1) == 0 ? 0 : 1 + g.c.draw(2); // general, or one of the named ones: plain, If, Iff
            bool neq = form != 0 && g.c.chance(1, 2);
            Cons k;
            k.scope = l.ops;
            optional<std::size_t> threshold;
            if (g.c.chance(1, 2))
                threshold = g.c.draw(10);
            std::function<auto(const Env &)->std::unique_ptr<ReifiedLinearEquality>> build;
            if (form == 0) {
                auto r = g.reif();
                k.scope = with_reif(k.scope, r);
                k.text = l.text() + " == " + std::to_string(l.value) + r.text();
                k.holds = [=](const Asg & a) { return r.eval(l.sum(a) == l.value, a); };
                build = [=](const Env & e) { return make_unique<ReifiedLinearEquality>(l.get(e), I(l.value), r.get(e)); };
            }
            else if (form == 1) {
                k.text = l.text() + (neq ? " != " : " == ") + std::to_string(l.value);
                k.holds = [=](const Asg & a) { return (l.sum(a) == l.value) != neq; };
                if (! neq)
                    k.undone = [=](const vector<Dom> & ds, const string &) { return out_of_reach(l.coef, l.value, ds, true, true); };
                build = [=](const Env & e) -> std::unique_ptr<ReifiedLinearEquality> {
                    if (neq)
                        return make_unique<LinearNotEquals>(l.get(e), I(l.value));
                    return make_unique<LinearEquality>(l.get(e), I(l.value));
                };
            }
            else {
                auto c = g.lit();
                bool iff = form == 3;
                if (c.kind == 2)
                    k.scope.push_back(c.c.op);
                k.text = l.text() + (neq ? " != " : " == ") + std::to_string(l.value) + (iff ? " iff " : " if ") + c.text();
                k.holds = [=](const Asg & a) {
                    bool h = (l.sum(a) == l.value) != neq, q = c.eval(a);
                    return iff ? h == q : (! q || h);
                };
                build = [=](const Env & e) -> std::unique_ptr<ReifiedLinearEquality> {
                    if (neq && iff)
                        return make_unique<LinearNotEqualsIff>(l.get(e), I(l.value), c.get(e));
                    if (neq)
                        return make_unique<LinearNotEqualsIf>(l.get(e), I(l.value), c.get(e));
                    if (iff)
                        return make_unique<LinearEqualityIff>(l.get(e), I(l.value), c.get(e));
                    return make_unique<LinearEqualityIf>(l.get(e), I(l.value), c.get(e));
                };
            }
            k.variants = {
                {"bc",
                    [=](const Env & e) {
                        auto c = build(e);
                        if (threshold)
                            c->with_incremental_threshold(*threshold);
                        return c;
                    }},
                {"tabulated",
                    [=](const Env & e) {
                        auto c = build(e);
                        c->with_consistency(consistency::Tabulated{});
                        return c;
                    },
                    Level::Full},
            };
            return k;
        }

        auto gen_linear_ineq(Gen & g) -> Cons
        {
            auto l = gen_lin(g);
            optional<std::size_t> threshold;
            if (g.c.chance(1, 2))
                threshold = g.c.draw(10);
            Cons k;
            if (g.c.chance(1, 2)) {
                auto r = g.reif();
                k.scope = with_reif(l.ops, r);
                k.text = l.text() + " <= " + std::to_string(l.value) + r.text();
                k.holds = [=](const Asg & a) { return r.eval(l.sum(a) <= l.value, a); };
                k.variants = {{"general",
                    [=](const Env & e) { return mk<ReifiedLinearInequality>(l.get(e), I(l.value), r.get(e), threshold); },
                    Level::Bounds}};
                return k;
            }
            bool ge = g.c.chance(1, 2);
            auto kind = g.c.draw(2);
            optional<Cond> c;
            if (kind > 0)
                c = g.cond();
            k.scope = l.ops;
            if (c)
                k.scope.push_back(c->op);
            k.text = l.text() + (ge ? " >= " : " <= ") + std::to_string(l.value) + (kind == 0 ? "" : (kind == 1 ? " if " : " iff ") + c->text());
            if (kind == 0)
                k.undone = [=](const vector<Dom> & ds, const string &) { return out_of_reach(l.coef, l.value, ds, ! ge, ge); };
            k.holds = [=](const Asg & a) {
                bool h = ge ? l.sum(a) >= l.value : l.sum(a) <= l.value;
                if (kind == 0)
                    return h;
                return kind == 1 ? (! c->eval(a) || h) : c->eval(a) == h;
            };
            k.variants = {{"named", [=](const Env & e) -> std::unique_ptr<Constraint> {
                auto w = l.get(e);
                if (kind == 0) {
                    if (ge)
                        return mk<LinearGreaterThanEqual>(w, I(l.value), threshold);
                    return mk<LinearLessThanEqual>(w, I(l.value), threshold);
                }
                auto q = c->get(e);
                if (kind == 1) {
                    if (ge)
                        return mk<LinearGreaterThanEqualIf>(w, I(l.value), q);
                    return mk<LinearLessThanEqualIf>(w, I(l.value), q);
                }
                if (ge)
                    return mk<LinearGreaterThanEqualIff>(w, I(l.value), q);
                return mk<LinearLessThanEqualIff>(w, I(l.value), q);
            }, Level::Bounds}};
            return k;
        }

        auto gen_and_or(Gen & g) -> Cons
        {
            bool conj = g.c.chance(1, 2);
            auto n = g.count(0, 5);
            Cons k;
            if (g.c.chance(1, 2)) {
                auto xs = g.ops(n, -1, 2, false, 3);
                optional<Op> r;
                if (g.c.chance(2, 3))
                    r = g.op(-1, 2, false, 3);
                k.scope = xs;
                if (r)
                    k.scope.push_back(*r);
                k.text = string(conj ? "and " : "or ") + text(xs) + (r ? " <-> " + r->text() : "");
                k.holds = [=](const Asg & a) {
                    bool h = conj;
                    for (auto & x : xs)
                        h = conj ? (h && x.eval(a) != 0) : (h || x.eval(a) != 0);
                    return r ? h == (r->eval(a) != 0) : h;
                };
                k.variants = {{"variables",
                    [=](const Env & e) -> std::unique_ptr<Constraint> {
                        if (conj)
                            return r ? mk<And>(ids(xs, e), r->id(e)) : mk<And>(ids(xs, e));
                        return r ? mk<Or>(ids(xs, e), r->id(e)) : mk<Or>(ids(xs, e));
                    },
                    Level::Full}};
                return k;
            }
            vector<Lit> ls;
            for (std::size_t i = 0; i < n; ++i)
                ls.push_back(g.lit());
            auto r = g.lit();
            k.text = conj ? "and" : "or";
            for (auto & l : ls) {
                k.text += " (" + l.text() + ")";
                if (l.kind == 2)
                    k.scope.push_back(l.c.op);
            }
            k.text += " <-> (" + r.text() + ")";
            if (r.kind == 2)
                k.scope.push_back(r.c.op);
            k.holds = [=](const Asg & a) {
                bool h = conj;
                for (auto & x : ls)
                    h = conj ? (h && x.eval(a)) : (h || x.eval(a));
                return h == r.eval(a);
            };
            k.variants = {{"literals",
                [=](const Env & e) -> std::unique_ptr<Constraint> {
                    innards::Literals v;
                    for (auto & l : ls)
                        v.push_back(l.get(e));
                    if (conj)
                        return mk<And>(v, r.get(e));
                    return mk<Or>(v, r.get(e));
                },
                Level::Full}};
            return k;
        }

        auto gen_parity(Gen & g) -> Cons
        {
            auto n = g.count(0, 5);
            Cons k;
            if (g.c.chance(1, 2)) {
                auto xs = g.ops(n, -1, 2, false, 3);
                k.scope = xs;
                k.text = "odd " + text(xs);
                k.holds = [=](const Asg & a) {
                    int h = 0;
                    for (auto & x : xs)
                        h += x.eval(a) != 0;
                    return h % 2 == 1;
                };
                k.variants = {{"variables", [=](const Env & e) { return mk<ParityOdd>(ids(xs, e)); }, Level::Full}};
                return k;
            }
            vector<Lit> ls;
            for (std::size_t i = 0; i < n; ++i)
                ls.push_back(g.lit());
            k.text = "odd";
            for (auto & l : ls) {
                k.text += " (" + l.text() + ")";
                if (l.kind == 2)
                    k.scope.push_back(l.c.op);
            }
            k.holds = [=](const Asg & a) {
                int h = 0;
                for (auto & x : ls)
                    h += x.eval(a);
                return h % 2 == 1;
            };
            k.variants = {{"literals",
                [=](const Env & e) {
                    innards::Literals v;
                    for (auto & l : ls)
                        v.push_back(l.get(e));
                    return mk<ParityOdd>(v);
                },
                Level::Full}};
            return k;
        }

        auto gen_nogoods(Gen & g) -> Cons
        {
            bool lengthy = g.c.chance(1, 2); // where which conditions to watch matters
            auto vars = lengthy ? g.ops(g.count(3, 7), -1, 2, false, 2) : g.ops(g.count(1, 4), -2, 3, false, 4);
            auto n = g.count(lengthy ? 1 : 0, 5);
            vector<vector<Cond>> ngs;
            for (std::size_t i = 0; i < n; ++i) {
                vector<Cond> ng;
                auto len = lengthy ? g.count(2, 6) : g.count(g.c.chance(1, 10) ? 0 : 1, 3);
                for (std::size_t j = 0; j < len; ++j) {
                    auto & o = g.c.pick(vars);
                    auto [lo, hi] = g.range_of(o);
                    ng.push_back(g.cond_on(o, lo, hi));
                }
                ngs.push_back(ng);
            }
            Cons k;
            k.text = "nogoods";
            for (auto & ng : ngs) {
                k.text += " {";
                for (auto & q : ng) {
                    k.text += q.text() + ",";
                    k.scope.push_back(q.op);
                }
                k.text += "}";
            }
            k.repeats = true;
            k.undone = [ngs](const vector<Dom> & ds, const string &) -> optional<string> {
                std::size_t at = 0;
                for (auto & ng : ngs) {
                    std::size_t open = 0, no = 0;
                    for (auto & q : ng) {
                        auto d = decided(q, ds.at(at++));
                        open += d == 0;
                        no += d == -1;
                    }
                    if (no == 0 && open <= 1) {
                        string t;
                        for (auto & q : ng)
                            t += q.text() + ", ";
                        return "the last thing that can stop {" + t + "} was not made to";
                    }
                }
                return std::nullopt;
            };
            k.holds = [=](const Asg & a) {
                for (auto & ng : ngs) {
                    bool all = true;
                    for (auto & q : ng)
                        all = all && q.eval(a);
                    if (all)
                        return false;
                }
                return true;
            };
            auto build = [=](bool refined) {
                return [=](const Env & e) {
                    vector<Nogood> v;
                    for (auto & ng : ngs) {
                        Nogood w;
                        for (auto & q : ng)
                            w.push_back(q.get(e));
                        v.push_back(w);
                    }
                    return mk<Nogoods>(v, refined);
                };
            };
            k.variants = {{"refined", build(true)}, {"scan", build(false)}};
            return k;
        }

        auto gen_difference(Gen & g) -> Cons
        {
            struct E
            {
                Op x, y;
                LL d;
                optional<Cond> c;
            };
            auto n = g.count(2, 4);
            Ops vars;
            for (std::size_t i = 0; i < n; ++i) {
                auto o = g.op(-2, 5, false, 6);
                if (o.neg)
                    o = Op{o.var, false, 0};
                vars.push_back(o);
            }
            auto m = g.count(1, 6);
            vector<E> es;
            for (std::size_t i = 0; i < m; ++i) {
                E e{g.c.pick(vars), g.c.pick(vars), g.c.around_zero(-4, 5), {}};
                if (g.c.chance(1, 3)) {
                    if (g.c.chance(1, 3)) {
                        auto & o = g.c.pick(vars);
                        auto [lo, hi] = g.range_of(o);
                        e.c = g.cond_on(o, lo, hi);
                    }
                    else
                        e.c = g.cond();
                }
                es.push_back(e);
            }
            Cons k;
            k.text = "";
            for (auto & e : es) {
                k.text += e.x.text() + "-(" + e.y.text() + ")<=" + std::to_string(e.d) + (e.c ? " if " + e.c->text() : "") + ", ";
                k.scope.push_back(e.x);
                k.scope.push_back(e.y);
                if (e.c)
                    k.scope.push_back(e.c->op);
            }
            k.holds = [=](const Asg & a) {
                for (auto & e : es)
                    if ((! e.c || e.c->eval(a)) && e.x.eval(a) - e.y.eval(a) > e.d)
                        return false;
                return true;
            };
            auto build = [=](int how) {
                return [=](const Env & env) {
                    vector<DifferenceEdge> v;
                    for (auto & e : es) {
                        DifferenceEdge d{e.x.id(env), e.y.id(env), I(e.d)};
                        if (e.c)
                            d.cond = e.c->get(env);
                        v.push_back(d);
                    }
                    auto c = make_unique<DifferenceConstraints>(v);
                    if (how == 1)
                        c->simplifying_at_root(false);
                    if (how == 2)
                        c->incrementally(false);
                    if (how == 3)
                        c->incrementally(true);
                    if (how == 4)
                        c->auditing_incremental_propagation(true);
                    if (how == 5) {
                        c->simplifying_at_root(true);
                        c->incrementally(true);
                    }
                    return c;
                };
            };
            k.variants = {{"default", build(0)}, {"no simplification", build(1)}, {"not incremental", build(2)}, {"incremental", build(3)},
                {"audited", build(4)}, {"simplified, incremental", build(5)}};
            bool conditions = false;
            for (auto & e : es)
                conditions = conditions || e.c;
            if (! conditions) {
                k.repeats = true;
                for (auto & v : k.variants)
                    v.level = Level::Bounds;
            }
            return k;
        }
    }

    auto linear_entries() -> vector<Entry>
    {
        return {{"compare", gen_compare}, {"equals", gen_equals}, {"linear_eq", gen_linear_eq}, {"linear_ineq", gen_linear_ineq},
            {"difference", gen_difference}};
    }

    auto logical_entries() -> vector<Entry>
    {
        return {{"and_or", gen_and_or}, {"parity", gen_parity}, {"nogoods", gen_nogoods}};
    }
}

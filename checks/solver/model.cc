#include <checks/solver/model.hh>

#include <algorithm>
#include <sstream>

using namespace gcs;
using std::function;
using std::optional;
using std::pair;
using std::size_t;
using std::string;
using std::vector;

namespace mdl
{
    auto Op::id(const Env & e) const -> IntegerVariableID
    {
        if (var < 0)
            return constant_variable(I(off));
        auto base = e.base.at(var);
        if (neg)
            return off != 0 ? IntegerVariableID{-base + I(off)} : IntegerVariableID{-base};
        return off != 0 ? IntegerVariableID{base + I(off)} : base;
    }

    auto Op::text() const -> string
    {
        if (var < 0)
            return std::to_string(off);
        string s = (neg ? "-v" : "v") + std::to_string(var);
        if (off > 0)
            s += "+" + std::to_string(off);
        else if (off < 0)
            s += std::to_string(off);
        return s;
    }

    auto ids(const Ops & os, const Env & e) -> vector<IntegerVariableID>
    {
        vector<IntegerVariableID> r;
        for (auto & o : os)
            r.push_back(o.id(e));
        return r;
    }

    auto text(const Ops & os) -> string
    {
        string s = "[";
        for (size_t i = 0; i < os.size(); ++i)
            s += (i ? " " : "") + os[i].text();
        return s + "]";
    }

    auto text(const vector<LL> & os) -> string
    {
        string s = "[";
        for (size_t i = 0; i < os.size(); ++i)
            s += (i ? " " : "") + std::to_string(os[i]);
        return s + "]";
    }

    auto integers(const vector<LL> & v) -> vector<Integer>
    {
        vector<Integer> r;
        for (auto x : v)
            r.push_back(I(x));
        return r;
    }

    auto eval(const Ops & os, const Asg & a) -> vector<LL>
    {
        vector<LL> r;
        for (auto & o : os)
            r.push_back(o.eval(a));
        return r;
    }

    auto Cond::eval(const Asg & a) const -> bool
    {
        auto x = op.eval(a);
        switch (rel) {
            using enum VariableConditionOperator;
        case Equal: return x == v;
        case NotEqual: return x != v;
        case GreaterEqual: return x >= v;
        case Less: return x < v;
        case InRange: return x >= v && x <= u;
        case NotInRange: return x < v || x > u;
        }
        throw std::logic_error("cond");
    }

    auto Cond::get(const Env & e) const -> IntegerVariableCondition
    {
        auto x = op.id(e);
        switch (rel) {
            using enum VariableConditionOperator;
        case Equal: return x == I(v);
        case NotEqual: return x != I(v);
        case GreaterEqual: return x >= I(v);
        case Less: return x < I(v);
        case InRange: return in_range(x, I(v), I(u));
        case NotInRange: return not_in_range(x, I(v), I(u));
        }
        throw std::logic_error("cond");
    }

    auto Cond::text() const -> string
    {
        switch (rel) {
            using enum VariableConditionOperator;
        case Equal: return op.text() + "==" + std::to_string(v);
        case NotEqual: return op.text() + "!=" + std::to_string(v);
        case GreaterEqual: return op.text() + ">=" + std::to_string(v);
        case Less: return op.text() + "<" + std::to_string(v);
        case InRange: return op.text() + " in " + std::to_string(v) + ".." + std::to_string(u);
        case NotInRange: return op.text() + " notin " + std::to_string(v) + ".." + std::to_string(u);
        }
        throw std::logic_error("cond");
    }

    auto decided(const Cond & k, const Dom & values) -> int
    {
        Cond c = k;
        c.op = Op{0, false, 0};
        size_t yes = 0;
        for (auto v : values)
            yes += c.eval({v});
        return yes == values.size() ? 1 : yes == 0 ? -1 : 0;
    }

    auto Lit::get(const Env & e) const -> innards::Literal
    {
        if (kind == 0)
            return innards::FalseLiteral{};
        if (kind == 1)
            return innards::TrueLiteral{};
        return c.get(e);
    }

    auto Lit::text() const -> string
    {
        return kind == 0 ? "false" : kind == 1 ? "true" : c.text();
    }

    auto Reif::eval(bool h, const Asg & a) const -> bool
    {
        switch (kind) {
        case 0: return h;
        case 1: return ! h;
        case 2: return ! c.eval(a) || h;
        case 3: return ! c.eval(a) || ! h;
        default: return c.eval(a) == h;
        }
    }

    auto Reif::get(const Env & e) const -> ReificationCondition
    {
        switch (kind) {
        case 0: return reif::MustHold{};
        case 1: return reif::MustNotHold{};
        case 2: return reif::If{c.get(e)};
        case 3: return reif::NotIf{c.get(e)};
        default: return reif::Iff{c.get(e)};
        }
    }

    auto Reif::text() const -> string
    {
        switch (kind) {
        case 0: return "";
        case 1: return " must-not-hold";
        case 2: return " if " + c.text();
        case 3: return " not-if " + c.text();
        default: return " iff " + c.text();
        }
    }

    auto Model::product() const -> double
    {
        double p = 1;
        for (auto & d : doms)
            p *= static_cast<double>(d.size());
        return p;
    }

    auto Model::text() const -> string
    {
        std::ostringstream s;
        for (size_t i = 0; i < doms.size(); ++i) {
            s << "v" << i << " in {";
            auto & d = doms[i];
            for (size_t k = 0; k < d.size(); ++k) {
                auto e = k;
                while (e + 1 < d.size() && d[e + 1] == d[e] + 1)
                    ++e;
                s << (k ? "," : "") << d[k];
                if (e > k + 8) {
                    s << ":" << d[e];
                    k = e;
                }
            }
            s << "}" << (as_vector[i] ? "" : " (bounds)") << "; ";
        }
        for (auto & k : cons)
            s << k.entry << " " << k.text << " [" << k.variant().name << "]; ";
        if (objective)
            s << (maximise ? "maximise " : "minimise ") << objective->text() << "; ";
        return s.str();
    }

    auto Model::holds(const Asg & a) const -> bool
    {
        for (auto & k : cons)
            if (! k.holds(a))
                return false;
        return true;
    }

    auto Model::each_assignment(const function<auto(const Asg &)->bool> & f) const -> void
    {
        Asg a(doms.size());
        vector<size_t> at(doms.size(), 0);
        for (size_t i = 0; i < doms.size(); ++i)
            a[i] = doms[i][0];
        while (true) {
            if (! f(a))
                return;
            size_t i = doms.size();
            while (i > 0) {
                --i;
                if (++at[i] < doms[i].size()) {
                    a[i] = doms[i][at[i]];
                    break;
                }
                at[i] = 0;
                a[i] = doms[i][0];
                if (i == 0)
                    return;
            }
            if (doms.empty())
                return;
        }
    }

    auto Model::brute_force() const -> vector<Asg>
    {
        vector<Asg> r;
        each_assignment([&](const Asg & a) {
            if (holds(a))
                r.push_back(a);
            return true;
        });
        return r;
    }

    auto Gen::room() -> double
    {
        return style.budget / m.product();
    }

    auto Gen::new_var(Dom d) -> int
    {
        bool contiguous = d.back() - d.front() + 1 == static_cast<LL>(d.size());
        m.doms.push_back(std::move(d));
        m.as_vector.push_back(contiguous ? (c.chance(1, 8) ? 1 : 0) : 1);
        return static_cast<int>(m.doms.size()) - 1;
    }

    namespace
    {
        auto random_dom(Gen & g, LL lo, LL hi, size_t max_size, bool strict) -> Dom
        {
            if (! strict && hi - lo > 1) {
                hi += (hi - lo) * (g.style.scale - 1);
                max_size *= static_cast<size_t>(g.style.scale);
                if (g.style.wide > 1) {
                    auto extra = (hi - lo) * g.c.range(0, g.style.wide - 1);
                    auto below = extra * g.c.range(0, 3) / 3;
                    max_size *= static_cast<size_t>(1 + extra / (hi - lo));
                    lo -= below;
                    hi += extra - below;
                }
            }
            auto room = static_cast<LL>(g.room());
            LL most = std::max<LL>(1, std::min({static_cast<LL>(max_size), hi - lo + 1, room}));
            if (most == 1)
                return {g.small(lo, hi)};
            LL size = g.c.chance(1, 12) ? 1 : g.c.range(2, most);
            if (g.pct(g.style.holes)) {
                std::set<LL> s;
                for (LL i = 0; i < size; ++i)
                    s.insert(g.small(lo, hi));
                return Dom(s.begin(), s.end());
            }
            LL from = g.small(lo, hi - size + 1);
            Dom d;
            for (LL i = 0; i < size; ++i)
                d.push_back(from + i);
            return d;
        }
    }

    auto Gen::range_of(const Op & o) -> pair<LL, LL>
    {
        if (o.var < 0)
            return {o.off, o.off};
        auto & d = m.doms[o.var];
        if (o.neg)
            return {-d.back() + o.off, -d.front() + o.off};
        return {d.front() + o.off, d.back() + o.off};
    }

    auto Gen::plain(LL lo, LL hi, size_t max_size, bool strict) -> Op
    {
        return Op{new_var(random_dom(*this, lo, hi, max_size, strict)), false, 0};
    }

    auto Gen::distinct(LL lo, LL hi, size_t max_size, bool strict) -> Op
    {
        auto d = random_dom(*this, lo, hi, max_size, strict);
        if (! pct(style.views))
            return Op{new_var(d), false, 0};
        bool neg = c.chance(1, 2);
        LL off = c.around_zero(-3, 3);
        Dom b;
        for (auto v : d)
            b.push_back(neg ? off - v : v - off);
        std::sort(b.begin(), b.end());
        return Op{new_var(b), neg, off};
    }

    auto Gen::op(LL lo, LL hi, bool strict, size_t max_size) -> Op
    {
        if (pct(style.constants))
            return Op{-1, false, small(lo, hi)};
        if (m.doms.size() > first_var && pct(style.reuse)) {
            auto v = static_cast<int>(first_var + c.draw(m.doms.size() - first_var - 1));
            Op o{v, false, 0};
            if (pct(style.views)) {
                o.neg = c.chance(1, 2);
                o.off = c.around_zero(-3, 3);
            }
            if (! strict)
                return o;
            auto [l, u] = range_of(o);
            if (u - l <= hi - lo) {
                if (l < lo)
                    o.off += lo - l;
                else if (u > hi)
                    o.off -= u - hi;
                return o;
            }
        }
        return distinct(lo, hi, max_size, strict);
    }

    auto Gen::ops(size_t n, LL lo, LL hi, bool strict, size_t max_size) -> Ops
    {
        Ops r;
        for (size_t i = 0; i < n; ++i)
            r.push_back(op(lo, hi, strict, max_size));
        return r;
    }

    auto Gen::handles(size_t n, LL lo, LL hi, bool strict, size_t max_size) -> Ops
    {
        Ops r;
        std::set<int> used;
        for (size_t i = 0; i < n; ++i) {
            auto o = op(lo, hi, strict, max_size);
            if (o.var >= 0 && used.contains(o.var))
                o = distinct(lo, hi, max_size, strict);
            if (o.var >= 0)
                used.insert(o.var);
            r.push_back(o);
        }
        return r;
    }

    auto Gen::cond_on(const Op & o, LL lo, LL hi) -> Cond
    {
        Cond k;
        k.op = o;
        static const VariableConditionOperator rels[] = {VariableConditionOperator::Equal, VariableConditionOperator::NotEqual,
            VariableConditionOperator::GreaterEqual, VariableConditionOperator::Less, VariableConditionOperator::InRange,
            VariableConditionOperator::NotInRange};
        k.rel = rels[c.weighted({5, 3, 4, 4, 2, 2})];
        k.v = c.range(lo - (c.chance(1, 8) ? 1 : 0), hi + (c.chance(1, 8) ? 1 : 0));
        k.u = 0;
        if (k.rel == VariableConditionOperator::InRange || k.rel == VariableConditionOperator::NotInRange)
            k.u = c.range(k.v, std::max(k.v, hi) + (c.chance(1, 8) ? 1 : 0));
        return k;
    }

    auto Gen::cond() -> Cond
    {
        Op o = (m.doms.size() > first_var && pct(style.reuse)) ? op(0, 2) : (c.chance(2, 3) ? distinct(0, 1, 2) : distinct(-1, 2, 3));
        auto [l, u] = range_of(o);
        return cond_on(o, l, u);
    }

    auto Gen::lit() -> Lit
    {
        if (pct(style.constants / 2))
            return Lit{static_cast<int>(c.draw(1)), {}};
        return Lit{2, cond()};
    }

    auto Gen::reif() -> Reif
    {
        Reif r;
        r.kind = static_cast<int>(c.weighted({4, 2, 3, 3, 5}));
        if (r.kind >= 2)
            r.c = cond();
        return r;
    }

    auto generate(Gen & g, const Entry & e) -> Cons
    {
        auto k = e.second(g);
        k.entry = e.first;
        k.chosen = g.c.draw(k.variants.size() - 1);
        return k;
    }

    auto all_entries() -> vector<Entry>
    {
        vector<Entry> r;
        for (auto & es : {arithmetic_entries(), linear_entries(), logical_entries(), counting_entries(), extensional_entries(),
                 scheduling_entries(), ordering_entries()})
            r.insert(r.end(), es.begin(), es.end());
        return r;
    }

    auto post(const Model & m, Posted & p, bool names) -> void
    {
        for (size_t i = 0; i < m.doms.size(); ++i) {
            optional<string> name;
            if (names)
                name = "v" + std::to_string(i);
            if (m.as_vector[i])
                p.env.base.push_back(p.problem.create_integer_variable(integers(m.doms[i]), name));
            else
                p.env.base.push_back(p.problem.create_integer_variable(I(m.doms[i].front()), I(m.doms[i].back()), name));
        }
        for (auto & k : m.cons)
            p.problem.post(*k.variant().build(p.env));
        if (m.objective) {
            if (m.maximise)
                p.problem.maximise(m.objective->id(p.env));
            else
                p.problem.minimise(m.objective->id(p.env));
        }
    }

    auto default_search() -> Search
    {
        return Search{"default", {}, std::nullopt};
    }

    auto random_search(pbt::Case & c, const Model & m, bool allow_restarts) -> Search
    {
        Search s;
        auto value_order_by = [](unsigned k, unsigned seed) -> BranchValueGenerator {
            switch (k) {
            case 0: return value_order::smallest_first();
            case 1: return value_order::smallest_in();
            case 2: return value_order::smallest_out();
            case 3: return value_order::largest_first();
            case 4: return value_order::largest_in();
            case 5: return value_order::largest_out();
            case 6: return value_order::split_smallest_first();
            case 7: return value_order::split_largest_first();
            case 8: return value_order::split_random(seed);
            case 9: return value_order::random(seed);
            case 10: return value_order::random_out(seed);
            case 11: return value_order::reject_random_interval(seed);
            default: return value_order::median();
            }
        };
        static const char * value_names[] = {"smallest_first", "smallest_in", "smallest_out", "largest_first", "largest_in", "largest_out",
            "split_smallest_first", "split_largest_first", "split_random", "random", "random_out", "reject_random_interval", "median"};
        auto variable_order_by = [](unsigned k, unsigned scheme, unsigned seed, vector<IntegerVariableID> v) -> BranchVariableHeuristic {
            switch (k) {
            case 0: return variable_order::dom_then_deg(v);
            case 1: return variable_order::dom(v);
            case 2: return variable_order::dom_wdeg(v, static_cast<WeightingScheme>(scheme));
            case 3: return variable_order::in_order(v);
            case 4: return variable_order::with_smallest_value(v);
            case 5: return variable_order::with_largest_value(v);
            default: return variable_order::random(v, seed);
            }
        };
        static const char * variable_names[] = {"dom_then_deg", "dom", "dom_wdeg", "in_order", "with_smallest_value", "with_largest_value", "random"};

        if (allow_restarts && c.chance(1, 3)) {
            s.luby = 1 + c.draw(4);
            s.text = "luby " + std::to_string(*s.luby) + " ";
        }
        if (c.chance(1, 10)) {
            s.text += "default";
            return s;
        }
        auto seed = static_cast<unsigned>(c.draw(1000));
        auto v1 = static_cast<unsigned>(c.draw(6)), v2 = static_cast<unsigned>(c.draw(6)), s1 = static_cast<unsigned>(c.draw(6)),
             o1 = static_cast<unsigned>(c.draw(12)), o2 = static_cast<unsigned>(c.draw(12));
        bool seq = m.doms.size() >= 2 && c.chance(1, 4);
        vector<size_t> order;
        for (size_t i = 0; i < m.doms.size(); ++i)
            order.push_back(i);
        c.shuffle(order);
        size_t cut = seq ? 1 + c.draw(m.doms.size() - 2) : m.doms.size();
        s.text += string{variable_names[v1]} + "/" + value_names[o1];
        if (v1 == 2)
            s.text += "/scheme" + std::to_string(s1);
        if (seq)
            s.text += " then(" + std::to_string(cut) + ") " + variable_names[v2] + "/" + value_names[o2];
        s.make = [=](const Env & e, const Problem &) -> BranchHeuristic {
            vector<IntegerVariableID> a, b;
            for (size_t i = 0; i < order.size(); ++i)
                (i < cut ? a : b).push_back(e.base[order[i]]);
            auto first = branch_with(variable_order_by(v1, s1, seed, a), value_order_by(o1, seed));
            if (! seq)
                return first;
            return branch_sequence(first, branch_with(variable_order_by(v2, s1, seed, b), value_order_by(o2, seed)));
        };
        return s;
    }

    auto solve(const Model & m, Posted & p, const Search & s, const optional<ProofOptions> & proof, const Trace & trace) -> Outcome
    {
        Outcome o;
        SolveCallbacks cb;
        cb.solution = [&](const CurrentState & st) -> bool {
            Asg a;
            for (auto & v : p.env.base)
                a.push_back(st(v).raw_value);
            o.solutions.push_back(std::move(a));
            return true;
        };
        if (trace)
            cb.trace = [&](const CurrentState & st) -> bool {
                trace(st, p.env);
                return true;
            };
        if (s.make)
            cb.branch = s.make(p.env, p.problem);
        cb.completed = [&] { o.completed = true; };
        cb.stats_report = silent_stats_report();
        if (s.luby)
            cb.restarts = RestartSchedule::luby(*s.luby);
        (void) m;
        o.stats = solve_with(p.problem, cb, proof);
        return o;
    }

    auto show(const Asg & a) -> string
    {
        return text(vector<LL>(a));
    }

    auto expect_enumeration(pbt::Case & c, const Model & m, const vector<Asg> & expected, const Outcome & o, const string & what) -> void
    {
        auto got = o.solutions;
        std::sort(got.begin(), got.end());
        auto key = m.cons.empty() ? string{} : m.cons.front().entry;
        for (size_t i = 0; i + 1 < got.size(); ++i)
            if (got[i] == got[i + 1])
                c.fail(what + ": solution " + show(got[i]) + " was given more than once", key);
        auto e = expected;
        std::sort(e.begin(), e.end());
        for (auto & g : got)
            if (! std::binary_search(e.begin(), e.end(), g))
                c.fail(what + ": gave " + show(g) + ", which is not a solution", key);
        for (auto & x : e)
            if (! std::binary_search(got.begin(), got.end(), x))
                c.fail(what + ": never gave the solution " + show(x) + " (" + std::to_string(got.size()) + " of " + std::to_string(e.size()) + " given)",
                    key);
        if (! o.completed)
            c.fail(what + ": the search never said it had completed", key);
        if (o.stats.solutions != expected.size())
            c.fail(what + ": the statistics count " + std::to_string(o.stats.solutions) + " solutions, of " + std::to_string(expected.size()), key);
    }

    auto level_applies(const Model & m) -> bool
    {
        if (m.cons.size() != 1)
            return false;
        std::set<int> seen;
        // going through each combination of values of the variables, a repeated one is still only one
        static const std::set<string> once{"plus", "minus", "multiply", "square", "divide", "modulus"};
        bool repeats = m.cons.front().repeats || m.cons.front().variant().level == Level::Full && once.contains(m.cons.front().entry);
        for (auto & o : m.cons.front().scope)
            if (o.var < 0) {
                if (m.cons.front().variant().level != Level::Full && ! m.cons.front().repeats)
                    return false;
            }
            else if (! seen.insert(o.var).second && ! repeats)
                return false;
        return true;
    }

    auto any_repeated(const Cons & k) -> bool
    {
        std::set<int> seen;
        for (auto & o : k.scope)
            if (o.var >= 0 && ! seen.insert(o.var).second)
                return true;
        return false;
    }

    auto check_undone(pbt::Case & c, const Cons & k, const CurrentState & s, const Env & e) -> void
    {
        vector<Dom> ds;
        for (auto & o : k.scope) {
            Dom d;
            if (o.var < 0)
                d.push_back(o.off);
            else
                for (auto v : s.each_value(e.base[o.var]))
                    d.push_back((o.neg ? -v.raw_value : v.raw_value) + o.off);
            std::sort(d.begin(), d.end());
            ds.push_back(std::move(d));
        }
        if (auto why = k.undone(ds, k.variant().name)) {
            for (size_t i = 0; i < ds.size(); ++i)
                if (ds[i].size() < 60)
                    *why += "; " + k.scope[i].text() + " in " + mdl::text(ds[i]);
            c.fail(*why, "level " + k.entry);
        }
    }

    auto check_level(pbt::Case & c, const Model & m, const vector<Asg> & solutions, const CurrentState & s, const Env & e) -> void
    {
        auto & k = m.cons.front();
        auto & var = k.variant();
        if (var.level == Level::None)
            return;
        vector<const Asg *> alive;
        vector<Asg> box;
        if (var.level == Level::Full) {
            for (auto & a : solutions) {
                bool ok = true;
                for (auto & o : k.scope)
                    ok = ok && (o.var < 0 || s.in_domain(e.base[o.var], I(a[o.var])));
                if (ok)
                    alive.push_back(&a);
            }
        }
        else {
            // every assignment within the bounds, whether or not within the domains
            Model hull;
            for (size_t i = 0; i < m.doms.size(); ++i) {
                auto b = e.base[i];
                Dom d;
                for (auto v = s.lower_bound(b); v <= s.upper_bound(b); ++v)
                    d.push_back(v.raw_value);
                hull.doms.push_back(d);
            }
            if (hull.product() > 3000)
                return;
            hull.each_assignment([&](const Asg & a) {
                if (k.holds(a))
                    box.push_back(a);
                return true;
            });
            for (auto & a : box)
                alive.push_back(&a);
        }
        for (auto & o : var.level_ops.empty() ? k.scope : var.level_ops) {
            if (o.var < 0)
                continue;
            auto b = e.base[o.var];
            std::set<LL> supported;
            for (auto a : alive)
                supported.insert((*a)[o.var]);
            auto need = [&](Integer v) {
                if (! supported.contains(v.raw_value)) {
                    string dump;
                    for (auto & q : k.scope) {
                        if (q.var < 0)
                            continue;
                        dump += " v" + std::to_string(q.var) + "={";
                        for (auto w : s.each_value(e.base[q.var]))
                            dump += std::to_string(w.raw_value) + ",";
                        dump += "}";
                    }
                    c.fail("v" + std::to_string(o.var) + " kept " + std::to_string(v.raw_value) + ", which no solution within the domains supports:" + dump,
                        "level " + k.entry);
                }
            };
            if (var.level == Level::Full)
                for (auto v : s.each_value(b))
                    need(v);
            else {
                need(s.lower_bound(b));
                need(s.upper_bound(b));
            }
        }
    }
}

// The vocabulary models are written in: views, constants, conditions, literals,
// linear expressions and their tidying, array handles, constraint identities.
// Everything is compared by *value under an assignment*, in 128 bit arithmetic,
// so a different but equivalent representation is never reported.
#include "engine/pbt.hh"

#include <gcs/array_param.hh>
#include <gcs/constraint_id.hh>
#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/constraints/innards/task_presence.hh>
#include <gcs/constraints/linear/utils.hh>
#include <gcs/exception.hh>
#include <gcs/expression.hh>
#include <gcs/innards/literal.hh>
#include <gcs/innards/variable_id_utils.hh>
#include <gcs/variable_condition.hh>
#include <gcs/variable_id.hh>

#include <algorithm>
#include <cstring>
#include <limits>
#include <list>
#include <map>
#include <optional>

using namespace gcs;
using namespace gcs::innards;
using pbt::Case;
using std::map;
using std::nullopt;
using std::optional;
using std::pair;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    using i128 = __int128;
    constexpr long long LMIN = std::numeric_limits<long long>::min();
    constexpr long long LMAX = std::numeric_limits<long long>::max();

    auto str(i128 v) -> string
    {
        if (v == 0)
            return "0";
        bool neg = v < 0;
        string s;
        while (v != 0) {
            s.insert(s.begin(), static_cast<char>('0' + (neg ? -(v % 10) : v % 10)));
            v /= 10;
        }
        return (neg ? "-" : "") + s;
    }

    auto fits(i128 v) -> bool
    {
        return v >= LMIN && v <= LMAX;
    }

    using Assignment = map<unsigned long long, long long>;

    struct IsOverflow
    {
    };

    // What a handle is worth when its variable takes the given value.
    auto value(const IntegerVariableID & v, const Assignment & a) -> i128
    {
        if (auto s = std::get_if<SimpleIntegerVariableID>(&v))
            return a.at(s->index);
        if (auto w = std::get_if<ViewOfIntegerVariableID>(&v))
            return (w->negate_first ? -i128{a.at(w->actual_variable.index)} : i128{a.at(w->actual_variable.index)}) + w->then_add.raw_value;
        return std::get<ConstantIntegerVariableID>(v).const_value.raw_value;
    }

    // A handle together with what it ought to mean.
    struct Meaning
    {
        bool constant = false;
        unsigned long long var = 0;
        bool neg = false;
        i128 offset = 0;

        auto at(const Assignment & a) const -> i128
        {
            return constant ? offset : (neg ? -i128{a.at(var)} : i128{a.at(var)}) + offset;
        }
        auto operator<=>(const Meaning &) const = default;
    };

    auto describe(const Meaning & m) -> string
    {
        return m.constant ? "const " + str(m.offset) : string(m.neg ? "-" : "") + "x" + to_string(m.var) + "+" + str(m.offset);
    }

    constexpr unsigned long long VARS = 4;

    auto assignment(Case & c, bool small = false) -> Assignment
    {
        Assignment a;
        for (unsigned long long i = 0; i < VARS; ++i)
            a[i] = small ? c.around_zero(-1'000'000, 1'000'000) : c.any_long();
        return a;
    }

    auto offset(Case & c, bool small) -> long long
    {
        return (small || c.chance(3, 4)) ? c.around_zero(-3, 3) : c.any_long();
    }

    // A variable, view or constant made with the public operators; checks each step on the way.
    auto gen_var(Case & c, bool small, const vector<Assignment> & as) -> pair<IntegerVariableID, Meaning>
    {
        Meaning m;
        IntegerVariableID v = SimpleIntegerVariableID{0};
        if (c.chance(1, 5)) {
            m.constant = true;
            auto k = offset(c, small);
            m.offset = k;
            switch (c.draw(2)) {
            case 0: v = constant_variable(Integer{k}); break;
            case 1: v = ConstantIntegerVariableID{Integer{k}}; break;
            default:
                if (k >= 0)
                    v = operator""_c(static_cast<unsigned long long>(k));
                else if (k == LMIN)
                    v = constant_variable(Integer{k});
                else
                    v = -operator""_c(static_cast<unsigned long long>(-k));
            }
        }
        else {
            m.var = c.draw(VARS - 1);
            v = SimpleIntegerVariableID{m.var};
        }
        auto steps = c.weighted({3, 3, 3, 2, 2, 1});
        for (std::size_t i = 0; i < steps; ++i) {
            auto before = m;
            string what;
            try {
                switch (c.draw(2)) {
                case 0: {
                    auto k = offset(c, small);
                    what = " + " + to_string(k);
                    m.offset += k;
                    v = v + Integer{k};
                    break;
                }
                case 1: {
                    auto k = offset(c, small);
                    what = " - " + to_string(k);
                    m.offset -= k;
                    v = v - Integer{k};
                    break;
                }
                default:
                    what = " negated";
                    m.neg = ! m.neg;
                    m.offset = -m.offset;
                    v = -v;
                    break;
                }
            }
            catch (const IntegerOverflow &) {
                c.label("overflow");
                c.expect(! fits(m.offset), describe(before) + what + " was reported as an overflow");
                m = before;
                continue;
            }
            c.expect(fits(m.offset), describe(before) + what + " is out of range but was not reported");
            for (auto & a : as)
                c.expect(value(v, a) == m.at(a), describe(before) + what + " is worth " + str(value(v, a)) + " rather than " + str(m.at(a)));
            c.expect(is_constant_variable(v) == m.constant, "is_constant_variable is wrong after " + describe(before) + what);
        }
        if (m.constant)
            m.neg = false;
        return {v, m};
    }

    auto two(Case & c, bool small) -> vector<Assignment>
    {
        vector<Assignment> as;
        for (int i = 0; i < 2; ++i)
            as.push_back(assignment(c, small));
        return as;
    }

    auto views(Case & c) -> void
    {
        auto as = two(c, false);
        // distinct variables must be told apart even if the assignments happen to agree
        as.push_back({});
        for (unsigned long long i = 0; i < VARS; ++i)
            as.back()[i] = static_cast<long long>(1) << (10 * i + 5);
        bool small = c.chance(1, 2);
        vector<pair<IntegerVariableID, Meaning>> vs;
        auto n = 2 + c.draw(2);
        for (unsigned i = 0; i < n; ++i)
            vs.push_back(gen_var(c, small, as));
        for (auto & [v, m] : vs) {
            c.note() << describe(m) << "; ";
            auto zero = v + 0_i;
            c.expect(zero == v || std::holds_alternative<ViewOfIntegerVariableID>(v), "adding zero to " + describe(m) + " does not give the variable itself");
            if (m.constant) {
                c.expect(constant_value_of(v) == Integer{static_cast<long long>(m.offset)}, "constant_value_of");
            }
            else {
                bool threw = false;
                try {
                    (void)constant_value_of(v);
                }
                catch (const std::bad_variant_access &) {
                    threw = true;
                }
                c.expect(threw, "constant_value_of accepted a variable");
            }
            auto f = affine_of(v);
            c.expect(f.var.has_value() == ! m.constant, "affine_of: variable presence");
            for (auto & a : as)
                c.expect((f.var ? i128{f.coeff.raw_value} * a.at(f.var->index) : i128{0}) + f.offset.raw_value == m.at(a), "affine_of " + describe(m));
        }
        // identity: same handle, same hash, same text; different meaning, different handle and text
        for (auto & [v, m] : vs)
            for (auto & [w, k] : vs) {
                if (m != k) {
                    c.expect(v != w, "handles of different meaning compare equal: " + describe(m) + " and " + describe(k));
                    c.expect(debug_string(v) != debug_string(w), "debug_string is the same for " + describe(m) + " and " + describe(k));
                }
                else
                    c.label("same meaning");
                if (v == w)
                    c.expect(std::hash<IntegerVariableID>{}(v) == std::hash<IntegerVariableID>{}(w), "equal handles hash differently");
                c.expect((v < w) + (w < v) + (v == w) == 1, "handles are not totally ordered");
                for (auto & [x, _] : vs)
                    if (v < w && w < x)
                        c.expect(v < x, "the order of handles is not transitive");
            }
        // homogeneous views of a list
        vector<IntegerVariableID> list;
        auto len = c.draw(4);
        bool same_kind = c.chance(1, 2);
        for (unsigned i = 0; i < len; ++i) {
            auto v = c.pick(vs).first;
            if (! same_kind || list.empty() || list.front().index() == v.index())
                list.push_back(v);
        }
        bool uniform = ! list.empty() && std::all_of(list.begin(), list.end(), [&](auto & v) { return v.index() == list.front().index(); });
        auto h = as_homogeneous(list);
        c.expect((h.index() != 3) == uniform, "as_homogeneous: wrong kind");
        std::visit(
            [&](const auto & got) {
                c.expect(got.size() == list.size(), "as_homogeneous: length");
                for (std::size_t i = 0; i < got.size(); ++i)
                    c.expect(IntegerVariableID{got[i]} == list[i], "as_homogeneous: element");
            },
            h);
        vector<Integer> ks;
        for (unsigned i = 0; i < len; ++i)
            ks.push_back(Integer{c.any_long()});
        auto cs = as_constant_variables(ks);
        c.expect(cs.size() == ks.size(), "as_constant_variables: length");
        for (std::size_t i = 0; i < ks.size(); ++i)
            c.expect(is_constant_variable(cs[i]) && constant_value_of(cs[i]) == ks[i], "as_constant_variables: element");
        for (auto & [_, m] : vs)
            if (! m.constant && (m.neg || m.offset != 0))
                c.nontrivial();
    }

    template <typename V_>
    auto holds(const VariableConditionFrom<V_> & cond, const Assignment & a) -> bool
    {
        auto v = value(IntegerVariableID{cond.var}, a);
        switch (cond.op) {
            using enum VariableConditionOperator;
        case Equal: return v == cond.value.raw_value;
        case NotEqual: return v != cond.value.raw_value;
        case Less: return v < cond.value.raw_value;
        case GreaterEqual: return v >= cond.value.raw_value;
        case InRange: return v >= cond.value.raw_value && v <= cond.upper_value.raw_value;
        case NotInRange: return v < cond.value.raw_value || v > cond.upper_value.raw_value;
        }
        return false;
    }

    template <typename V_>
    auto one_condition(Case & c, const V_ & v, const Meaning & m, long long k, long long k2, unsigned op, const vector<Assignment> & as) -> void
    {
        static const char * names[] = {"==", "!=", "<", ">=", "<=", ">", "in_range", "not_in_range"};
        auto what = describe(m) + " " + names[op] + " " + to_string(k) + (op >= 6 ? ".." + to_string(k2) : "");
        c.note() << what << "; ";
        optional<VariableConditionFrom<V_>> cond;
        auto K = Integer{k}, K2 = Integer{k2};
        try {
            switch (op) {
            case 0: cond = (v == K); break;
            case 1: cond = (v != K); break;
            case 2: cond = (v < K); break;
            case 3: cond = (v >= K); break;
            case 4: cond = (v <= K); break;
            case 5: cond = (v > K); break;
            case 6: cond = in_range(v, K, K2); break;
            default: cond = not_in_range(v, K, K2); break;
            }
        }
        catch (const IntegerOverflow &) {
            c.expect((op == 4 || op == 5) && k == LMAX, what + " was reported as an overflow");
            c.label("overflow");
            return;
        }
        catch (const InvalidProblemDefinitionException &) {
            c.expect(op >= 6 && k > k2, what + " was rejected");
            c.label("empty range");
            return;
        }
        c.expect(! (op >= 6 && k > k2), what + " was accepted");
        IntegerVariableCondition general = *cond;
        auto complement = ! *cond;
        auto again = ! complement;
        Literal lit{general};
        auto nlit = ! lit;
        for (auto & a : as) {
            auto x = m.at(a);
            bool want = false;
            switch (op) {
            case 0: want = x == k; break;
            case 1: want = x != k; break;
            case 2: want = x < k; break;
            case 3: want = x >= k; break;
            case 4: want = x <= k; break;
            case 5: want = x > k; break;
            case 6: want = x >= k && x <= k2; break;
            default: want = x < k || x > k2; break;
            }
            c.label(want ? "holds" : "does not hold");
            auto at = " when the variable is " + str(x);
            c.expect(holds(*cond, a) == want, what + " means something else" + at);
            c.expect(holds(general, a) == want, what + " changes when its variable type is widened" + at);
            c.expect(holds(complement, a) == ! want, "the negation of " + what + " is not its complement" + at);
            c.expect(holds(again, a) == want, "the double negation of " + what + " differs" + at);
            auto * n = std::get_if<IntegerVariableCondition>(&nlit);
            c.expect(n && holds(*n, a) == ! want, "the negated literal of " + what + " is not its complement" + at);
            auto known = is_literally_true_or_false(lit), nknown = is_literally_true_or_false(nlit);
            if (m.constant) {
                c.expect(known == optional{want} && nknown == optional{! want}, "is_literally_true_or_false of " + what);
                c.expect(is_literally_true(lit) == want && is_literally_false(lit) == ! want, "is_literally_true / false of " + what);
            }
            else {
                c.expect(! known && ! nknown, "a condition on a variable claims to be fixed: " + what);
                c.expect(! is_literally_true(lit) && ! is_literally_false(lit), "a condition on a variable claims to be fixed: " + what);
            }
        }
        c.expect(*cond == *cond && again == *cond, "a condition's double negation compares different: " + what);
        c.expect(debug_string(lit) != debug_string(nlit), "a literal and its negation have the same text: " + what);
        if (op >= 6 && k == k2)
            c.expect(*cond == (op == 6 ? (v == K) : (v != K)), "a range of one value is not the (dis)equality: " + what);
        c.nontrivial();
    }

    auto conditions(Case & c) -> void
    {
        vector<Assignment> as{assignment(c, true), assignment(c, false)};
        auto [v, m] = gen_var(c, c.chance(2, 3), as);
        // constants near the value the variable takes, so that both outcomes are common
        long long k = c.any_long();
        auto near = m.at(as[c.draw(1)]) + c.around_zero(-2, 2);
        if (c.chance(4, 5) && fits(near))
            k = static_cast<long long>(near);
        long long k2 = c.any_long();
        auto near2 = i128{k} + c.around_zero(-1, 4);
        if (c.chance(4, 5) && fits(near2))
            k2 = static_cast<long long>(near2);
        auto op = static_cast<unsigned>(c.draw(7));
        // and one value on, above and below each end of the condition, whatever it is
        if (! m.constant)
            for (i128 target : {i128{k} - 1, i128{k}, i128{k} + 1, i128{k2} - 1, i128{k2}, i128{k2} + 1}) {
                auto x = m.neg ? m.offset - target : target - m.offset;
                if (fits(x)) {
                    as.push_back(as[0]);
                    as.back()[m.var] = static_cast<long long>(x);
                }
            }
        one_condition<IntegerVariableID>(c, v, m, k, k2, op, as);
        std::visit([&, &m = m](const auto & w) { one_condition(c, w, m, k, k2, op, as); }, v);
        c.expect(is_literally_true(Literal{TrueLiteral{}}) && is_literally_false(Literal{FalseLiteral{}}), "the fixed literals");
        c.expect(is_literally_true(! Literal{FalseLiteral{}}) && is_literally_false(! Literal{TrueLiteral{}}), "negating the fixed literals");
    }

    struct Term
    {
        long long coeff;
        IntegerVariableID var;
        Meaning m;
    };

    auto gen_terms(Case & c, bool small, std::size_t max, const vector<Assignment> & as) -> vector<Term>
    {
        vector<Term> ts;
        auto n = c.draw(max);
        auto style = c.draw(2);
        for (unsigned i = 0; i < n; ++i) {
            auto [v, m] = gen_var(c, small, as);
            long long k;
            if (style == 0)
                k = 1;
            else if (style == 1)
                k = c.chance(1, 2) ? 1 : -1;
            else
                k = small || c.chance(3, 4) ? c.around_zero(-4, 4) : c.any_long();
            // keep the exact sum within 128 bits
            if (m.offset > (i128{1} << 40) || m.offset < -(i128{1} << 40))
                k %= 1LL << 40;
            ts.push_back(Term{k, v, m});
        }
        return ts;
    }

    auto text(const vector<Term> & ts) -> string
    {
        string s = "0";
        for (auto & t : ts)
            s += " + " + to_string(t.coeff) + "*(" + describe(t.m) + ")";
        return s;
    }

    auto sum(const vector<Term> & ts, const Assignment & a) -> i128
    {
        i128 r = 0;
        for (auto & t : ts)
            r += i128{t.coeff} * t.m.at(a);
        return r;
    }

    auto sum(const WeightedSum & ws, const Assignment & a) -> i128
    {
        i128 r = 0;
        for (auto & [k, v] : ws.terms)
            r += i128{k.raw_value} * value(v, a);
        return r;
    }

    auto expressions(Case & c) -> void
    {
        auto as = two(c, true);
        as.push_back(assignment(c, true));
        bool small = c.chance(2, 3);
        auto ts = gen_terms(c, small, 5, as);
        auto rhs_terms = gen_terms(c, small, 1, as);
        long long k = c.chance(1, 8) ? c.any_long() : c.around_zero(-6, 6);
        auto near = sum(ts, as[0]) + c.around_zero(-1, 1);
        if (c.chance(2, 3) && fits(near))
            k = static_cast<long long>(near);

        WeightedSum ws;
        for (auto & t : ts)
            if (c.chance(1, 2))
                ws = ws + Integer{t.coeff} * t.var;
            else
                std::visit([&](const auto & v) { ws += Integer{t.coeff} * v; }, t.var);

        auto op = c.draw(2);
        bool has_min = std::any_of(ts.begin(), ts.end(), [](auto & t) { return t.coeff == LMIN; }) || k == LMIN ||
            (! rhs_terms.empty() && rhs_terms[0].coeff == LMIN);
        static const char * names[] = {" <= ", " >= ", " == "};
        auto what = text(ts) + names[op] + (rhs_terms.empty() ? to_string(k) : text(rhs_terms));
        c.note() << what;
        try {
            if (op == 2) {
                auto eq = rhs_terms.empty() ? ws == Integer{k} : ws == Integer{rhs_terms[0].coeff} * rhs_terms[0].var;
                for (auto & a : as) {
                    auto want = sum(ts, a) == (rhs_terms.empty() ? i128{k} : sum(rhs_terms, a));
                    auto got = sum(eq.lhs, a) == eq.rhs.raw_value;
                    c.label(want ? "holds" : "does not hold");
                    c.expect(got == want, what + " means something else");
                }
            }
            else {
                auto make = [&]() {
                    if (rhs_terms.empty())
                        return op == 0 ? ws <= Integer{k} : ws >= Integer{k};
                    return op == 0 ? ws <= Integer{rhs_terms[0].coeff} * rhs_terms[0].var : ws >= Integer{rhs_terms[0].coeff} * rhs_terms[0].var;
                };
                auto ineq = make();
                auto truth = [&](const auto & i, const Assignment & a) { return sum(i.lhs, a) <= i.rhs.raw_value; };
                for (auto & a : as) {
                    auto r = rhs_terms.empty() ? i128{k} : sum(rhs_terms, a);
                    auto want = op == 0 ? sum(ts, a) <= r : sum(ts, a) >= r;
                    c.label(want ? "holds" : "does not hold");
                    c.expect(truth(ineq, a) == want, what + " means something else");
                }
                for (auto & t : ineq.lhs.terms)
                    has_min = has_min || t.coefficient.raw_value == LMIN;
                has_min = has_min || ineq.rhs.raw_value == LMIN;
                auto neg = negate_inequality(ineq);
                for (auto & a : as)
                    c.expect(truth(neg, a) != truth(ineq, a), "the negation of " + what + " is not its complement");
            }
        }
        catch (const IntegerOverflow &) {
            c.label("overflow");
            c.expect(has_min, what + " was reported as an overflow");
        }
        c.nontrivial();
    }

    auto tidy(Case & c) -> void
    {
        auto as = two(c, true);
        as.push_back(assignment(c, true));
        bool small = c.chance(2, 3);
        auto ts = gen_terms(c, small, 8, as);
        if (! ts.empty() && c.chance(1, 2)) { // cancel something
            auto t = c.pick(ts);
            if (t.coeff != LMIN) {
                t.coeff = -t.coeff;
                ts.push_back(t);
            }
        }
        auto what = text(ts);
        c.note() << what;
        WeightedSum ws;
        i128 big = 0;
        for (auto & t : ts) {
            ws += Integer{t.coeff} * t.var;
            auto mag = [](i128 v) { return v < 0 ? -v : v; };
            // magnitudes add up to at least as much as any partial sum of them
            big += t.m.constant || t.m.offset != 0 ? mag(i128{t.coeff} * t.m.offset) : 0;
            big += mag(t.coeff);
            if (big > (i128{1} << 100))
                big = i128{1} << 100;
        }
        try {
            auto [tidied, modifier] = tidy_up_linear(ws);
            map<unsigned long long, i128> coeffs;
            vector<pair<unsigned long long, i128>> got;
            for (auto & t : ts)
                if (! t.m.constant)
                    coeffs[t.m.var] += i128{t.m.neg ? -1 : 1} * t.coeff;
            std::erase_if(coeffs, [](auto & p) { return p.second == 0; });
            std::visit(
                [&](const auto & s) {
                    for (auto & t : s.terms)
                        got.emplace_back(get_var(t).index, get_coeff(t).raw_value);
                },
                tidied);
            for (auto & a : as) {
                i128 s = 0;
                for (auto & [v, k] : got)
                    s += k * a.at(v);
                c.expect(s - modifier.raw_value == sum(ts, a), what + " does not keep its value when tidied");
            }
            for (std::size_t i = 0; i + 1 < got.size(); ++i)
                c.expect(got[i].first != got[i + 1].first, what + ": a variable appears twice after tidying");
            c.expect(got.size() == coeffs.size(), what + ": wrong number of terms after tidying");
            for (auto & [v, k] : got)
                c.expect(k != 0 && coeffs.contains(v) && coeffs.at(v) == k, what + ": wrong coefficient after tidying");
            bool ones = true, units = true;
            for (auto & [_, k] : coeffs) {
                ones = ones && k == 1;
                units = units && (k == 1 || k == -1);
            }
            c.label(ones ? "all ones" : units ? "units" : "weighted");
            c.expect(tidied.index() == (ones ? 0 : units ? 1 : 2), what + ": wrong classification");
            if (coeffs.size() < ts.size())
                c.label("merged");
        }
        catch (const IntegerOverflow &) {
            c.label("overflow");
            c.expect(big > LMAX, what + " was reported as an overflow");
        }
        if (ts.size() > 1)
            c.nontrivial();
    }

    // Handles on array data: what they read, what they own, and when it goes.
    auto arrays(Case & c) -> void
    {
        using Handle = VectorArrayParam<long long>;
        struct Entry
        {
            Handle h;
            std::size_t source; // which data
        };
        struct Source
        {
            vector<long long> expect;
            std::shared_ptr<const vector<long long>> shared; // the caller's own share, if it still has one
            std::weak_ptr<const vector<long long>> watch;
            std::unique_ptr<vector<long long>> lent;
            bool is_shared = false;
            const vector<long long> * at = nullptr;
        };
        std::list<Source> sources;
        vector<Source *> byix;
        vector<Entry> live;
        auto data = [&]() {
            vector<long long> d;
            auto n = c.draw(5);
            for (unsigned i = 0; i < n; ++i)
                d.push_back(c.around_zero(-9, 9));
            return d;
        };
        auto steps = 3 + c.draw(12);
        for (unsigned s = 0; s < steps; ++s) {
            auto op = c.weighted({2, 1, 2, 2, 3, 2, 2, 1});
            if (op <= 3) {
                sources.emplace_back();
                auto & src = sources.back();
                byix.push_back(&src);
                src.expect = data();
                if (op == 0) {
                    auto d = src.expect;
                    auto where = d.data();
                    Handle h{std::move(d)};
                    c.expect(src.expect.empty() || (*h).data() == where, "owned data was copied rather than moved");
                    c.note() << "own ";
                    src.at = &*h;
                    live.push_back({h, byix.size() - 1});
                }
                else if (op == 1) {
                    src.expect = {c.around_zero(-9, 9), c.around_zero(-9, 9), c.around_zero(-9, 9)};
                    Handle h{src.expect[0], src.expect[1], src.expect[2]};
                    c.note() << "list ";
                    src.at = &*h;
                    live.push_back({h, byix.size() - 1});
                }
                else if (op == 2) {
                    src.shared = std::make_shared<const vector<long long>>(src.expect);
                    src.watch = src.shared;
                    src.is_shared = true;
                    src.at = src.shared.get();
                    c.note() << "share ";
                    live.push_back({Handle{src.shared}, byix.size() - 1});
                }
                else {
                    src.lent = std::make_unique<vector<long long>>(src.expect);
                    src.at = src.lent.get();
                    c.note() << "lend ";
                    live.push_back({Handle{static_cast<const vector<long long> *>(src.lent.get())}, byix.size() - 1});
                }
            }
            else if (op == 4 && ! live.empty()) {
                auto e = c.pick(live);
                c.note() << "copy ";
                live.push_back(e);
                c.nontrivial();
            }
            else if (op == 5 && ! live.empty()) {
                c.note() << "drop ";
                live.erase(live.begin() + static_cast<long>(c.draw(live.size() - 1)));
            }
            else if (op == 6 && ! byix.empty()) {
                auto & src = *c.pick(byix);
                if (src.is_shared && src.shared) {
                    c.note() << "release ";
                    src.shared.reset();
                }
                else if (src.lent && ! src.lent->empty()) {
                    c.note() << "write ";
                    (*src.lent)[0] = src.expect[0] = c.around_zero(-9, 9);
                }
            }
            else if (op == 7 && live.size() >= 2) {
                c.note() << "assign ";
                auto i = c.draw(live.size() - 1), j = c.draw(live.size() - 1);
                live[i] = live[j];
            }
            for (auto & e : live) {
                auto & src = *byix[e.source];
                c.expect(&*e.h == src.at && e.h.operator->() == src.at, "a handle no longer reads the data it was given");
                c.expect(*e.h == src.expect && e.h->size() == src.expect.size(), "a handle reads the wrong values");
            }
            for (std::size_t i = 0; i < byix.size(); ++i) {
                auto & src = *byix[i];
                if (! src.is_shared)
                    continue;
                auto users = std::count_if(live.begin(), live.end(), [&](auto & e) { return e.source == i; });
                c.expect(src.watch.use_count() == users + (src.shared ? 1 : 0), "a shared array has the wrong number of owners");
            }
        }
        // handles on lent storage own nothing: dropping them all leaves it alone
        live.clear();
        for (auto & src : sources)
            if (src.lent)
                c.expect(*src.lent == src.expect, "lent storage was changed");
    }

    auto identities(Case & c) -> void
    {
        // constraint identities
        vector<string> names{"a", "b", "ab", "", "_1", "unnamed", "alldiff"};
        std::list<string> storage;
        struct Id
        {
            unsigned kind;
            unsigned long long n;
            string s;
            auto operator<=>(const Id &) const = default;
        };
        vector<pair<ConstraintID, Id>> ids;
        auto count = 2 + c.draw(2);
        for (unsigned i = 0; i < count; ++i) {
            Id id{static_cast<unsigned>(c.draw(2)), 0, ""};
            if (id.kind == 0)
                ids.emplace_back(CurrentlyUnnamedConstraint{}, id);
            else if (id.kind == 1) {
                id.n = c.chance(1, 2) ? c.draw(3) : static_cast<unsigned long long>(c.any_long());
                ids.emplace_back(NumberedConstraint{id.n}, id);
            }
            else {
                id.s = c.pick(names);
                storage.push_back(id.s);
                ids.emplace_back(NamedConstraint{storage.back()}, id);
            }
        }
        for (auto & [x, a] : ids) {
            auto want = a.kind == 0 ? string{"unnamed"} : a.kind == 1 ? "_" + to_string(a.n) : a.s;
            c.note() << "'" << want << "' ";
            c.expect(as_string(x) == want, "a constraint is called '" + as_string(x) + "' rather than '" + want + "'");
            c.expect(std::format("{}", x) == want, "a formatted constraint identity");
            for (auto & [y, b] : ids) {
                c.expect((x == y) == (a == b), "constraint identities compare wrongly: '" + as_string(x) + "' and '" + as_string(y) + "'");
                c.expect((x < y) + (y < x) + (x == y) == 1, "constraint identities are not totally ordered");
                for (auto & [z, _] : ids)
                    if (x < y && y < z)
                        c.expect(x < z, "the order of constraint identities is not transitive");
            }
        }

        // optional tasks
        optional<IntegerVariableID> posted;
        auto kind = c.draw(2);
        auto k = c.chance(2, 3) ? c.around_zero(-2, 3) : c.any_long();
        if (kind == 1)
            posted = ConstantIntegerVariableID{Integer{k}};
        else if (kind == 2)
            posted = gen_var(c, true, {}).first;
        if (posted && is_constant_variable(*posted))
            k = constant_value_of(*posted).raw_value;
        string name{c.pick(names) + "Cumulative"};
        try {
            auto p = task_presence(posted, name);
            if (! posted) {
                c.expect(! p.literal && ! p.never_present, "a task posted without a presence is not unconditionally present");
            }
            else if (! is_constant_variable(*posted)) {
                c.expect(p.literal == posted && ! p.never_present, "a task's presence variable was not kept");
            }
            else {
                c.expect(k == 0 || k == 1, "a presence that is constantly " + to_string(k) + " was accepted");
                if (k == 1) {
                    c.expect(! p.literal && ! p.never_present, "a task that is constantly present is not unconditionally present");
                }
                else
                    c.expect(p.never_present, "a task that is constantly absent is not");
            }
        }
        catch (const InvalidProblemDefinitionException & e) {
            c.expect(posted && is_constant_variable(*posted) && k != 0 && k != 1, "a valid presence was rejected");
            c.expect(string{e.what()}.contains(name), "the rejection of a presence does not name the constraint");
            c.label("presence rejected");
        }

        // exceptions say what they were told
        auto msg = c.pick(names) + " {} %s " + to_string(k);
        auto says = [&](const std::exception & e, const string & prefix) {
            c.expect(string{e.what()}.starts_with(prefix) && string{e.what()}.contains(msg), string{"an exception says '"} + e.what() + "'");
            auto keep = string{e.what()};
            c.expect(keep == e.what(), "an exception's text changed");
        };
        try {
            if (c.chance(1, 2))
                throw InvalidProblemDefinitionException{msg};
            throw UnexpectedException{msg};
        }
        catch (const InvalidProblemDefinitionException & e) {
            says(e, "invalid problem definition: ");
        }
        catch (const MessageException & e) {
            c.expect(dynamic_cast<const UnexpectedException *>(&e), "wrong exception type");
            says(e, "unexpected problem: ");
        }
        try {
            throw UnimplementedException{msg};
        }
        catch (const UnexpectedException & e) {
            says(e, "unexpected problem: ");
        }
        c.nontrivial();
    }
}

int main(int argc, char ** argv)
{
    return pbt::main(argc, argv,
        pbt::Suite{.id = "C05",
            .rule = "Handles are built by chains of offsets and negations from variables and constants (offsets small or anywhere in 64 bits); conditions, "
                    "sums, comparisons and negations are built from them with the public operators, and each is compared with its meaning, in 128 bit "
                    "arithmetic, under several assignments chosen on and either side of the boundary. A case is non-trivial when it has a handle that is a "
                    "genuine view, a condition that could be evaluated, more than one term, or a copied array handle.",
            .properties = {{"views", 500000, 12, [](Case & c) { views(c); }}, {"conditions", 700000, 12, [](Case & c) { conditions(c); }},
                {"expressions", 500000, 12, [](Case & c) { expressions(c); }}, {"tidy", 600000, 12, [](Case & c) { tidy(c); }},
                {"arrays", 300000, 12, [](Case & c) { arrays(c); }}, {"identities", 300000, 12, [](Case & c) { identities(c); }}},
            .assumptions = {"coefficients, offsets and values are 64 bit; a reported overflow is accepted where an exact step would leave that range"}});
}

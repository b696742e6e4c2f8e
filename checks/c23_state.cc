// C23: the search state is a stack of copies: a history of inferences, guesses, epochs and backtracks, on plain
// variables, views and constants, leaves every variable with exactly the values a stack of plain sets of values
// would, every inference says exactly what it changed, every query answers from those values, and backtracking
// brings everything back.
#include <engine/pbt.hh>

#include <gcs/exception.hh>
#include <gcs/interval_set.hh>
#include <gcs/innards/state.hh>
#include <gcs/variable_condition.hh>

#include <algorithm>
#include <any>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

using namespace gcs;
using namespace gcs::innards;
using pbt::Case;
using std::any_cast;
using std::make_shared;
using std::optional;
using std::pair;
using std::set;
using std::shared_ptr;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    using LL = long long;
    using Values = set<LL>;

    // What one level of the history has: everything there is, by value
    struct Frame
    {
        vector<Values> domains;
        vector<LL> by_value;     // constraint states held by value
        vector<size_t> handles;  // which handle each of them has
        vector<size_t> callbacks; // to be called when this level goes away
    };

    struct Epoch
    {
        Timestamp t;
        size_t level; // how many frames there are once it is backtracked to
        size_t guesses;
        optional<size_t> extra;
    };

    // How an operand was written
    struct Operand
    {
        IntegerVariableID general;
        int form; // 0 simple, 1 view, 2 constant; each either as itself or as a general variable
        bool as_general;
        size_t which = 0;
        bool negate = false;
        LL add = 0;
        LL constant = 0;

        [[nodiscard]] auto value_of(LL v) const -> LL
        {
            return (negate ? -v : v) + add;
        }

        // The other way: which value of the variable shows as v
        [[nodiscard]] auto back(LL v) const -> LL
        {
            return negate ? add - v : v - add;
        }
    };

    auto I(LL v) -> Integer
    {
        return Integer{v};
    }

    auto show(const Values & v) -> string
    {
        string r = "{";
        for (auto x : v)
            r += (r.size() > 1 ? " " : "") + to_string(x);
        return r + "}";
    }

    auto show(Inference i) -> string
    {
        switch (i) {
        case Inference::NoChange: return "NoChange";
        case Inference::BoundsChanged: return "BoundsChanged";
        case Inference::InteriorValuesChanged: return "InteriorValuesChanged";
        case Inference::Instantiated: return "Instantiated";
        case Inference::Contradiction: return "Contradiction";
        }
        return "?";
    }

    enum Op
    {
        Eq,
        Ne,
        Lt,
        Ge,
        In,
        NotIn
    };

    auto holds(Op op, LL x, LL a, LL b) -> bool
    {
        switch (op) {
        case Eq: return x == a;
        case Ne: return x != a;
        case Lt: return x < a;
        case Ge: return x >= a;
        case In: return a <= x && x <= b;
        case NotIn: return ! (a <= x && x <= b);
        }
        return false;
    }

    auto op_name(Op op) -> string
    {
        return vector<string>{"==", "!=", "<", ">=", "in", "notin"}[op];
    }

    template <typename Var_>
    auto condition(const Var_ & v, Op op, LL a, LL b) -> VariableConditionFrom<Var_>
    {
        switch (op) {
        case Eq: return VariableConditionFrom<Var_>{v, VariableConditionOperator::Equal, I(a)};
        case Ne: return VariableConditionFrom<Var_>{v, VariableConditionOperator::NotEqual, I(a)};
        case Lt: return VariableConditionFrom<Var_>{v, VariableConditionOperator::Less, I(a)};
        case Ge: return VariableConditionFrom<Var_>{v, VariableConditionOperator::GreaterEqual, I(a)};
        case In: return VariableConditionFrom<Var_>{v, VariableConditionOperator::InRange, I(a), I(b)};
        case NotIn: return VariableConditionFrom<Var_>{v, VariableConditionOperator::NotInRange, I(a), I(b)};
        }
        throw 0;
    }

    template <typename Var_>
    auto infer(State & s, const Var_ & v, int how, Op op, LL a, LL b) -> Inference
    {
        if (how == 0)
            return s.infer(condition(v, op, a, b));
        if (how == 1)
            return s.infer(Literal{condition(IntegerVariableID{v}, op, a, b)});
        switch (op) {
        case Eq: return s.infer_equal(v, I(a));
        case Ne: return s.infer_not_equal(v, I(a));
        case Lt: return s.infer_less_than(v, I(a));
        case Ge: return s.infer_greater_than_or_equal(v, I(a));
        case In: return s.infer_in_range(v, I(a), I(b));
        case NotIn: return s.infer_not_in_range(v, I(a), I(b));
        }
        throw 0;
    }

    // Call f with the operand written the way it was drawn
    template <typename F_>
    auto with(const Operand & o, F_ && f)
    {
        if (o.as_general)
            return f(o.general);
        if (o.form == 0)
            return f(std::get<SimpleIntegerVariableID>(o.general));
        if (o.form == 1)
            return f(std::get<ViewOfIntegerVariableID>(o.general));
        return f(std::get<ConstantIntegerVariableID>(o.general));
    }

    struct Machine
    {
        Case & c;
        State state;
        vector<Frame> frames{1};
        vector<SimpleIntegerVariableID> ids;
        vector<ConstraintStateHandle> handles;
        vector<Epoch> epochs;
        vector<Literal> guesses;
        vector<Literal> extra;
        shared_ptr<vector<int>> called = make_shared<vector<int>>();
        vector<int> expected_calls;
        vector<pair<shared_ptr<LL>, LL>> shared; // a state held by pointer is not restored: the pointer is
        bool dead = false; // there was a contradiction on this level
        LL base;
        string trace;

        explicit Machine(Case & c) : c(c)
        {
            static const vector<LL> bases{0, 0, 0, 1000000, -1000000, 1ll << 40, -(1ll << 40)};
            base = c.pick(bases);
        }

        auto top() -> Frame &
        {
            return frames.back();
        }

        auto fail(const string & what) -> void
        {
            c.note() << "after:" << trace << "\n";
            c.fail(what);
        }

        auto near(size_t which) -> LL
        {
            const auto & d = top().domains[which];
            if (! d.empty() && c.chance(3, 4))
                return *std::next(d.begin(), static_cast<long>(c.draw(d.size() - 1))) + c.around_zero(-2, 2);
            return base + c.around_zero(-12, 40);
        }

        auto operand() -> Operand
        {
            Operand o{constant_variable(0_i), 0, c.chance(1, 2)};
            if (ids.empty() || c.chance(1, 12)) {
                o.form = 2;
                o.constant = base + c.around_zero(-3, 3);
                o.general = constant_variable(I(o.constant));
                return o;
            }
            o.which = c.draw(ids.size() - 1);
            if (c.chance(1, 2)) {
                o.general = ids[o.which];
                return o;
            }
            o.form = 1;
            o.negate = c.chance(1, 2);
            o.add = c.chance(1, 4) ? 0 : c.around_zero(-7, 7);
            o.general = ViewOfIntegerVariableID{ids[o.which], o.negate, I(o.add)};
            return o;
        }

        auto values(const Operand & o) -> Values
        {
            if (o.form == 2)
                return {o.constant};
            Values r;
            for (auto v : top().domains[o.which])
                r.insert(o.value_of(v));
            return r;
        }

        auto name(const Operand & o) -> string
        {
            if (o.form == 2)
                return to_string(o.constant);
            return (o.negate ? "-" : "") + string("x") + to_string(o.which) + (o.form == 1 ? "+" + to_string(o.add) : "") +
                (o.as_general ? "" : "'");
        }

        // Somewhere near the values of an operand
        auto argument(const Operand & o) -> LL
        {
            if (o.form == 2)
                return o.constant + c.around_zero(-2, 2);
            return o.value_of(near(o.which));
        }

        auto draw_condition(const Operand & o) -> std::tuple<Op, LL, LL>
        {
            auto op = static_cast<Op>(c.draw(5));
            auto a = argument(o), b = a;
            if (op == In || op == NotIn) {
                b = argument(o);
                if (a > b && ! c.chance(1, 10))
                    std::swap(a, b);
            }
            return {op, a, b};
        }

        auto apply(const Operand & o, Op op, LL a, LL b) -> Inference
        {
            auto before = values(o);
            Values after;
            for (auto v : before)
                if (holds(op, v, a, b))
                    after.insert(v);
            if (after.empty())
                return Inference::Contradiction;
            if (after == before)
                return Inference::NoChange;
            Values stored;
            for (auto v : after)
                stored.insert(o.back(v));
            top().domains[o.which] = stored;
            if (after.size() == 1)
                return Inference::Instantiated;
            return *after.begin() != *before.begin() || *after.rbegin() != *before.rbegin() ? Inference::BoundsChanged
                                                                                             : Inference::InteriorValuesChanged;
        }

        auto do_infer() -> void
        {
            auto o = operand();
            auto [op, a, b] = draw_condition(o);
            auto how = static_cast<int>(c.draw(2));
            // A contradiction ends what can be said about this level, so keep some for later
            auto before = top().domains;
            auto expected = apply(o, op, a, b);
            if (expected == Inference::Contradiction && frames.size() == 1) {
                top().domains = before;
                return;
            }
            trace += " " + name(o) + op_name(op) + to_string(a) + (op >= In ? ".." + to_string(b) : "");
            auto got = with(o, [&](const auto & v) { return infer(state, v, how, op, a, b); });
            c.label(show(expected));
            if (got != expected)
                fail("inferring " + name(o) + " " + op_name(op) + " " + to_string(a) + (op >= In ? ".." + to_string(b) : "") + " said " + show(got) +
                    " and should have said " + show(expected));
            if (expected == Inference::Contradiction) {
                if (o.form != 2)
                    dead = true;
            }
            else if (expected != Inference::NoChange && frames.size() > 1)
                c.nontrivial();
        }

        auto do_guess() -> void
        {
            auto o = operand();
            auto [op, a, b] = draw_condition(o);
            auto before = top().domains;
            auto expected = apply(o, op, a, b);
            if (expected == Inference::Contradiction) {
                top().domains = before;
                return;
            }
            trace += " guess:" + name(o) + op_name(op) + to_string(a) + (op >= In ? ".." + to_string(b) : "");
            Literal lit{condition(o.general, op, a, b)};
            state.guess(lit);
            guesses.push_back(lit);
            c.label("guess");
        }

        auto do_epoch() -> void
        {
            if (frames.size() >= 8)
                return;
            auto sub = c.chance(1, 4);
            trace += sub ? " sub(" : " (";
            auto t = state.new_epoch(sub);
            epochs.push_back(Epoch{t, frames.size(), guesses.size(), sub ? optional<size_t>{extra.size()} : std::nullopt});
            auto f = top();
            f.callbacks.clear();
            frames.push_back(f);
        }

        auto do_backtrack() -> void
        {
            if (epochs.empty())
                return;
            // Usually the last, sometimes several levels at once
            auto i = c.chance(3, 4) ? epochs.size() - 1 : c.draw(epochs.size() - 1);
            auto e = epochs[i];
            if (i + 1 < epochs.size())
                c.label("several levels");
            trace += " )" + to_string(epochs.size() - i);
            for (auto l = e.level; l < frames.size(); ++l)
                for (auto f : frames[l].callbacks)
                    ++expected_calls[f];
            frames.resize(e.level);
            epochs.erase(epochs.begin() + static_cast<long>(i), epochs.end());
            guesses.erase(guesses.begin() + static_cast<long>(e.guesses), guesses.end());
            if (e.extra)
                extra.erase(extra.begin() + static_cast<long>(*e.extra), extra.end());
            state.backtrack(e.t);
            ids.resize(top().domains.size(), SimpleIntegerVariableID{0});
            handles.resize(top().by_value.size(), ConstraintStateHandle{0});
            dead = false;
            if (*called != expected_calls)
                fail("backtracking did not call what was to be called exactly once");
        }

        auto do_allocate() -> void
        {
            if (ids.size() >= 6)
                return;
            auto lo = base + c.around_zero(-8, 8), hi = lo + static_cast<LL>(c.draw(c.chance(1, 6) ? 60 : 9));
            trace += " new:" + to_string(lo) + ".." + to_string(hi);
            auto next = state.what_variable_id_will_be_created_next();
            auto id = state.allocate_integer_variable_with_state(I(lo), I(hi));
            if (next != id)
                fail("the variable created was not the one that was to be created next");
            if (std::find(ids.begin(), ids.end(), id) != ids.end())
                fail("a variable that exists was created again");
            ids.push_back(id);
            Values v;
            for (auto x = lo; x <= hi; ++x)
                v.insert(x);
            top().domains.push_back(v);
        }

        auto do_constraint_state() -> void
        {
            auto & f = top();
            if (f.by_value.empty() || (f.by_value.size() < 4 && c.chance(1, 3))) {
                auto v = c.around_zero(-9, 9);
                trace += " state:" + to_string(v);
                handles.push_back(state.add_constraint_state(v));
                f.by_value.push_back(v);
            }
            else {
                auto i = c.draw(f.by_value.size() - 1);
                f.by_value[i] += c.around_zero(-3, 3);
                trace += " state" + to_string(i) + "=" + to_string(f.by_value[i]);
                any_cast<LL &>(state.get_constraint_state(handles[i])) = f.by_value[i];
                if (frames.size() > 1)
                    c.label("constraint state");
            }
        }

        auto do_callback() -> void
        {
            auto i = called->size();
            called->push_back(0);
            expected_calls.push_back(0);
            top().callbacks.push_back(i);
            trace += " call" + to_string(i);
            state.on_backtrack([called = called, i] { ++(*called)[i]; });
        }

        auto do_extra() -> void
        {
            auto o = operand();
            auto [op, a, b] = draw_condition(o);
            Literal lit{condition(o.general, op, a, b)};
            trace += " extra";
            extra.push_back(lit);
            state.add_extra_proof_condition(lit);
        }

        auto check_guesses() -> void
        {
            vector<Literal> got, want = extra;
            want.insert(want.end(), guesses.begin(), guesses.end());
            for (auto g : state.guesses())
                got.push_back(g);
            if (got != want)
                fail("the guesses are not those made on the way here");
        }

        auto check_values(const State & s, const Operand & o) -> void
        {
            auto v = values(o);
            auto lo = *v.begin(), hi = *v.rbegin();
            auto n = name(o) + ", which is " + show(v) + ",";
            auto want = [&](bool b, const string & what) {
                if (! b)
                    fail(n + " " + what);
            };
            want(s.lower_bound(o.general) == I(lo) && s.upper_bound(o.general) == I(hi), "has the wrong lower or upper bound");
            want(s.has_single_value(o.general) == (v.size() == 1), "has_single_value is wrong");
            if (v.size() == 1)
                want(s(o.general) == I(lo), "its unique value is wrong");
            else {
                auto threw = false;
                try {
                    (void)s(o.general);
                }
                catch (const VariableDoesNotHaveUniqueValue &) {
                    threw = true;
                }
                want(threw, "does not have a unique value but was said to");
            }
            auto holes = static_cast<LL>(v.size()) != hi - lo + 1;
            want(s.domain_has_holes(o.general) == holes, "domain_has_holes is wrong");
            want(s.domain_size(o.general) == I(static_cast<LL>(v.size())), "domain_size is wrong");

            with(o, [&](const auto & var) {
                want(s.bounds(var) == pair{I(lo), I(hi)}, "bounds is wrong");
                want(s.optional_single_value(var) == (v.size() == 1 ? std::make_optional(I(lo)) : std::nullopt), "optional_single_value is wrong");
                for (auto x = lo - 2; x <= hi + 2; ++x)
                    want(s.in_domain(var, I(x)) == v.contains(x), "in_domain is wrong for " + to_string(x));
                Values a, b, d, e, f;
                size_t na = 0, nb = 0;
                for (auto x : s.each_value_immutable(var))
                    a.insert(x.raw_value), ++na;
                for (auto x : s.each_value_mutable(var))
                    b.insert(x.raw_value), ++nb;
                s.for_each_value_immutable(var, [&](Integer x) { d.insert(x.raw_value); });
                s.for_each_value_mutable(var, [&](Integer x) { e.insert(x.raw_value); });
                auto copy = s.copy_of_values(var);
                for (auto x : copy.each())
                    f.insert(x.raw_value);
                want(a == v && na == v.size(), "each_value_immutable gave " + show(a));
                want(b == v && nb == v.size(), "each_value_mutable gave " + show(b));
                want(d == v, "for_each_value_immutable gave " + show(d));
                want(e == v, "for_each_value_mutable gave " + show(e));
                want(f == v && copy.lower() == I(lo) && copy.upper() == I(hi), "copy_of_values gave " + show(f));

                // Against some other set of values
                IntervalSet<Integer> other;
                auto meets = false;
                auto at = lo - 3;
                auto many = c.draw(3);
                for (size_t i = 0; i < many; ++i) {
                    at += static_cast<LL>(c.draw(6));
                    auto to = at + static_cast<LL>(c.draw(2));
                    other.insert_at_end(I(at), I(to));
                    for (auto x = at; x <= to; ++x)
                        meets = meets || v.contains(x);
                    at = to + 2;
                }
                want(s.domain_intersects_with(var, other) == meets, "domain_intersects_with is wrong");
                return 0;
            });

            auto [op, a, b] = draw_condition(o);
            size_t yes = 0;
            for (auto x : v)
                yes += holds(op, x, a, b);
            auto expected = yes == 0 ? LiteralIs::DefinitelyFalse : yes == v.size() ? LiteralIs::DefinitelyTrue : LiteralIs::Undecided;
            auto cond = condition(o.general, op, a, b);
            if (op == In || op == NotIn) {
                if (a > b)
                    return;
                want(s.test_literal(cond) == expected, "the literal " + op_name(op) + " " + to_string(a) + ".." + to_string(b) + " is misjudged");
            }
            else
                want(s.test_literal(cond) == expected, "the literal " + op_name(op) + " " + to_string(a) + " is misjudged");
            want(s.test_literal(Literal{cond}) == s.test_literal(cond), "a literal and its condition are judged differently");
        }

        auto check_pair(const State & s) -> void
        {
            auto a = operand(), b = operand();
            auto va = values(a), vb = values(b);
            auto meets = std::any_of(va.begin(), va.end(), [&](LL x) { return vb.contains(x); });
            if (s.domains_intersect(a.general, b.general) != meets)
                fail("domains_intersect is wrong for " + name(a) + " " + show(va) + " and " + name(b) + " " + show(vb));
        }

        auto check(const State & s) -> void
        {
            for (size_t i = 0; i < ids.size(); ++i) {
                Operand o{ids[i], 0, c.chance(1, 2), i};
                check_values(s, o);
                if (c.chance(1, 2)) {
                    Operand w{ViewOfIntegerVariableID{ids[i], false, 0_i}, 1, c.chance(1, 2), i, c.chance(1, 2), c.around_zero(-5, 5)};
                    w.general = ViewOfIntegerVariableID{ids[i], w.negate, I(w.add)};
                    check_values(s, w);
                }
            }
            if (c.chance(1, 6)) {
                Operand k{constant_variable(I(base + 2)), 2, c.chance(1, 2), 0, false, 0, base + 2};
                check_values(s, k);
            }
            check_pair(s);
            for (size_t i = 0; i < handles.size(); ++i)
                if (any_cast<LL>(s.get_constraint_state(handles[i])) != top().by_value[i])
                    fail("constraint state " + to_string(i) + " is not what it was set to");
            check_guesses();
            if (*called != expected_calls)
                fail("something to be called on backtracking was called at some other time");
        }

        // A clone has the same values, and neither is affected by what then happens to the other
        auto do_clone() -> void
        {
            trace += " clone";
            auto copy = state.clone();
            check_clone(copy);
            if (ids.empty())
                return;
            auto i = c.draw(ids.size() - 1);
            (void)copy.infer_equal(ids[i], I(*top().domains[i].rbegin()));
            for (size_t h = 0; h < handles.size(); ++h)
                any_cast<LL &>(copy.get_constraint_state(handles[h])) += 100;
            check(state);
            auto other = state.clone();
            auto t = state.new_epoch();
            (void)state.infer_not_equal(ids[i], I(*top().domains[i].begin()));
            if (top().domains[i].size() > 1)
                check_clone(other);
            state.backtrack(t);
            c.label("clone");
        }

        auto check_clone(const State & s) -> void
        {
            for (size_t i = 0; i < ids.size(); ++i) {
                Values got;
                for (auto x : s.each_value_immutable(ids[i]))
                    got.insert(x.raw_value);
                if (got != top().domains[i])
                    fail("the clone has x" + to_string(i) + " as " + show(got) + " and not " + show(top().domains[i]));
            }
            for (size_t i = 0; i < handles.size(); ++i)
                if (any_cast<LL>(s.get_constraint_state(handles[i])) != top().by_value[i])
                    fail("the clone has a different constraint state");
        }

        auto run() -> void
        {
            auto start = 1 + c.draw(3);
            for (size_t i = 0; i < start; ++i)
                do_allocate();
            auto steps = 3 + c.draw(40);
            for (size_t i = 0; i < steps; ++i) {
                // After a contradiction there is nothing to do but to go back
                if (dead) {
                    do_backtrack();
                    check(state);
                    continue;
                }
                switch (c.weighted({10, 4, 5, 4, 2, 3, 2, 1, 1})) {
                case 0: do_infer(); break;
                case 1: do_guess(); break;
                case 2: do_epoch(); break;
                case 3: do_backtrack(); break;
                case 4: do_allocate(); break;
                case 5: do_constraint_state(); break;
                case 6: do_callback(); break;
                case 7: do_extra(); break;
                case 8: do_clone(); break;
                }
                if (! dead)
                    check(state);
            }
            if (! epochs.empty()) {
                epochs.erase(epochs.begin() + 1, epochs.end());
                do_backtrack();
                check(state);
            }
            c.note() << "history:" << trace << "\n";
        }
    };

    // Values are given in order, and an iteration that promises to survive changes does
    auto iteration(Case & c) -> void
    {
        State s;
        auto lo = c.around_zero(-20, 20), n = static_cast<LL>(1 + c.draw(20));
        auto id = s.allocate_integer_variable_with_state(I(lo), I(lo + n - 1));
        Values v;
        for (auto x = lo; x < lo + n; ++x)
            v.insert(x);
        auto erase = c.draw(8);
        for (size_t i = 0; i < erase && v.size() > 1; ++i) {
            auto x = *std::next(v.begin(), static_cast<long>(c.draw(v.size() - 1)));
            v.erase(x);
            (void)s.infer_not_equal(id, I(x));
        }
        auto negate = c.chance(1, 2);
        auto add = c.around_zero(-9, 9);
        ViewOfIntegerVariableID view{id, negate, I(add)};
        vector<LL> want, got;
        for (auto x : v)
            want.push_back((negate ? -x : x) + add);
        auto how = c.draw(3);
        vector<LL> removed;
        auto visit = [&](Integer x) {
            got.push_back(x.raw_value);
            auto r = how >= 2 ? 0 : c.draw(2);
            if (r == 0 || v.size() < 2)
                return;
            // Take something out, behind, at, or ahead of where the iteration is
            auto y = r == 1 ? (negate ? add - x.raw_value : x.raw_value - add) : *std::next(v.begin(), static_cast<long>(c.draw(v.size() - 1)));
            if (! v.contains(y))
                return;
            v.erase(y);
            removed.push_back(y);
            if (s.infer_not_equal(id, I(y)) == Inference::Contradiction)
                c.fail("taking out " + to_string(y) + " was a contradiction");
            c.nontrivial();
        };
        if (how == 0)
            for (auto x : s.each_value_mutable(view))
                visit(x);
        else if (how == 1)
            s.for_each_value_mutable(view, visit);
        else if (how == 2)
            for (auto x : s.each_value_immutable(view))
                visit(x);
        else
            s.for_each_value_immutable(view, visit);
        if (how >= 2 && want.size() > 2)
            c.nontrivial();
        c.note() << "iterating " << (negate ? "-x+" : "x+") << add << " over " << want.size() << " values, " << removed.size() << " removed on the way\n";
        auto sorted = got;
        std::sort(sorted.begin(), sorted.end());
        std::sort(want.begin(), want.end());
        c.expect(sorted == want, "the values seen are not those there were when the iteration started");
        Values now;
        for (auto x : s.each_value_immutable(id))
            now.insert(x.raw_value);
        c.expect(now == v, "what is left is not what was not taken out");
    }
}

auto main(int argc, char ** argv) -> int
{
    pbt::Suite suite{"C23",
        "for histories, some inference changed a variable above the lowest level; for iterations, a value was removed while iterating (or at least three were visited by one that allows no changes)",
        {
            {"history", 30000, 20.0, [](Case & c) { Machine{c}.run(); }},
            {"iteration", 20000, 10.0, iteration},
        },
        3000,
        {"values stay well inside 64 bits; what overflows is C01's concern"}};
    return pbt::main(argc, argv, suite);
}

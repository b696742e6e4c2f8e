// Arithmetic constraints: their meaning on integers, and how to post them.
#include <checks/solver/model.hh>

#include <gcs/constraints/power/power_table.hh>

#include <algorithm>
#include <limits>

using namespace gcs;
using std::make_unique;
using std::optional;
using std::string;
using std::vector;

namespace mdl
{
    namespace
    {
        using I128 = __int128;

        template <typename T_>
        auto arith3(Gen & g, const string & sym, Op x, Op y, Op z, std::function<auto(LL, LL)->optional<LL>> f, bool bc_level) -> Cons
        {
            Cons k;
            k.text = z.text() + " = " + x.text() + " " + sym + " " + y.text();
            k.scope = {x, y, z};
            k.holds = [=](const Asg & a) {
                auto r = f(x.eval(a), y.eval(a));
                return r && *r == z.eval(a);
            };
            (void) g;
            k.variants = {
                {"auto", [=](const Env & e) { return mk<T_>(x.id(e), y.id(e), z.id(e)); }, bc_level ? Level::Bounds : Level::None},
                {"bc",
                    [=](const Env & e) {
                        auto c = make_unique<T_>(x.id(e), y.id(e), z.id(e));
                        c->with_consistency(consistency::BC{});
                        return c;
                    },
                    bc_level ? Level::Bounds : Level::None},
                {"tabulated",
                    [=](const Env & e) {
                        auto c = make_unique<T_>(x.id(e), y.id(e), z.id(e));
                        c->with_consistency(consistency::Tabulated{});
                        return c;
                    },
                    Level::Full},
            };
            return k;
        }

        auto gen_abs(Gen & g) -> Cons
        {
            auto x = g.op(-5, 5, false, 9), y = g.op(-1, 5, false, 6);
            Cons k;
            k.text = y.text() + " = |" + x.text() + "|";
            k.scope = {x, y};
            k.holds = [=](const Asg & a) { return y.eval(a) == std::abs(x.eval(a)); };
            k.variants = {{"", [=](const Env & e) { return mk<Abs>(x.id(e), y.id(e)); }, Level::Full}};
            return k;
        }

        auto gen_plus(Gen & g) -> Cons
        {
            auto x = g.op(-4, 6, false, 7), y = g.op(-4, 6, false, 7), z = g.op(-7, 9, false, 8);
            return arith3<Plus>(g, "+", x, y, z, [](LL a, LL b) { return optional<LL>{a + b}; }, true);
        }

        auto gen_minus(Gen & g) -> Cons
        {
            auto x = g.op(-4, 6, false, 7), y = g.op(-4, 6, false, 7), z = g.op(-8, 8, false, 8);
            return arith3<Minus>(g, "-", x, y, z, [](LL a, LL b) { return optional<LL>{a - b}; }, true);
        }

        auto gen_multiply(Gen & g) -> Cons
        {
            auto x = g.op(-5, 6, false, 7), y = g.op(-5, 6, false, 7), z = g.op(-12, 20, false, 8);
            return arith3<Multiply>(g, "*", x, y, z, [](LL a, LL b) { return optional<LL>{a * b}; }, false);
        }

        auto gen_square(Gen & g) -> Cons
        {
            auto x = g.op(-5, 6, false, 9), z = g.op(-2, 36, false, 10);
            auto y = x;
            if (g.c.chance(1, 3) && x.var >= 0)
                y = Op{x.var, ! x.neg, g.c.around_zero(-2, 2)};
            return arith3<Multiply>(g, "*", x, y, z, [](LL a, LL b) { return optional<LL>{a * b}; }, false);
        }

        auto gen_divide(Gen & g) -> Cons
        {
            auto x = g.op(-9, 12, false, 9), y = g.op(-4, 4, false, 6), z = g.op(-6, 6, false, 7);
            return arith3<Divide>(
                g, "div", x, y, z, [](LL a, LL b) { return b == 0 ? optional<LL>{} : optional<LL>{a / b}; }, false);
        }

        auto gen_modulus(Gen & g) -> Cons
        {
            auto x = g.op(-9, 12, false, 9), y = g.op(-4, 4, false, 6), z = g.op(-4, 4, false, 7);
            return arith3<Modulus>(
                g, "mod", x, y, z, [](LL a, LL b) { return b == 0 ? optional<LL>{} : optional<LL>{a % b}; }, false);
        }

        auto pow_meaning(LL b, LL n) -> optional<LL>
        {
            if (n < 0) {
                if (b == 0)
                    return std::nullopt;
                if (b == 1)
                    return 1;
                if (b == -1)
                    return n % 2 == 0 ? 1 : -1;
                return 0;
            }
            I128 r = 1;
            for (LL i = 0; i < n; ++i) {
                r *= b;
                if (r > std::numeric_limits<LL>::max() || r < std::numeric_limits<LL>::min())
                    return std::nullopt;
            }
            return static_cast<LL>(r);
        }

        auto gen_power(Gen & g) -> Cons
        {
            auto x = g.op(-4, 5, false, 7), y = g.op(-2, 4, false, 5), z = g.op(-10, 30, false, 9);
            return arith3<Power>(g, "**", x, y, z, pow_meaning, false);
        }

        auto gen_power_table(Gen & g) -> Cons
        {
            auto x = g.op(-4, 5, false, 7), y = g.op(-2, 4, false, 5), z = g.op(-10, 30, false, 9);
            Cons k;
            k.text = z.text() + " = " + x.text() + " ** " + y.text();
            k.scope = {x, y, z};
            k.holds = [=](const Asg & a) {
                auto r = pow_meaning(x.eval(a), y.eval(a));
                return r && *r == z.eval(a);
            };
            k.variants = {{"table", [=](const Env & e) { return mk<innards::PowerTable>(x.id(e), y.id(e), z.id(e)); }, Level::Full}};
            return k;
        }

        auto gen_min_max(Gen & g) -> Cons
        {
            bool min = g.c.chance(1, 2);
            auto n = g.count(1, 4);
            auto xs = g.ops(n, -3, 5, false, 5);
            auto z = g.op(-4, 6, false, 6);
            Cons k;
            k.text = z.text() + (min ? " = min " : " = max ") + text(xs);
            k.scope = xs;
            k.scope.push_back(z);
            k.holds = [=](const Asg & a) {
                auto v = eval(xs, a);
                return z.eval(a) == (min ? *std::min_element(v.begin(), v.end()) : *std::max_element(v.begin(), v.end()));
            };
            k.variants.push_back({"array",
                [=](const Env & e) -> std::unique_ptr<Constraint> {
                    if (min)
                        return mk<ArrayMin>(ids(xs, e), z.id(e));
                    return mk<ArrayMax>(ids(xs, e), z.id(e));
                },
                Level::Full});
            if (n == 2)
                k.variants.push_back({"binary",
                    [=](const Env & e) -> std::unique_ptr<Constraint> {
                        if (min)
                            return mk<Min>(xs[0].id(e), xs[1].id(e), z.id(e));
                        return mk<Max>(xs[0].id(e), xs[1].id(e), z.id(e));
                    },
                    Level::Full});
            return k;
        }
    }

    auto arithmetic_entries() -> vector<Entry>
    {
        return {{"abs", gen_abs}, {"plus", gen_plus}, {"minus", gen_minus}, {"multiply", gen_multiply}, {"square", gen_square},
            {"divide", gen_divide}, {"modulus", gen_modulus}, {"power", gen_power}, {"power_table", gen_power_table}, {"min_max", gen_min_max}};
    }
}

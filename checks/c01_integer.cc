// C01: arithmetic on Integer is exact, or is refused with an overflow error.
#include <engine/pbt.hh>

#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/constraints/innards/product_bounds.hh>
#include <gcs/innards/integer_overflow.hh>
#include <gcs/innards/power.hh>
#include <gcs/integer.hh>

#include <format>
#include <limits>
#include <optional>
#include <sstream>

using namespace gcs;
using namespace gcs::innards;
using pbt::Case;
using std::optional;
using std::string;
using i128 = __int128;

namespace
{
    constexpr long long LMAX = std::numeric_limits<long long>::max(), LMIN = std::numeric_limits<long long>::min();

    auto fits(i128 v) -> bool
    {
        return v >= LMIN && v <= LMAX;
    }

    auto str(i128 v) -> string
    {
        if (v < 0) {
            string s = str(-(v / 10));
            return "-" + (s == "0" ? "" : s) + std::to_string(static_cast<int>(-(v % 10)));
        }
        string s;
        do {
            s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
            v /= 10;
        } while (v);
        return s;
    }

    // f() must give the exact answer, or throw IntegerOverflow exactly when it is not representable.
    template <typename F_>
    auto exact(Case & c, const string & what, optional<i128> expected, F_ f) -> void
    {
        try {
            auto r = f();
            if (! expected || ! fits(*expected))
                c.fail(what + " gave " + std::to_string(r.raw_value) + " but should have overflowed");
            if (r.raw_value != static_cast<long long>(*expected))
                c.fail(what + " gave " + std::to_string(r.raw_value) + " rather than " + str(*expected));
        }
        catch (const IntegerOverflow & e) {
            if (expected && fits(*expected))
                c.fail(what + " threw " + e.what() + " rather than giving " + str(*expected));
        }
    }

    // as exact, but an overflow error is also fine as long as an operand or the answer is
    // large enough for an intermediate to have overflowed
    template <typename F_>
    auto exact_or_overflow(Case & c, const string & what, i128 expected, bool may_overflow, F_ f) -> void
    {
        try {
            auto r = f();
            if (r.raw_value != expected)
                c.fail(what + " gave " + std::to_string(r.raw_value) + " rather than " + str(expected));
        }
        catch (const IntegerOverflow & e) {
            if (! may_overflow)
                c.fail(what + " threw " + e.what() + " rather than giving " + str(expected));
        }
    }

    auto operators(Case & c) -> void
    {
        auto x = c.any_long(), y = c.any_long();
        Integer a{x}, b{y};
        c.note() << "a=" << x << " b=" << y;
        auto ex = [](long long v) { return static_cast<i128>(v); };
        exact(c, "a + b", ex(x) + y, [&] { return a + b; });
        exact(c, "a - b", ex(x) - y, [&] { return a - b; });
        exact(c, "a * b", ex(x) * y, [&] { return a * b; });
        exact(c, "a / b", y == 0 ? optional<i128>{} : optional<i128>{ex(x) / y}, [&] { return a / b; });
        // a remainder whose division overflows is refused too
        exact(c, "a % b", y == 0 || (x == LMIN && y == -1) ? optional<i128>{} : optional<i128>{ex(x) % y}, [&] { return a % b; });
        exact(c, "-a", -ex(x), [&] { return -a; });
        exact(c, "abs(a)", x < 0 ? -ex(x) : ex(x), [&] { return abs(a); });
        exact(c, "a += b", ex(x) + y, [&] { auto t = a; return t += b; });
        exact(c, "a += b (in place)", ex(x) + y, [&] { auto t = a; t += b; return t; });
        exact(c, "a -= b", ex(x) - y, [&] { auto t = a; return t -= b; });
        exact(c, "a -= b (in place)", ex(x) - y, [&] { auto t = a; t -= b; return t; });
        exact(c, "a += a", ex(x) + x, [&] { auto t = a; t += t; return t; });
        exact(c, "a -= a", ex(0), [&] { auto t = a; t -= t; return t; });
        exact(c, "++a", ex(x) + 1, [&] { auto t = a; return ++t; });
        exact(c, "++a (in place)", ex(x) + 1, [&] { auto t = a; ++t; return t; });
        exact(c, "a++ (in place)", ex(x) + 1, [&] { auto t = a; t++; return t; });
        exact(c, "--a", ex(x) - 1, [&] { auto t = a; return --t; });
        exact(c, "--a (in place)", ex(x) - 1, [&] { auto t = a; --t; return t; });
        exact(c, "a-- (in place)", ex(x) - 1, [&] { auto t = a; t--; return t; });
        if (x != LMAX)
            exact(c, "a++", ex(x), [&] { auto t = a; return t++; });
        if (x != LMIN)
            exact(c, "a--", ex(x), [&] { auto t = a; return t--; });

        c.expect((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a == b) == (x == y) &&
                (a != b) == (x != y) && (a <=> b) == (x <=> y),
            "a comparison disagrees with the values");
        c.expect(a.to_string() == std::to_string(x), "to_string: " + a.to_string());
        std::stringstream s;
        s << a;
        c.expect(s.str() == std::to_string(x), "operator<<: " + s.str());
        c.expect(std::format("{}", a) == std::to_string(x), "format");
        c.expect(format_as(a) == x, "format_as");
        c.expect(a != b || std::hash<Integer>{}(a) == std::hash<Integer>{}(b), "equal values, different hashes");
        c.expect(std::hash<Integer>{}(a) == std::hash<Integer>{}(Integer{x}), "equal values, different hashes");
        if (x >= 0) {
            c.expect(a.as_index() == static_cast<std::size_t>(x), "as_index");
            c.expect(operator""_i(static_cast<unsigned long long>(x)) == a, "literal");
        }
        c.expect(Integer::min_value().raw_value == LMIN && Integer::max_value().raw_value == LMAX, "extremes");

        long long big = 0;
        bool over = mul_overflows(x, y, &big);
        c.expect(over == ! fits(ex(x) * y), "mul_overflows");
        c.expect(over || big == ex(x) * y, "mul_overflows value");
        over = add_overflows(x, y, &big);
        c.expect(over == ! fits(ex(x) + y) && (over || big == ex(x) + y), "add_overflows");
        over = sub_overflows(x, y, &big);
        c.expect(over == ! fits(ex(x) - y) && (over || big == ex(x) - y), "sub_overflows");

        auto p = product_if_representable(a, b);
        c.expect(p.has_value() == fits(ex(x) * y) && (! p || p->raw_value == ex(x) * y), "product_if_representable");

        if (! fits(ex(x) + y) || ! fits(ex(x) - y) || ! fits(ex(x) * y))
            c.label("an operation overflows");
        if (x < 0 != y < 0)
            c.label("signs differ");
        if (y == 0 || (x == LMIN && y == -1))
            c.label("division refused");
        c.nontrivial();
    }

    template <typename T_>
    auto narrow_one(Case & c, const string & name, i128 lo, i128 hi) -> void
    {
        auto gen = [&]() -> T_ {
            switch (c.weighted({2, 2, 2, 2})) {
            case 0: return static_cast<T_>(static_cast<i128>(c.range(0, 40)) - (lo < 0 ? 20 : 0));
            case 1: return static_cast<T_>(hi - c.range(0, 3));
            case 2: return static_cast<T_>(lo + c.range(0, 3));
            default: return static_cast<T_>(lo + static_cast<i128>(c.draw(static_cast<std::uint64_t>(hi - lo))));
            }
        };
        T_ a = gen(), b = gen(), out{};
        c.note() << name << " " << str(a) << " " << str(b);
        auto check = [&](const string & what, i128 e, bool over) {
            bool should = e < lo || e > hi;
            c.expect(over == should, name + " " + what + (over ? " reports" : " does not report") + " overflow");
            if (! over)
                c.expect(static_cast<i128>(out) == e, name + " " + what + " gives " + str(out));
        };
        check("add", static_cast<i128>(a) + b, add_overflows(a, b, &out));
        check("sub", static_cast<i128>(a) - b, sub_overflows(a, b, &out));
        if (sizeof(T_) < 8 || lo < 0) // the product of two 64 bit unsigned values does not fit the oracle's type
            check("mul", static_cast<i128>(a) * b, mul_overflows(a, b, &out));
        c.nontrivial();
    }

    auto narrow(Case & c) -> void
    {
        switch (c.draw(4)) {
        case 0: return narrow_one<int>(c, "int", std::numeric_limits<int>::min(), std::numeric_limits<int>::max());
        case 1: return narrow_one<unsigned>(c, "unsigned", 0, std::numeric_limits<unsigned>::max());
        case 2: return narrow_one<long long>(c, "long long", LMIN, LMAX);
        case 3: return narrow_one<unsigned long long>(c, "unsigned long long", 0, std::numeric_limits<unsigned long long>::max());
        default: return narrow_one<short>(c, "short", -32768, 32767);
        }
    }

    // base^exp for exp >= 0; nullopt when it is out of range
    auto power_of(i128 base, i128 exp) -> optional<i128>
    {
        if (exp == 0)
            return 1;
        if (base == 0)
            return 0;
        if (base == 1)
            return 1;
        if (base == -1)
            return exp % 2 ? -1 : 1;
        i128 r = 1;
        for (i128 i = 0; i < exp; ++i) {
            r *= base;
            if (! fits(r))
                return std::nullopt; // |base| >= 2, so it only grows
        }
        return r;
    }

    auto powers(Case & c) -> void
    {
        long long base, exp;
        switch (c.weighted({4, 2, 2, 2})) {
        case 0:
            base = c.around_zero(-12, 12);
            exp = c.around_zero(-5, 70);
            break;
        case 1: {
            // near the edge of what fits: base about the exp'th root of the largest value
            exp = c.range(2, 62);
            long long r = 1;
            while (power_of(r + 1, exp))
                r = r < 1000 ? r + 1 : r + r / 1000;
            while (! power_of(r, exp))
                --r;
            base = r + c.range(-2, 2);
            if (c.chance(1, 2))
                base = -base;
            break;
        }
        case 2:
            base = c.any_long();
            exp = c.around_zero(-3, 5);
            break;
        default:
            base = c.around_zero(-2, 2);
            exp = c.any_long();
        }
        c.note() << base << "^" << exp;
        optional<i128> expected;
        if (exp >= 0)
            expected = power_of(base, exp);
        else if (base == 0)
            expected = std::nullopt;
        else if (base == 1)
            expected = 1;
        else if (base == -1)
            expected = exp % 2 ? -1 : 1;
        else
            expected = 0;
        auto got = checked_integer_power(Integer{base}, Integer{exp});
        c.expect(got.has_value() == expected.has_value(),
            "power: got " + (got ? got->to_string() : "nothing") + ", expected " + (expected ? str(*expected) : "nothing"));
        c.expect(! got || got->raw_value == *expected, "power: got " + (got ? got->to_string() : "") + ", expected " + (expected ? str(*expected) : ""));

        auto p = c.chance(1, 2) ? c.around_zero(-3, 70) : c.any_long();
        try {
            auto r = power2(Integer{p});
            c.expect(p >= 0 && p <= 62 && r.raw_value == 1LL << p, "power2(" + std::to_string(p) + ") gave " + r.to_string());
        }
        catch (const UnimplementedException &) {
            c.expect(p < 0 || p > 62, "power2(" + std::to_string(p) + ") refused");
        }
        if (! expected)
            c.label("out of range");
        if (exp < 0)
            c.label("negative exponent");
        if (expected && (*expected > (i128{1} << 55) || *expected < -(i128{1} << 55)))
            c.label("large result");
        c.nontrivial();
    }

    auto floor_div(i128 a, i128 b) -> i128
    {
        auto q = a / b;
        return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
    }

    auto ceil_div(i128 a, i128 b) -> i128
    {
        auto q = a / b;
        return (a % b != 0 && ((a < 0) == (b < 0))) ? q + 1 : q;
    }

    auto rounding(Case & c) -> void
    {
        auto x = c.any_long(), y = c.any_long();
        c.note() << x << " " << y;
        bool extreme = x == LMIN || y == LMIN;
        if (y != 0) {
            exact_or_overflow(c, "div_floor", floor_div(x, y), extreme, [&] { return div_floor(Integer{x}, Integer{y}); });
            exact_or_overflow(c, "div_ceil", ceil_div(x, y), extreme, [&] { return div_ceil(Integer{x}, Integer{y}); });
        }
        else {
            for (auto f : {true, false})
                try {
                    [[maybe_unused]] auto r = f ? div_floor(Integer{x}, Integer{y}) : div_ceil(Integer{x}, Integer{y});
                    c.fail("division by zero gave " + r.to_string());
                }
                catch (const IntegerOverflow &) {
                }
        }

        long long n = x;
        if (c.chance(1, 2)) {
            // near a perfect square
            auto r = c.chance(1, 2) ? c.range(0, 5000) : c.range(0, 3037000499LL);
            n = r * r + c.around_zero(-2, 2);
            c.label("near a square");
        }
        if (n >= 0) {
            unsigned long long r = 0;
            for (unsigned long long bit = 1ULL << 31; bit; bit >>= 1)
                if (static_cast<unsigned __int128>(r + bit) * (r + bit) <= static_cast<unsigned __int128>(n))
                    r += bit;
            // the largest value may overflow an intermediate
            exact_or_overflow(c, "isqrt(" + std::to_string(n) + ")", r, n == LMAX, [&] { return isqrt(Integer{n}); });
            auto up = static_cast<i128>(r) * r == n ? r : r + 1;
            exact_or_overflow(c, "ceil_isqrt(" + std::to_string(n) + ")", up, n == LMAX, [&] { return ceil_isqrt(Integer{n}); });
        }
        else
            try {
                [[maybe_unused]] auto r = isqrt(Integer{n});
                c.fail("isqrt of a negative value gave " + r.to_string());
            }
            catch (const UnexpectedException &) {
            }
        if ((x < 0) != (y < 0) && y != 0 && x % (y == -1 ? 1 : y) != 0)
            c.label("rounding with mixed signs");
        c.nontrivial();
    }

    struct Box
    {
        long long lo, hi;
    };

    auto gen_box(Case & c, long long span) -> Box
    {
        auto a = c.around_zero(-span, span), b = c.around_zero(-span, span);
        return a <= b ? Box{a, b} : Box{b, a};
    }

    // exhaustive over a small box
    auto small_boxes(Case & c) -> void
    {
        auto x = gen_box(c, 9), y = gen_box(c, 9), z = gen_box(c, c.chance(1, 2) ? 12 : 60);
        c.note() << "x=" << x.lo << ".." << x.hi << " y=" << y.lo << ".." << y.hi << " z=" << z.lo << ".." << z.hi;
        auto I = [](long long v) { return Integer{v}; };

        long long mn = LMAX, mx = LMIN;
        for (auto a = x.lo; a <= x.hi; ++a)
            for (auto b = y.lo; b <= y.hi; ++b) {
                mn = std::min(mn, a * b);
                mx = std::max(mx, a * b);
            }
        auto [pl, pu] = product_bounds(I(x.lo), I(x.hi), I(y.lo), I(y.hi));
        c.expect(pl.raw_value == mn && pu.raw_value == mx, "product_bounds gave " + pl.to_string() + ".." + pu.to_string());

        mn = LMAX, mx = LMIN;
        for (auto a = x.lo; a <= x.hi; ++a) {
            mn = std::min(mn, a * a);
            mx = std::max(mx, a * a);
        }
        auto [sl, su] = square_bounds(I(x.lo), I(x.hi));
        c.expect(sl.raw_value == mn && su.raw_value == mx, "square_bounds gave " + sl.to_string() + ".." + su.to_string());

        mn = LMAX, mx = LMIN;
        for (auto a = x.lo; a <= x.hi; ++a)
            if (a * a >= z.lo && a * a <= z.hi) {
                mn = std::min(mn, a);
                mx = std::max(mx, a);
            }
        auto [fl, fu] = square_filter(I(x.lo), I(x.hi), I(z.lo), I(z.hi));
        if (mn <= mx)
            c.expect(fl.raw_value == mn && fu.raw_value == mx, "square_filter gave " + fl.to_string() + ".." + fu.to_string());
        else {
            c.expect(fl > fu, "square_filter gave " + fl.to_string() + ".." + fu.to_string() + " for an empty set");
            c.label("square_filter empty");
        }

        // quotient: every x with x * y == z for some y, z in their boxes
        auto q = quotient_filter(I(y.lo), I(y.hi), I(z.lo), I(z.hi));
        bool y0 = y.lo <= 0 && y.hi >= 0, z0 = z.lo <= 0 && z.hi >= 0;
        using Kind = QuotientFilter::Kind;
        if (q.kind == Kind::NoFilter)
            c.label("NoFilter");
        c.expect((q.kind == Kind::NoFilter) == (y0 && z0), "quotient_filter: wrong answer to whether any filtering is possible");
        c.expect((q.kind == Kind::EmptyBecauseYZero) == (y.lo == 0 && y.hi == 0 && ! z0), "quotient_filter: wrong answer to whether y is zero");
        if (q.kind == Kind::Bounds) {
            for (long long a = -130; a <= 130; ++a)
                for (auto b = y.lo; b <= y.hi; ++b)
                    if (a * b >= z.lo && a * b <= z.hi)
                        c.expect(a >= q.lo.raw_value && a <= q.hi.raw_value,
                            "quotient_filter gave " + q.lo.to_string() + ".." + q.hi.to_string() + " which loses " + std::to_string(a));
            // and it is not vacuous: at least as tight as the magnitude of z
            auto m = std::max(std::abs(z.lo), std::abs(z.hi));
            c.expect(q.lo.raw_value >= -m && q.hi.raw_value <= m, "quotient_filter gave bounds beyond the magnitude of z");
            if (y.hi < 0 || y.lo > 0 || y.hi == 0 || y.lo == 0) {
                auto yl = y.lo == 0 ? 1 : y.lo, yh = y.lo != 0 && y.hi == 0 ? -1 : y.hi;
                i128 lo = LMAX, hi = LMIN;
                for (auto b : {yl, yh})
                    for (auto v : {z.lo, z.hi}) {
                        lo = std::min(lo, ceil_div(v, b));
                        hi = std::max(hi, floor_div(v, b));
                    }
                c.expect(q.lo.raw_value >= lo && q.hi.raw_value <= hi, "quotient_filter is looser than the corner quotients");
                c.label("sign-fixed y");
            }
            else
                c.label("y spans zero");
        }
        c.nontrivial();
    }

    // values of any size, against 128 bit corners
    auto large_boxes(Case & c) -> void
    {
        auto box = [&]() -> Box {
            auto a = c.any_long();
            auto b = c.chance(1, 2) ? c.any_long() : a;
            if (b == a) {
                auto w = c.range(0, 1000);
                b = a > LMAX - w ? a : a + w;
            }
            return a <= b ? Box{a, b} : Box{b, a};
        };
        auto x = box(), y = box();
        c.note() << "x=" << x.lo << ".." << x.hi << " y=" << y.lo << ".." << y.hi;
        auto I = [](long long v) { return Integer{v}; };
        auto minmax = [](std::initializer_list<i128> l) { return std::pair{std::min(l), std::max(l)}; };
        auto ex = [](long long v) { return static_cast<i128>(v); };

        auto [pl, pu] = minmax({ex(x.lo) * y.lo, ex(x.lo) * y.hi, ex(x.hi) * y.lo, ex(x.hi) * y.hi});
        auto unrepresentable = ! fits(pl) || ! fits(pu);
        exact_or_overflow(c, "product_bounds lower", pl, unrepresentable, [&] { return product_bounds(I(x.lo), I(x.hi), I(y.lo), I(y.hi)).first; });
        exact_or_overflow(c, "product_bounds upper", pu, unrepresentable, [&] { return product_bounds(I(x.lo), I(x.hi), I(y.lo), I(y.hi)).second; });
        if (unrepresentable)
            c.label("product overflows");

        auto [sl, su] = minmax({ex(x.lo) * x.lo, ex(x.hi) * x.hi});
        exact_or_overflow(c, "square_bounds upper", su, ! fits(su), [&] { return square_bounds(I(x.lo), I(x.hi)).second; });
        exact_or_overflow(c, "square_bounds lower", x.lo <= 0 && x.hi >= 0 ? 0 : sl, ! fits(su), [&] { return square_bounds(I(x.lo), I(x.hi)).first; });

        // square_filter: membership of the ends, and of points of the box near the roots
        if (y.hi != LMAX) {
            try {
                auto [fl, fu] = square_filter(I(x.lo), I(x.hi), I(y.lo), I(y.hi));
                auto ok = [&](i128 v) { return v >= x.lo && v <= x.hi && v * v >= y.lo && v * v <= y.hi; };
                if (fl <= fu) {
                    c.expect(ok(fl.raw_value), "square_filter: lower end " + fl.to_string() + " is not supported");
                    c.expect(ok(fu.raw_value), "square_filter: upper end " + fu.to_string() + " is not supported");
                    c.label("square_filter nonempty");
                }
                for (i128 v : {ex(fl.raw_value) - 1, ex(fu.raw_value) + 1, ex(x.lo), ex(x.hi)})
                    if ((v < fl.raw_value || v > fu.raw_value) && v * 0 == 0 && v < (i128{1} << 62) && v > -(i128{1} << 62))
                        c.expect(! ok(v), "square_filter loses " + str(v));
            }
            catch (const IntegerOverflow & e) {
                c.fail(string{"square_filter threw "} + e.what());
            }
        }

        // quotient_filter: x * y = z, so z's box is x's here, and q must hold every exact quotient tried
        if (x.lo != LMIN && y.lo != LMIN) {
            auto q = quotient_filter(I(y.lo), I(y.hi), I(x.lo), I(x.hi));
            if (q.kind == QuotientFilter::Kind::Bounds)
                for (int t = 0; t < 20; ++t) {
                    auto b = y.lo + static_cast<long long>(c.draw(std::min<std::uint64_t>(static_cast<std::uint64_t>(y.hi) - static_cast<std::uint64_t>(y.lo), 1000)));
                    if (c.chance(1, 2))
                        b = y.hi - (b - y.lo);
                    if (b == 0)
                        continue;
                    for (auto end : {x.lo, x.hi})
                        for (auto v : {floor_div(end, b), ceil_div(end, b)})
                            if (v * b >= x.lo && v * b <= x.hi)
                                c.expect(v >= q.lo.raw_value && v <= q.hi.raw_value, "quotient_filter loses " + str(v));
                }
        }
        c.nontrivial();
    }
}

int main(int argc, char ** argv)
{
    return pbt::main(argc, argv,
        pbt::Suite{"C01",
            "Operands are drawn small, near powers of two, at the extremes of the 64 bit range and uniformly in bit length; boxes are drawn small (and then "
            "enumerated completely) and of any size (compared with 128 bit arithmetic). Every case evaluates every operation on its operands, and counts as "
            "non-trivial once all of them have been compared with the 128 bit reference; labels say how many overflowed, rounded with mixed signs, and so on.",
            {
                {"operators", 1200000, 10, operators},
                {"narrow_overflow", 300000, 10, narrow},
                {"powers", 800000, 10, powers},
                {"rounding", 1000000, 10, rounding},
                {"small_boxes", 300000, 10, small_boxes},
                {"large_boxes", 700000, 10, large_boxes},
            }});
}

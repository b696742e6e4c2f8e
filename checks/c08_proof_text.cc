// The arithmetic proofs are written in: bit vectors wide enough (and no wider)
// for a variable's bounds, cutting planes lines that say the combination asked
// for, and references that resolve to the line meant.
#include "engine/pbt.hh"

#include <gcs/exception.hh>
#include <gcs/innards/proofs/bits_encoding.hh>
#include <gcs/innards/proofs/pol_builder.hh>
#include <gcs/innards/proofs/proof_error.hh>
#include <gcs/innards/proofs/proof_line.hh>

#include <algorithm>
#include <array>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>

using namespace gcs;
using namespace gcs::innards;
using pbt::Case;
using std::array;
using std::optional;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    using i128 = __int128;
    constexpr long long LMIN = std::numeric_limits<long long>::min();
    constexpr long long LMAX = std::numeric_limits<long long>::max();

    auto bits(Case & c) -> void
    {
        long long lo, hi;
        switch (c.draw(2)) {
        case 0:
            lo = c.around_zero(-40, 40);
            hi = c.around_zero(-40, 40);
            break;
        case 1: {
            auto near_power = [&]() {
                auto k = c.draw(63);
                i128 p = (i128{1} << k) + c.around_zero(-2, 2);
                if (c.chance(1, 2))
                    p = -p;
                return static_cast<long long>(p < LMIN ? LMIN : p > LMAX ? LMAX : p);
            };
            lo = near_power();
            hi = c.chance(1, 4) ? lo : near_power();
            break;
        }
        default:
            lo = c.any_long();
            hi = c.any_long();
        }
        if (lo > hi)
            std::swap(lo, hi);
        c.note() << lo << ".." << hi;

        // the least number of magnitude bits: h with -2^h <= lo (if there is a sign bit) and hi <= 2^h - 1
        int h = 0;
        while (! ((lo >= 0 || -(i128{1} << h) <= lo) && hi <= (i128{1} << h) - 1))
            ++h;
        // every coefficient has to be an Integer in magnitude: 2^(h-1), and 2^h for the sign bit
        bool fits = lo < 0 ? h <= 62 : h <= 63;
        c.expect(bits_encoding_fits(Integer{lo}, Integer{hi}) == fits, "bits_encoding_fits says otherwise");
        if (! fits) {
            c.label("does not fit");
            bool threw = false;
            try {
                (void)get_bits_encoding_coeffs(Integer{lo}, Integer{hi});
            }
            catch (const std::exception &) {
                threw = true;
            }
            c.expect(threw, "coefficients were given for bounds that do not fit");
            c.nontrivial();
            return;
        }
        auto [shift, top, neg] = get_bits_encoding_coeffs(Integer{lo}, Integer{hi});
        c.expect(shift.raw_value == h - 1, "the highest bit is " + shift.to_string() + " rather than " + to_string(h - 1));
        c.expect(top.raw_value == (h == 0 ? 0 : static_cast<long long>(1ULL << (h - 1))), "the highest coefficient is " + top.to_string());
        c.expect(neg.raw_value == (lo < 0 ? static_cast<long long>(-(i128{1} << h)) : 0), "the sign coefficient is " + neg.to_string());
        // and directly, where that is feasible: the sums are exactly a superset of the domain
        if (h <= 7) {
            std::set<long long> sums;
            vector<long long> coeffs;
            for (long long i = 0; i <= shift.raw_value; ++i)
                coeffs.push_back(1LL << i);
            if (neg != 0_i)
                coeffs.push_back(neg.raw_value);
            for (unsigned m = 0; m < (1U << coeffs.size()); ++m) {
                long long s = 0;
                for (std::size_t i = 0; i < coeffs.size(); ++i)
                    if (m & (1U << i))
                        s += coeffs[i];
                c.expect(sums.insert(s).second, "two bit patterns stand for the same value");
            }
            for (auto v = lo; v <= hi; ++v)
                c.expect(sums.contains(v), "no bit pattern stands for " + to_string(v));
            c.label("enumerated");
        }
        c.label(lo < 0 ? "signed" : "unsigned");
        c.nontrivial();
    }

    // A pseudo-Boolean constraint over a few 0/1 variables, sum a_i l_i >= degree in normal form (a_i >= 0).
    struct PB
    {
        array<i128, 4> a{}; // positive for x_i, negative for ~x_i
        i128 degree = 0;    // of the normal form

        auto operator==(const PB &) const -> bool = default;
    };

    auto abs128(i128 v) -> i128
    {
        return v < 0 ? -v : v;
    }

    auto plus(const PB & x, const PB & y) -> PB
    {
        PB r;
        r.degree = x.degree + y.degree;
        for (int i = 0; i < 4; ++i) {
            r.a[i] = x.a[i] + y.a[i];
            // opposite literals cancel, each pair giving one to the degree
            r.degree -= (abs128(x.a[i]) + abs128(y.a[i]) - abs128(r.a[i])) / 2;
        }
        return r;
    }

    auto times(PB x, i128 n) -> PB
    {
        for (auto & v : x.a)
            v *= n;
        x.degree *= n;
        return x;
    }

    auto ceil_div128(i128 a, i128 n) -> i128
    {
        return a >= 0 ? (a + n - 1) / n : -(-a / n);
    }

    auto divide(PB x, i128 n) -> PB
    {
        for (auto & v : x.a)
            v = v < 0 ? -ceil_div128(-v, n) : ceil_div128(v, n);
        x.degree = ceil_div128(x.degree, n);
        return x;
    }

    auto saturate(PB x) -> PB
    {
        auto d = x.degree < 0 ? i128{0} : x.degree;
        for (auto & v : x.a)
            v = v < 0 ? -std::min(-v, d) : std::min(v, d);
        return x;
    }

    // Evaluates the text of a pol line, as VeriPB reads it.
    auto evaluate(Case & c, const string & text, const std::map<string, PB> & lines) -> PB
    {
        std::istringstream in{text};
        string tok;
        in >> tok;
        c.expect(tok == "pol", "the line does not start with pol: '" + text + "'");
        vector<string> toks;
        while (in >> tok)
            toks.push_back(tok);
        c.expect(! toks.empty() && toks.back() == ";", "the line does not end in a separate semicolon: '" + text + "'");
        toks.pop_back();
        vector<PB> stack;
        auto need = [&](std::size_t n) { c.expect(stack.size() >= n, "the stack underflows in '" + text + "'"); };
        for (std::size_t i = 0; i < toks.size(); ++i) {
            auto & t = toks[i];
            if (t == "+") {
                need(2);
                auto y = stack.back();
                stack.pop_back();
                stack.back() = plus(stack.back(), y);
            }
            else if (t == "s") {
                need(1);
                stack.back() = saturate(stack.back());
            }
            else if (i + 1 < toks.size() && (toks[i + 1] == "*" || toks[i + 1] == "d")) {
                need(1);
                i128 n = 0;
                c.expect(! t.empty() && t.find_first_not_of("0123456789") == string::npos, "a factor is not a number: '" + t + "'");
                for (auto ch : t)
                    n = n * 10 + (ch - '0');
                c.expect(n > 0, "a factor is not positive in '" + text + "'");
                stack.back() = toks[i + 1] == "*" ? times(stack.back(), n) : divide(stack.back(), n);
                ++i;
            }
            else {
                c.expect(lines.contains(t), "'" + t + "' is not a line, in '" + text + "'");
                stack.push_back(lines.at(t));
            }
        }
        c.expect(stack.size() == 1, "the stack does not end with one constraint: '" + text + "'");
        return stack.back();
    }

    auto pol(Case & c) -> void
    {
        std::map<string, PB> lines;
        vector<std::pair<ProofLine, PB>> known;
        auto n = 1 + c.draw(4);
        for (unsigned i = 0; i < n; ++i) {
            PB p;
            for (auto & v : p.a)
                v = c.around_zero(-4, 4);
            p.degree = c.around_zero(-2, 9);
            if (c.chance(2, 3)) {
                auto num = c.chance(1, 8) ? LMAX - static_cast<long long>(i) : c.chance(1, 3) ? -1 - static_cast<long long>(i) : 1 + static_cast<long long>(c.draw(120)) * 7 + static_cast<long long>(i);
                if (! lines.emplace(to_string(num), p).second)
                    continue;
                known.emplace_back(ProofLineNumber{num}, p);
            }
            else {
                auto label = c.pick(vector<string>{"c[_1][le]", "i[x][lb]", "a", "9", "c[a[0]][ge]"}) + to_string(i);
                lines.emplace("@" + label, p);
                known.emplace_back(ProofLineLabel{label}, p);
            }
        }
        PolBuilder b;
        optional<PB> running;
        bool big = false;
        auto steps = 1 + c.draw(9);
        auto factor = [&]() -> long long {
            if (! big && c.chance(1, 12)) {
                big = true;
                return c.chance(1, 2) ? LMAX : 1 + static_cast<long long>(c.draw(LMAX - 1));
            }
            return 1 + static_cast<long long>(c.draw(9));
        };
        auto both = [&](const PB & p) { running = running ? plus(*running, p) : p; };
        unsigned adds = 0;
        for (unsigned i = 0; i < steps; ++i) {
            switch (c.weighted({4, 4, 2, 2, 2, 1, 1, 1})) {
            case 0: {
                auto & [l, p] = c.pick(known);
                b.add(l);
                both(p);
                ++adds;
                break;
            }
            case 1: {
                auto & [l, p] = c.pick(known);
                auto k = factor();
                b.add(l, Integer{k});
                both(times(p, k));
                ++adds;
                break;
            }
            case 2:
                if (running) {
                    b.saturate();
                    running = saturate(*running);
                }
                break;
            case 3:
                if (running) {
                    auto k = 1 + static_cast<long long>(c.draw(6));
                    b.multiply_by(Integer{k});
                    running = times(*running, k);
                }
                break;
            case 4:
                if (running) {
                    auto k = factor();
                    b.divide_by(Integer{k});
                    running = divide(*running, k);
                }
                break;
            case 5: {
                bool threw = false;
                try {
                    b.add(c.pick(known).first, 0_i);
                }
                catch (const UnexpectedException &) {
                    threw = true;
                }
                c.expect(threw, "a zero coefficient was accepted");
                c.label("zero coefficient");
                break;
            }
            case 6:
                b.clear();
                running.reset();
                adds = 0;
                c.label("cleared");
                break;
            default: {
                PolBuilder moved{std::move(b)};
                b = std::move(moved);
                c.label("moved");
            }
            }
            c.expect(b.empty() == ! running, "empty() is wrong");
            auto text = b.str();
            c.expect(text == b.str(), "asking for the text changed it");
            c.note() << text << "\n";
            if (running) {
                auto got = evaluate(c, text, lines);
                c.expect(got == *running, "'" + text + "' derives something else than was asked for");
            }
        }
        if (adds > 1)
            c.nontrivial();
    }

    auto references(Case & c) -> void
    {
        // a reference into a proof that has `last` lines so far
        auto last = c.chance(1, 3) ? static_cast<long long>(c.draw(20)) : static_cast<long long>(c.draw(LMAX / 2));
        ProofLine line = ProofLineNumber{1};
        switch (c.draw(3)) {
        case 0: {
            if (last == 0)
                last = 1;
            auto n = 1 + static_cast<long long>(c.draw(static_cast<std::uint64_t>(std::min<long long>(last, 1LL << 40)) - 1));
            if (c.chance(1, 2))
                n = last - n + 1;
            line = ProofLineNumber{n};
            auto s = relative_proof_line(line, last);
            c.note() << n << " of " << last << ": " << s;
            auto r = std::stoll(s);
            c.expect(r < 0 && last + 1 + r == n, "line " + to_string(n) + " of " + to_string(last) + " is referred to as " + s);
            c.expect(s == to_string(r), "a reference is not written plainly");
            c.nontrivial();
            break;
        }
        case 1: {
            auto n = -static_cast<long long>(c.draw(50));
            line = ProofLineNumber{n};
            c.expect(relative_proof_line(line, last) == to_string(n), "a relative reference was changed");
            break;
        }
        default: {
            auto label = c.pick(vector<string>{"c[_1][le]", "x", "i[s[0]][ub]", "", "7"});
            line = ProofLineLabel{label};
            c.expect(relative_proof_line(line, last) == "@" + label, "a label was changed");
            std::ostringstream o;
            o << ProofLineLabel{label};
            c.expect(o.str() == "@" + label, "a label was not written as itself");
            c.nontrivial();
        }
        }
        // lines have an identity
        vector<ProofLine> ls{line, ProofLineNumber{1}, ProofLineLabel{"1"}, ProofLineLabel{"x"}, ProofLineNumber{static_cast<long long>(c.draw(2))}};
        for (auto & x : ls)
            for (auto & y : ls)
                c.expect((x == y) == (relative_proof_line(x, -1) == relative_proof_line(y, -1)), "proof lines compare wrongly");
        string msg = c.pick(vector<string>{"a", "b {}", ""}) + to_string(last);
        c.expect(string{ProofError{msg}.what()}.contains(msg), "a proof error does not say what went wrong");
    }
}

int main(int argc, char ** argv)
{
    return pbt::main(argc, argv,
        pbt::Suite{.id = "C08",
            .rule = "Bounds are drawn small (and then every value and bit pattern is enumerated), on and around powers of two, and anywhere in 64 bits; "
                    "cutting planes lines are built by histories of additions, weights, saturations, divisions, clears and moves over random pseudo-Boolean "
                    "constraints, and their text is evaluated as the proof checker would. A line case is non-trivial with at least two additions.",
            .properties = {{"bits", 1500000, 12, [](Case & c) { bits(c); }}, {"pol", 700000, 12, [](Case & c) { pol(c); }},
                {"references", 500000, 12, [](Case & c) { references(c); }}},
            .assumptions = {"modifiers are only applied once something has been added, as a stack needs"}});
}

// C02: an IntervalSet behaves as the set of integers it stands for, and its stored
// intervals are always the maximal ones, in order.
// An IntervalTree finds exactly the stored intervals it should.
#include <engine/pbt.hh>

#include <gcs/innards/interval_tree.hh>
#include <gcs/integer.hh>
#include <gcs/interval_set.hh>

#include <algorithm>
#include <limits>
#include <set>

using namespace gcs;
using namespace gcs::innards;
using pbt::Case;
using std::pair;
using std::string;
using std::vector;
using i128 = __int128;

namespace
{
    constexpr long long LMAX = std::numeric_limits<long long>::max(), LMIN = std::numeric_limits<long long>::min();

    using Ivs = vector<pair<i128, i128>>;

    // The model: any list of closed intervals, put into canonical form.
    auto canonical(Ivs v) -> Ivs
    {
        std::sort(v.begin(), v.end());
        Ivs r;
        for (auto & [l, u] : v) {
            if (l > u)
                continue;
            if (! r.empty() && l <= r.back().second + 1)
                r.back().second = std::max(r.back().second, u);
            else
                r.emplace_back(l, u);
        }
        return r;
    }

    auto intersection(const Ivs & a, const Ivs & b) -> Ivs
    {
        Ivs r;
        for (auto & [l, u] : a)
            for (auto & [m, v] : b)
                r.emplace_back(std::max(l, m), std::min(u, v));
        return canonical(r);
    }

    auto without(const Ivs & a, i128 lo, i128 hi) -> Ivs
    {
        if (lo > hi)
            return a;
        Ivs r;
        for (auto & [l, u] : a) {
            r.emplace_back(l, std::min(u, lo - 1));
            r.emplace_back(std::max(l, hi + 1), u);
        }
        return canonical(r);
    }

    auto without(Ivs a, const Ivs & b) -> Ivs
    {
        for (auto & [l, u] : b)
            a = without(a, l, u);
        return a;
    }

    auto has(const Ivs & a, i128 v) -> bool
    {
        for (auto & [l, u] : a)
            if (l <= v && v <= u)
                return true;
        return false;
    }

    auto show(const Ivs & a) -> string
    {
        string r = "{";
        for (auto & [l, u] : a)
            r += " " + std::to_string(static_cast<long long>(l)) + ".." + std::to_string(static_cast<long long>(u));
        return r + " }";
    }

    template <typename Int_>
    auto raw(const Int_ & v) -> long long
    {
        if constexpr (std::is_same_v<Int_, Integer>)
            return v.raw_value;
        else
            return v;
    }

    template <typename Int_>
    auto stored(const IntervalSet<Int_> & s) -> Ivs
    {
        Ivs r;
        for (const auto & [l, u] : s.each_interval())
            r.emplace_back(raw(l), raw(u));
        return r;
    }

    template <typename Int_>
    auto check_same(Case & c, const string & when, const IntervalSet<Int_> & s, const Ivs & m, const vector<i128> & probes) -> void
    {
        auto got = stored(s);
        if (got != m)
            c.fail("after " + when + ": intervals are " + show(got) + " but should be " + show(m));
        c.expect(s.empty() == m.empty(), "after " + when + ": empty()");
        c.expect(s.has_holes() == (m.size() > 1), "after " + when + ": has_holes()");
        i128 size = 0;
        for (auto & [l, u] : m)
            size += u - l + 1;
        if (size <= LMAX) // else the size itself, or something along the way, does not fit
            if (m.empty() || m.back().second - m.front().first < LMAX)
                c.expect(raw(s.size()) == size, "after " + when + ": size()");
        if (! m.empty()) {
            c.expect(raw(s.lower()) == m.front().first, "after " + when + ": lower()");
            c.expect(raw(s.upper()) == m.back().second, "after " + when + ": upper()");
        }
        for (auto & v : probes)
            if (s.contains(Int_(static_cast<long long>(v))) != has(m, v))
                c.fail("after " + when + ": contains(" + std::to_string(static_cast<long long>(v)) + ") is wrong for " + show(m));
        Ivs gaps, expected_gaps;
        for (const auto & [l, u] : s.each_gap_interval())
            gaps.emplace_back(raw(l), raw(u));
        for (std::size_t i = 1; i < m.size(); ++i)
            expected_gaps.emplace_back(m[i - 1].second + 1, m[i].first);
        if (gaps != expected_gaps)
            c.fail("after " + when + ": gap intervals are " + show(gaps) + " for " + show(m));
    }

    template <typename Int_>
    auto check_values(Case & c, const IntervalSet<Int_> & s, const Ivs & m) -> void
    {
        vector<long long> expected, got, gaps, expected_gaps;
        for (auto & [l, u] : m)
            for (i128 v = l; v <= u; ++v)
                expected.push_back(static_cast<long long>(v));
        for (std::size_t i = 1; i < m.size(); ++i)
            for (i128 v = m[i - 1].second + 1; v < m[i].first; ++v)
                expected_gaps.push_back(static_cast<long long>(v));

        for (auto v : s.each())
            got.push_back(raw(v));
        c.expect(got == expected, "each() on " + show(m));

        got.clear();
        s.for_each([&](Int_ v) { got.push_back(raw(v)); });
        c.expect(got == expected, "for_each() on " + show(m));

        auto stop = c.draw(expected.size() + 1);
        got.clear();
        s.for_each([&](Int_ v) -> bool {
            got.push_back(raw(v));
            return got.size() <= stop;
        });
        auto prefix = expected;
        if (prefix.size() > stop + 1)
            prefix.resize(stop + 1);
        c.expect(got == prefix, "for_each() stopping early on " + show(m));

        // abandon a generator part way through
        got.clear();
        for (auto v : s.each()) {
            got.push_back(raw(v));
            if (got.size() > stop)
                break;
        }
        c.expect(got == prefix, "each() stopping early on " + show(m));

        got.clear();
        for (auto v : s.each_reversed())
            got.push_back(raw(v));
        std::reverse(got.begin(), got.end());
        c.expect(got == expected, "each_reversed() on " + show(m));

        for (auto v : s.each_gap())
            gaps.push_back(raw(v));
        c.expect(gaps == expected_gaps, "each_gap() on " + show(m));
    }

    template <typename Int_>
    auto history(Case & c, bool huge, bool extremes) -> void
    {
        // coordinates: small ones at some offset, or multiples of something enormous
        long long base = 0, width = 40, step = 1;
        if (huge) {
            step = c.pick(vector<long long>{1'000'000'000'000'000LL, 100'000'000'000'000'000LL, 999'999'999'999'999'989LL / 10});
            width = 40;
            base = -20 * step;
            c.label("huge intervals");
        }
        else {
            width = c.pick(vector<long long>{12, 40, 90});
            base = c.pick(vector<long long>{-width / 2, 0, -width, 1'000'000'000'000LL, -1'000'000'000'000LL});
            if (extremes && sizeof(Int_) == 8) {
                base = c.pick(vector<long long>{LMAX - width - 8, LMIN + 8});
                c.label("near the extremes");
            }
        }
        if (sizeof(Int_) < 8)
            base = std::clamp<long long>(base, -1000, 1000);

        auto coord = [&]() -> long long {
            auto v = base + c.draw(width) * step;
            if (huge)
                v += c.around_zero(-2, 2);
            return v;
        };
        auto I = [](i128 v) { return Int_(static_cast<long long>(v)); };

        vector<IntervalSet<Int_>> sets;
        vector<Ivs> models;
        auto fresh = [&](std::string & desc) {
            switch (c.weighted({2, 6, 3})) {
            case 0:
                sets.emplace_back();
                models.emplace_back();
                desc += "{}";
                break;
            case 1: {
                auto a = coord(), b = coord();
                if (a > b)
                    std::swap(a, b);
                sets.emplace_back(I(a), I(b));
                models.push_back({{a, b}});
                desc += show(models.back());
            } break;
            case 2: {
                // as built by appending
                vector<long long> vs;
                for (auto n = c.draw(10); n; --n)
                    vs.push_back(coord());
                std::sort(vs.begin(), vs.end());
                vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
                IntervalSet<Int_> s;
                Ivs m;
                for (auto & v : vs) {
                    s.insert_at_end(I(v));
                    m.emplace_back(v, v);
                    m = canonical(m);
                }
                sets.push_back(s);
                models.push_back(m);
                desc += "appended " + show(m);
            } break;
            }
        };

        string trace;
        for (auto n = 1 + c.draw(2); n; --n) {
            fresh(trace);
            trace += "; ";
        }
        int mutations = 0, split = 0;
        auto ops = 1 + c.draw(huge ? 24 : 16);
        c.note() << "base " << base << " width " << width << " step " << step << ": " << trace;
        vector<i128> probes;
        auto verify = [&](const string & op, std::size_t which) {
            probes.clear();
            if (huge)
                for (auto & [l, u] : models[which])
                    for (int d = -1; d <= 1; ++d) {
                        probes.push_back(l + d);
                        probes.push_back(u + d);
                    }
            else
                for (long long v = base - 2; v <= base + width + 2; ++v)
                    probes.push_back(v);
            check_same(c, op, sets[which], models[which], probes);
        };
        for (std::size_t i = 0; i < sets.size(); ++i)
            verify("construction", i);

        for (; ops; --ops) {
            auto which = c.draw(sets.size() - 1);
            auto & s = sets[which];
            auto & m = models[which];
            auto before = m.size();
            string op;
            switch (c.weighted({5, 6, 3, 3, 4, 4, 3, 2, 2, 2, 1, 1, 3, 2})) {
            case 0: {
                auto v = coord();
                op = "erase(" + std::to_string(v) + ")";
                s.erase(I(v));
                m = without(m, v, v);
            } break;
            case 1: {
                auto a = coord(), b = coord();
                if (a > b && ! c.chance(1, 8))
                    std::swap(a, b);
                op = "erase_range(" + std::to_string(a) + ", " + std::to_string(b) + ")";
                s.erase_range(I(a), I(b));
                m = without(m, a, b);
            } break;
            case 2: {
                auto v = coord();
                op = "erase_less_than(" + std::to_string(v) + ")";
                s.erase_less_than(I(v));
                m = without(m, LMIN, static_cast<i128>(v) - 1);
            } break;
            case 3: {
                auto v = coord();
                op = "erase_greater_than(" + std::to_string(v) + ")";
                s.erase_greater_than(I(v));
                m = without(m, static_cast<i128>(v) + 1, LMAX);
            } break;
            case 4: {
                // at or above the upper bound
                auto v = coord();
                if (! m.empty() && v < m.back().second) {
                    v = static_cast<long long>(m.back().second) + c.draw(3);
                    if (v > base + width * step)
                        v = static_cast<long long>(m.back().second);
                }
                op = "insert_at_end(" + std::to_string(v) + ")";
                s.insert_at_end(I(v));
                m.emplace_back(v, v);
                m = canonical(m);
            } break;
            case 5: {
                auto v = coord(), w = coord();
                if (v > w)
                    std::swap(v, w);
                if (! m.empty() && v < m.back().second) {
                    v = static_cast<long long>(m.back().second) + c.draw(3);
                    if (v > base + width * step)
                        v = static_cast<long long>(m.back().second);
                    w = std::max(v, w);
                }
                op = "insert_at_end(" + std::to_string(v) + ", " + std::to_string(w) + ")";
                s.insert_at_end(I(v), I(w));
                m.emplace_back(v, w);
                m = canonical(m);
            } break;
            case 6: {
                auto other = c.draw(sets.size() - 1);
                op = "intersect_with(" + show(models[other]) + ")";
                auto other_model = models[other];
                s.intersect_with(sets[other]);
                m = intersection(m, other_model);
                if (other != which) {
                    verify("being intersected with", other);
                    c.label("intersection of two sets");
                }
            } break;
            case 7: {
                auto other = c.draw(sets.size() - 1);
                op = "copy assignment";
                s = static_cast<const IntervalSet<Int_> &>(sets[other]);
                m = models[other];
                verify(op + " from here", other);
            } break;
            case 8: {
                auto other = c.draw(sets.size() - 1);
                op = "move";
                auto t = std::move(sets[other]);
                auto tm = models[other];
                sets[other] = IntervalSet<Int_>{};
                models[other] = {};
                sets[which] = std::move(t);
                models[which] = tm;
            } break;
            case 9: {
                op = "a new set";
                if (sets.size() < 4) {
                    if (c.chance(1, 2)) {
                        auto t = sets[which];
                        auto tm = m;
                        sets.push_back(t);
                        models.push_back(tm);
                    }
                    else
                        fresh(op);
                    which = sets.size() - 1;
                }
            } break;
            case 10:
                op = "clear()";
                s.clear();
                m.clear();
                break;
            case 11: {
                // what a caller does to remove everything it sees
                op = "erasing by iteration over a copy";
                if (! huge) {
                    auto copy = s;
                    for (auto v : copy.each())
                        if (raw(v) % 2 == 0) {
                            s.erase(v);
                            m = without(m, raw(v), raw(v));
                        }
                }
            } break;
            case 12: {
                auto other = c.draw(sets.size() - 1);
                Ivs got, expected = without(models[which], models[other]);
                for (const auto & [l, u] : sets[which].each_interval_minus(sets[other]))
                    got.emplace_back(raw(l), raw(u));
                op = "each_interval_minus";
                if (got != expected)
                    c.fail(show(models[which]) + " minus " + show(models[other]) + " gave " + show(got) + " rather than " + show(expected));
            } break;
            default: {
                auto other = c.draw(sets.size() - 1);
                op = "contains_any_of";
                bool got = sets[which].contains_any_of(sets[other]), expected = ! intersection(models[which], models[other]).empty();
                if (got != expected)
                    c.fail(show(models[which]) + " contains_any_of " + show(models[other]) + (got ? " is true" : " is false"));
            } break;
            }
            c.note() << op << " -> " << show(models[which]) << "; ";
            verify(op, which);
            if (models[which].size() != before)
                ++mutations;
            if (models[which].size() > 2)
                ++split;
        }

        if (! huge)
            for (std::size_t i = 0; i < sets.size(); ++i)
                check_values(c, sets[i], models[i]);
        for (std::size_t i = 0; i < sets.size(); ++i)
            verify("everything", i);
        if (mutations)
            c.nontrivial();
        if (split)
            c.label("three or more intervals");
    }

    auto bounds(Case & c) -> void
    {
        // sets that reach the end of the representable range, with queries that do too
        auto any = [&]() -> long long {
            return c.any_long();
        };
        auto a = any(), b = any();
        if (a > b)
            std::swap(a, b);
        IntervalSet<Integer> s{Integer{a}, Integer{b}};
        Ivs m{{a, b}};
        c.note() << show(m);
        for (auto n = 1 + c.draw(6); n; --n) {
            auto v = any(), w = any();
            switch (c.draw(4)) {
            case 0:
                c.note() << " erase " << v;
                s.erase(Integer{v});
                m = without(m, v, v);
                break;
            case 1:
                if (v > w)
                    std::swap(v, w);
                c.note() << " erase " << v << ".." << w;
                s.erase_range(Integer{v}, Integer{w});
                m = without(m, v, w);
                break;
            case 2:
                c.note() << " erase < " << v;
                s.erase_less_than(Integer{v});
                m = without(m, LMIN, static_cast<i128>(v) - 1);
                break;
            case 3:
                c.note() << " erase > " << v;
                s.erase_greater_than(Integer{v});
                m = without(m, static_cast<i128>(v) + 1, LMAX);
                break;
            default: {
                if (v > w)
                    std::swap(v, w);
                IntervalSet<Integer> t{Integer{v}, Integer{w}};
                c.note() << " intersect " << v << ".." << w;
                s.intersect_with(t);
                m = intersection(m, {{v, w}});
            } break;
            }
            vector<i128> probes{LMIN, LMAX, 0};
            for (auto & [l, u] : m) {
                probes.push_back(l);
                probes.push_back(u);
                if (l > LMIN)
                    probes.push_back(l - 1);
                if (u < LMAX)
                    probes.push_back(u + 1);
            }
            check_same(c, "an operation at the extremes", s, m, probes);
        }
        c.nontrivial();
    }

    auto tree(Case & c) -> void
    {
        IntervalTree t;
        std::set<pair<long long, long long>> model;
        bool extreme = c.chance(1, 8);
        long long width = c.pick(vector<long long>{3, 8, 20, 60}), base = c.pick(vector<long long>{0, -width / 2, -1'000'000'000});
        auto interval = [&]() {
            long long a = extreme ? c.any_long() : base + c.draw(width), b = extreme ? c.any_long() : base + c.draw(width);
            if (! extreme)
                switch (c.draw(3)) {
                case 0: b = a; break;
                case 1: b = a + c.draw(3); break;
                default: break;
                }
            if (a > b)
                std::swap(a, b);
            return pair{a, b};
        };
        auto steps = 1 + c.draw(c.chance(1, 4) ? 120 : 24);
        // sorted insertion orders are the ones a search tree finds hard
        vector<pair<long long, long long>> pending;
        for (std::size_t i = 0; i < steps; ++i)
            pending.push_back(interval());
        switch (c.draw(3)) {
        case 0: std::sort(pending.begin(), pending.end()); break;
        case 1: std::sort(pending.rbegin(), pending.rend()); break;
        default: break;
        }
        int answers = 0;
        auto query = [&]() {
            auto [lo, hi] = interval();
            if (c.chance(1, 3)) {
                auto p = c.pick(pending); // one that may be stored
                lo = p.first, hi = p.second;
            }
            vector<pair<long long, long long>> above, below, expected_above, expected_below;
            for (auto & [l, h] : model) {
                if (l <= lo && hi <= h)
                    expected_above.emplace_back(l, h);
                if (lo <= l && h <= hi)
                    expected_below.emplace_back(l, h);
            }
            const auto & ct = t;
            ct.for_each_containing(Integer{lo}, Integer{hi}, [&](Integer l, Integer h) { above.emplace_back(l.raw_value, h.raw_value); });
            ct.for_each_contained_in(Integer{lo}, Integer{hi}, [&](Integer l, Integer h) { below.emplace_back(l.raw_value, h.raw_value); });
            string q = std::to_string(lo) + ".." + std::to_string(hi);
            if (above != expected_above)
                c.fail("intervals containing " + q + ": " + std::to_string(above.size()) + " found in place of " +
                    std::to_string(expected_above.size()) + ", or not the right ones in the right order");
            if (below != expected_below)
                c.fail("intervals contained in " + q + ": " + std::to_string(below.size()) + " found in place of " +
                    std::to_string(expected_below.size()) + ", or not the right ones in the right order");
            answers += above.size() + below.size();
        };
        for (auto & [a, b] : pending) {
            c.note() << a << ".." << b << " ";
            t.insert(Integer{a}, Integer{b});
            model.emplace(a, b);
            if (c.chance(1, 3))
                query();
        }
        for (int i = 0; i < 6; ++i)
            query();
        if (c.chance(1, 4)) {
            auto moved = std::move(t);
            t = std::move(moved);
            query();
        }
        if (answers > 4)
            c.nontrivial();
        if (model.size() < pending.size())
            c.label("duplicate insertions");
        if (model.size() > 40)
            c.label("over forty stored");
    }
}

auto main(int argc, char ** argv) -> int
{
    return pbt::main(argc, argv,
        pbt::Suite{
            .id = "C02",
            .rule = "Histories of up to 24 operations on up to four interval sets (values small, at the ends of the range, or in huge intervals), "
                    "compared after each operation with a canonical interval list computed by brute force; and interval tree histories compared with "
                    "a sorted set that is searched completely. Non-trivial: the number of stored intervals changed at least once, or queries found "
                    "more than four intervals.",
            .properties =
                {
                    {"history-integer", 1200000, 12, [](Case & c) { history<Integer>(c, false, false); }},
                    {"history-extremes", 250000, 12, [](Case & c) { history<Integer>(c, false, true); }},
                    {"history-huge", 500000, 12, [](Case & c) { history<Integer>(c, true, false); }},
                    {"history-int", 200000, 12, [](Case & c) { history<int>(c, false, false); }},
                    {"history-long-long", 300000, 12, [](Case & c) { history<long long>(c, false, false); }},
                    {"bounds", 500000, 12, [](Case & c) { bounds(c); }},
                    {"tree", 800000, 12, [](Case & c) { tree(c); }},
                },
            .assumptions = {"gch::small_vector is a stand-in derived from std::vector; appended values are at least the current upper bound, as documented"},
        });
}

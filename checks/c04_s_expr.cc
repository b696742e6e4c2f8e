// C04: s-expressions: what is written reads back as the same term, reading ignores layout and
// nothing else, and text that is not a well-formed term is rejected.
#include <engine/pbt.hh>

#include <gcs/innards/s_expr.hh>

#include <format>
#include <memory>
#include <optional>

using namespace gcs;
using namespace gcs::innards;
using pbt::Case;
using std::optional;
using std::string;
using std::vector;

namespace
{
    // Our own terms, kept apart from the type under test.
    struct Term
    {
        bool list = false;
        string text;
        vector<Term> kids;
        auto operator==(const Term &) const -> bool = default;
    };

    auto canonical(const Term & t) -> string
    {
        if (! t.list)
            return t.text;
        string r = "(";
        for (std::size_t i = 0; i < t.kids.size(); ++i)
            r += (i ? " " : "") + canonical(t.kids[i]);
        return r + ")";
    }

    auto bare(const Term & t) -> string
    {
        auto r = canonical(t);
        return t.list ? r.substr(1, r.size() - 2) : r;
    }

    auto convert(const Term & t) -> SExpr
    {
        if (! t.list)
            return SExpr::atom(t.text);
        vector<SExpr> kids;
        for (auto & k : t.kids)
            kids.push_back(convert(k));
        return SExpr::list(std::move(kids));
    }

    auto convert_back(const SExpr & e) -> Term
    {
        Term t;
        t.list = e.is_list();
        if (e.is_atom())
            t.text = e.as_atom();
        else
            for (auto & k : e.as_list())
                t.kids.push_back(convert_back(k));
        return t;
    }

    auto blank(char c) -> bool
    {
        return c == ' ' || (c >= '\t' && c <= '\r');
    }

    // nullopt if not well-formed
    auto read_all(const string & s) -> optional<vector<Term>>
    {
        vector<vector<Term>> stack(1);
        string atom;
        auto end_atom = [&] {
            if (! atom.empty()) {
                stack.back().push_back(Term{false, atom, {}});
                atom.clear();
            }
        };
        for (char ch : s) {
            if (blank(ch))
                end_atom();
            else if (ch == '(') {
                end_atom();
                stack.emplace_back();
            }
            else if (ch == ')') {
                end_atom();
                if (stack.size() < 2)
                    return std::nullopt;
                auto kids = std::move(stack.back());
                stack.pop_back();
                stack.back().push_back(Term{true, "", std::move(kids)});
            }
            else
                atom += ch;
        }
        end_atom();
        if (stack.size() != 1)
            return std::nullopt;
        return stack[0];
    }

    auto gen_atom(Case & c) -> string
    {
        static const vector<string> usual{"_1", "-3", "all_different", ">=", "x", "neq", "17", "+", ",", "\"q\"", "a.b", "#", "'", ";c", "{}", "{:#}", "[", "]", "%", "\\", "|", "-_1", "1_i"};
        switch (c.weighted({6, 3, 1, 1})) {
        case 0: return c.pick(usual);
        case 1: {
            string s;
            for (auto n = 1 + c.draw(5); n; --n)
                s += static_cast<char>(c.range('!', '~'));
            for (auto & ch : s)
                if (ch == '(' || ch == ')')
                    ch = '_';
            return s;
        }
        case 2: {
            string s;
            for (auto n = 1 + c.draw(3); n; --n) {
                // any byte at all but a delimiter
                auto ch = static_cast<char>(c.draw(255));
                s += blank(ch) || ch == '(' || ch == ')' ? 'z' : ch;
            }
            return s;
        }
        default: return string(c.range(1, 300), 'y');
        }
    }

    auto gen_term(Case & c, int depth, int & budget) -> Term
    {
        --budget;
        if (depth <= 0 || budget <= 0 || c.chance(2, 5))
            return Term{false, gen_atom(c), {}};
        Term t{true, "", {}};
        for (auto n = c.draw(5); n && budget > 0; --n)
            t.kids.push_back(gen_term(c, depth - 1, budget));
        return t;
    }

    auto space(Case & c, bool needed) -> string
    {
        string r;
        for (auto n = c.chance(1, 3) ? c.draw(4) : 0; n; --n)
            r += c.pick(vector<char>{' ', '\t', '\n', '\r', '\f', '\v'});
        return r.empty() && needed ? " " : r;
    }

    // the same term, laid out at random
    auto layout(Case & c, const Term & t) -> string
    {
        if (! t.list)
            return t.text;
        string r = "(" + space(c, false);
        for (std::size_t i = 0; i < t.kids.size(); ++i) {
            bool needed = i && ! t.kids[i].list && ! t.kids[i - 1].list; // two atoms in a row
            r += (i ? space(c, needed) : "") + layout(c, t.kids[i]);
        }
        return r + space(c, false) + ")";
    }

    auto count(const Term & t) -> int
    {
        int r = 1;
        for (auto & k : t.kids)
            r += count(k);
        return r;
    }

    auto deep(Case & c) -> Term
    {
        Term t{true, "", {}};
        for (auto n = c.draw(400); n; --n) {
            Term o{true, "", {}};
            if (c.chance(1, 4))
                o.kids.push_back(Term{false, "a", {}});
            o.kids.push_back(std::move(t));
            if (c.chance(1, 4))
                o.kids.push_back(Term{false, "b", {}});
            t = std::move(o);
        }
        return t;
    }

    auto round_trip(Case & c) -> void
    {
        int budget = 1 + c.draw(40);
        auto t = c.chance(1, 30) ? deep(c) : gen_term(c, c.draw(7), budget);
        auto e = convert(t);
        auto text = canonical(t);
        c.note() << text;
        c.expect(convert_back(e) == t, "a built term reads differently through its accessors");
        c.expect(std::format("{}", e) == text, "format gives " + std::format("{}", e));
        c.expect(std::format("{:#}", e) == bare(t), "alternate format gives " + std::format("{:#}", e));
        c.expect(std::format("<{}|{:#}>", e, e) == "<" + text + "|" + bare(t) + ">", "format within other text");

        auto again = parse_s_expr(text);
        c.expect(again == e && convert_back(again) == t, "the canonical form reads back as " + std::format("{}", again));
        auto laid_out = space(c, false) + layout(c, t) + space(c, false);
        auto third = parse_s_expr(laid_out);
        c.expect(third == e && std::format("{}", third) == text, "laid out as \"" + laid_out + "\" it reads as " + std::format("{}", third));
        auto seq = parse_s_expr_seq(laid_out);
        c.expect(seq.size() == 1 && seq[0] == e, "as a sequence of one");
        if (t.list) {
            auto inside = parse_s_expr_seq(std::format("{:#}", e));
            c.expect(inside == e.as_list(), "the alternate form is not the list's contents");
        }

        // the two kinds, and asking for the wrong one
        c.expect(e.is_list() == t.list && e.is_atom() == ! t.list, "kind");
        bool threw = false;
        try {
            if (t.list)
                (void)e.as_atom();
            else
                (void)e.as_list();
        }
        catch (const SExprParseError &) {
            threw = true;
        }
        c.expect(threw, "asking for the wrong kind is not refused");

        // a different term is not equal
        int b2 = 1 + c.draw(8);
        auto other = c.chance(1, 2) ? gen_term(c, 3, b2) : t;
        if (other == t && other.list && ! other.kids.empty()) {
            auto & k = other.kids[c.draw(other.kids.size() - 1)];
            switch (c.draw(2)) {
            case 0: k = Term{true, "", {k}}; break;
            case 1: other.kids.push_back(k); break;
            default:
                if (! k.list)
                    k.text += "'";
                else
                    k.kids.push_back(Term{true, "", {}});
                break;
            }
        }
        c.expect((convert(other) == e) == (other == t), "comparing with " + canonical(other));
        if (count(t) > 3)
            c.nontrivial();
        if (count(t) > 20)
            c.label("over twenty nodes");
    }

    auto sequence(Case & c) -> void
    {
        vector<Term> ts;
        string text = space(c, false);
        for (auto n = c.draw(5); n; --n) {
            int budget = 1 + c.draw(10);
            auto t = gen_term(c, 4, budget);
            if (! ts.empty())
                text += space(c, ! t.list && ! ts.back().list);
            text += layout(c, t);
            ts.push_back(t);
        }
        text += space(c, false);
        c.note() << text;
        auto got = parse_s_expr_seq(text);
        c.expect(got.size() == ts.size(), "wrong number of terms");
        for (std::size_t i = 0; i < ts.size(); ++i)
            c.expect(convert_back(got[i]) == ts[i], "term " + std::to_string(i) + " is " + std::format("{}", got[i]));
        if (ts.size() != 1) {
            try {
                (void)parse_s_expr(text);
                c.fail(std::to_string(ts.size()) + " terms were read as exactly one");
            }
            catch (const SExprParseError &) {
            }
        }
        if (ts.size() > 1)
            c.nontrivial();
    }

    auto any_text(Case & c) -> void
    {
        string text;
        if (c.chance(1, 2)) {
            const vector<string> bits{"(", ")", " ", "a", "-1", "\n", "()", ")(", "x)", "(y", "\t", "\v", ";", "\"", string(1, '\0'), "\x80", "\xff"};
            for (auto n = c.draw(12); n; --n)
                text += c.pick(bits);
        }
        else {
            int budget = 1 + c.draw(12);
            text = layout(c, gen_term(c, 4, budget));
            for (auto n = 1 + c.draw(2); n && ! text.empty(); --n)
                switch (c.draw(2)) {
                case 0: text.erase(c.draw(text.size() - 1), 1); break;
                case 1: text.insert(c.draw(text.size()), 1, c.pick(vector<char>{'(', ')', ' ', 'q'})); break;
                default: text.resize(c.draw(text.size())); break;
                }
        }
        c.note() << "\"" << text << "\"";
        auto expected = read_all(text);
        c.label(! expected ? "malformed" : expected->size() == 1 ? "one term" : expected->empty() ? "nothing" : "several terms");
        // a view of part of a larger buffer: what lies beyond must not matter
        auto buffer = text + (c.chance(1, 2) ? " ) tail" : "))((");
        auto view = std::string_view{buffer}.substr(0, text.size());
        try {
            auto got = parse_s_expr_seq(view);
            if (! expected)
                c.fail("a malformed sequence was read, as " + std::to_string(got.size()) + " terms");
            c.expect(got.size() == expected->size(), "wrong number of terms");
            for (std::size_t i = 0; i < got.size(); ++i)
                c.expect(convert_back(got[i]) == (*expected)[i], "term " + std::to_string(i) + " is " + std::format("{}", got[i]));
        }
        catch (const SExprParseError & e) {
            if (expected)
                c.fail(string{"a well-formed sequence was rejected: "} + e.what());
        }
        try {
            auto got = parse_s_expr(view);
            if (! expected || expected->size() != 1)
                c.fail("read as a single term, " + std::format("{}", got));
            c.expect(convert_back(got) == (*expected)[0], "the term is " + std::format("{}", got));
        }
        catch (const SExprParseError & e) {
            if (expected && expected->size() == 1)
                c.fail(string{"a single well-formed term was rejected: "} + e.what());
        }
        if (text.size() > 2)
            c.nontrivial();
    }
}

auto main(int argc, char ** argv) -> int
{
    return pbt::main(argc, argv,
        pbt::Suite{
            .id = "C04",
            .rule = "Generated terms of up to 40 nodes or 400 levels, laid out with random whitespace; and token strings and edited terms. "
                    "Compared with separately written printing and reading. Non-trivial: over three nodes, more than one term, or over two characters.",
            .properties = {{"round-trip", 1200000, 12, [](Case & c) { round_trip(c); }}, {"sequence", 900000, 12, [](Case & c) { sequence(c); }},
                {"any-text", 2400000, 12, [](Case & c) { any_text(c); }}},
            .assumptions = {"nesting is at most 400 levels deep: the reader and writer are recursive"},
        });
}

// C03: a regular expression compiles to an automaton for exactly its language, and
// a string outside the grammar is rejected.
#include <engine/pbt.hh>

#include <gcs/constraints/regular/regex.hh>
#include <gcs/exception.hh>

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>

using namespace gcs;
using namespace gcs::innards;
using pbt::Case;
using std::optional;
using std::set;
using std::string;
using std::vector;

namespace
{
    using Word = vector<long long>;

    // ---- our own syntax trees ----
    struct Node;
    using P = std::shared_ptr<Node>;

    struct Node
    {
        enum Kind
        {
            Literal,
            Any,
            Class,
            Concat,
            Alt,
            Repeat
        } kind;
        long long value = 0;
        bool negated = false;
        vector<std::pair<long long, long long>> items;  // of a class; first == second where written as one value
        vector<P> kids;
        long long lo = 0;
        optional<long long> hi;
    };

    auto make(Node::Kind k) -> P
    {
        auto n = std::make_shared<Node>();
        n->kind = k;
        return n;
    }

    auto in_class(const Node & n, long long v) -> bool
    {
        for (auto & [a, b] : n.items)
            if (std::min(a, b) <= v && v <= std::max(a, b))
                return true;
        return false;
    }

    // How big the automaton could get, so that we do not ask for enormous ones.
    auto cost(const Node & n) -> double
    {
        double r = 1;
        for (auto & [a, b] : n.items)
            r += static_cast<double>(std::max(a, b)) - static_cast<double>(std::min(a, b));
        for (auto & k : n.kids)
            r += cost(*k);
        if (n.kind == Node::Repeat)
            r *= 1.0 + static_cast<double>(n.hi.value_or(n.lo + 1));
        return r;
    }

    // Where can a match of n starting at i end? Memoised on (node, start).
    struct Matcher
    {
        const set<long long> & alphabet;
        const Word & w;
        std::map<std::pair<const Node *, std::size_t>, set<std::size_t>> memo;

        auto ends(const Node & n, std::size_t i) -> const set<std::size_t> &
        {
            auto key = std::pair{&n, i};
            if (auto it = memo.find(key); it != memo.end())
                return it->second;
            set<std::size_t> r;
            switch (n.kind) {
            case Node::Literal:
                if (i < w.size() && w[i] == n.value)
                    r.insert(i + 1);
                break;
            case Node::Any:
                if (i < w.size() && alphabet.contains(w[i]))
                    r.insert(i + 1);
                break;
            case Node::Class:
                if (i < w.size() && (n.negated ? alphabet.contains(w[i]) && ! in_class(n, w[i]) : in_class(n, w[i])))
                    r.insert(i + 1);
                break;
            case Node::Alt:
                for (auto & k : n.kids)
                    for (auto e : ends(*k, i))
                        r.insert(e);
                break;
            case Node::Concat: {
                r = {i};
                for (auto & k : n.kids) {
                    set<std::size_t> next;
                    for (auto s : r)
                        for (auto e : ends(*k, s))
                            next.insert(e);
                    r = next;
                }
            } break;
            case Node::Repeat: {
                // after exactly c repetitions, for every c that matters: once the set stops being new, it cycles
                set<std::size_t> now{i};
                if (n.lo == 0)
                    r.insert(i);
                set<set<std::size_t>> seen_beyond;
                for (long long c = 1; ! n.hi || c <= *n.hi; ++c) {
                    set<std::size_t> next;
                    for (auto s : now)
                        for (auto e : ends(*n.kids[0], s))
                            next.insert(e);
                    now = next;
                    if (now.empty())
                        break;
                    if (c >= n.lo) {
                        r.insert(now.begin(), now.end());
                        if (! seen_beyond.insert(now).second)
                            break;
                    }
                }
            } break;
            }
            return memo[key] = r;
        }

        auto accepts(const Node & n) -> bool
        {
            return ends(n, 0).contains(w.size());
        }
    };

    // ---- our own reader: all ways of reading tokens as each nonterminal, straight from the grammar ----
    struct Token
    {
        char kind; // 'i' for an integer
        long long value = 0;
    };

    auto lex(const string & s) -> optional<vector<Token>>
    {
        vector<Token> r;
        for (std::size_t i = 0; i < s.size(); ++i) {
            if (string{" \t\n"}.find(s[i]) != string::npos)
                continue;
            if (isdigit(static_cast<unsigned char>(s[i]))) {
                __int128 v = 0;
                auto j = i;
                for (; j < s.size() && isdigit(static_cast<unsigned char>(s[j])); ++j) {
                    v = v * 10 + (s[j] - '0');
                    if (v > 9223372036854775807LL)
                        return std::nullopt;
                }
                r.push_back({'i', static_cast<long long>(v)});
                i = j - 1;
            }
            else if (s[i] != '\0' && string{"|+*()?{},.[]-^"}.find(s[i]) != string::npos)
                r.push_back({s[i], 0});
            else
                return std::nullopt;
        }
        return r;
    }

    struct Grammar
    {
        const vector<Token> & t;
        std::map<std::pair<int, std::size_t>, vector<std::pair<P, std::size_t>>> memo;
        using Ways = vector<std::pair<P, std::size_t>>;

        auto is(std::size_t i, char k) const -> bool
        {
            return i < t.size() && t[i].kind == k;
        }

        auto atom(std::size_t i) -> Ways
        {
            Ways r;
            if (is(i, 'i')) {
                auto n = make(Node::Literal);
                n->value = t[i].value;
                r.emplace_back(n, i + 1);
            }
            if (is(i, '.'))
                r.emplace_back(make(Node::Any), i + 1);
            if (is(i, '('))
                for (auto & [n, e] : expression(i + 1))
                    if (is(e, ')'))
                        r.emplace_back(n, e + 1);
            if (is(i, '[')) {
                auto n = make(Node::Class);
                auto j = i + 1;
                if (is(j, '^')) {
                    n->negated = true;
                    ++j;
                }
                while (is(j, 'i')) {
                    if (is(j + 1, '-')) {
                        if (! is(j + 2, 'i'))
                            return r;
                        n->items.emplace_back(t[j].value, t[j + 2].value);
                        j += 3;
                    }
                    else {
                        n->items.emplace_back(t[j].value, t[j].value);
                        ++j;
                    }
                }
                if (! n->items.empty() && is(j, ']'))
                    r.emplace_back(n, j + 1);
            }
            return r;
        }

        auto factor(std::size_t i) -> const Ways &
        {
            auto key = std::pair{1, i};
            if (auto it = memo.find(key); it != memo.end())
                return it->second;
            Ways r;
            for (auto & [a, e] : atom(i)) {
                r.emplace_back(a, e);
                auto repeat = [&](long long lo, optional<long long> hi, std::size_t end) {
                    auto n = make(Node::Repeat);
                    n->kids.push_back(a);
                    n->lo = lo;
                    n->hi = hi;
                    r.emplace_back(n, end);
                };
                if (is(e, '*'))
                    repeat(0, std::nullopt, e + 1);
                if (is(e, '+'))
                    repeat(1, std::nullopt, e + 1);
                if (is(e, '?'))
                    repeat(0, 1, e + 1);
                if (is(e, '{') && is(e + 1, 'i')) {
                    auto lo = t[e + 1].value;
                    if (is(e + 2, '}'))
                        repeat(lo, lo, e + 3);
                    if (is(e + 2, ',') && is(e + 3, '}'))
                        repeat(lo, std::nullopt, e + 4);
                    if (is(e + 2, ',') && is(e + 3, 'i') && is(e + 4, '}') && t[e + 3].value >= lo)
                        repeat(lo, t[e + 3].value, e + 5);
                }
            }
            return memo[key] = r;
        }

        auto term(std::size_t i) -> const Ways &
        {
            auto key = std::pair{2, i};
            if (auto it = memo.find(key); it != memo.end())
                return it->second;
            Ways r;
            for (auto & [f, e] : factor(i)) {
                r.emplace_back(f, e);
                for (auto & [rest, end] : term(e)) {
                    auto n = make(Node::Concat);
                    n->kids = {f, rest};
                    r.emplace_back(n, end);
                }
            }
            return memo[key] = r;
        }

        auto expression(std::size_t i) -> const Ways &
        {
            auto key = std::pair{3, i};
            if (auto it = memo.find(key); it != memo.end())
                return it->second;
            Ways r;
            for (auto & [a, e] : term(i)) {
                r.emplace_back(a, e);
                if (is(e, '|'))
                    for (auto & [b, end] : expression(e + 1)) {
                        auto n = make(Node::Alt);
                        n->kids = {a, b};
                        r.emplace_back(n, end);
                    }
            }
            return memo[key] = r;
        }
    };

    auto read(const string & s) -> P
    {
        auto t = lex(s);
        if (! t)
            return nullptr;
        Grammar g{*t, {}};
        for (auto & [n, e] : g.expression(0))
            if (e == t->size())
                return n;
        return nullptr;
    }

    // ---- generation ----
    struct Gen
    {
        Case & c;
        int budget;

        auto symbol() -> long long
        {
            switch (c.weighted({12, 3, 2, 1})) {
            case 0: return c.draw(4);
            case 1: return c.draw(12);
            case 2: return c.range(10, 130);
            default: return c.pick(vector<long long>{9223372036854775807LL, 1000000007, 9223372036854775800LL});
            }
        }

        auto node(int depth) -> P
        {
            --budget;
            auto kind = depth <= 0 || budget <= 0 ? c.weighted({6, 2, 2}) : c.weighted({5, 2, 3, 7, 5, 8});
            switch (kind) {
            case 0: {
                auto n = make(Node::Literal);
                n->value = symbol();
                return n;
            }
            case 1: return make(Node::Any);
            case 2: {
                auto n = make(Node::Class);
                n->negated = c.chance(2, 5);
                for (auto k = 1 + c.draw(2); k; --k) {
                    auto a = symbol(), b = a;
                    if (c.chance(1, 2)) {
                        b = c.chance(1, 4) && a >= 9 ? a - c.draw(9) : a > 9223372036854775000LL ? 9223372036854775807LL : a + c.draw(6);
                        if (c.chance(1, 4))
                            std::swap(a, b);
                        if (std::max(a, b) - std::min(a, b) > 300)
                            b = a;
                    }
                    n->items.emplace_back(a, b);
                }
                return n;
            }
            case 3: {
                auto n = make(Node::Concat);
                for (auto k = 2 + c.draw(1); k; --k)
                    n->kids.push_back(node(depth - 1));
                return n;
            }
            case 4: {
                auto n = make(Node::Alt);
                for (auto k = 2 + c.draw(1); k; --k)
                    n->kids.push_back(node(depth - 1));
                return n;
            }
            default: {
                auto n = make(Node::Repeat);
                n->kids.push_back(node(depth - 1));
                switch (c.draw(5)) {
                case 0:
                case 1: n->lo = 0; break;
                case 2: n->lo = 1; break;
                case 3:
                    n->lo = 0;
                    n->hi = 1;
                    break;
                default:
                    n->lo = c.draw(3);
                    if (c.chance(2, 3))
                        n->hi = n->lo + c.draw(2);
                }
                return n;
            }
            }
        }

        auto space() -> string
        {
            if (! c.chance(1, 6))
                return "";
            return c.pick(vector<string>{" ", "  ", "\t", "\n"});
        }

        auto number(long long v) -> string
        {
            return (c.chance(1, 30) ? "0" : "") + std::to_string(v);
        }

        // level: 0 expression, 1 term, 2 factor, 3 atom
        auto write(const Node & n, int level) -> string
        {
            auto group = [&](int needs, const string & s) { return level > needs || c.chance(1, 12) ? "(" + space() + s + space() + ")" : s; };
            auto join = [&](const string & a, const string & b) {
                bool digits = ! a.empty() && ! b.empty() && isdigit(static_cast<unsigned char>(a.back())) && isdigit(static_cast<unsigned char>(b.front()));
                return a + (digits ? " " : space()) + b;
            };
            switch (n.kind) {
            case Node::Literal: return group(3, number(n.value));
            case Node::Any: return group(3, ".");
            case Node::Class: {
                string s = n.negated ? "[" + space() + "^" : "[";
                for (auto & [a, b] : n.items)
                    s = join(s, a == b ? number(a) : number(a) + space() + "-" + space() + number(b));
                return group(3, s + space() + "]");
            }
            case Node::Concat: {
                string s;
                for (auto & k : n.kids)
                    s = join(s, write(*k, 2));
                return group(1, s);
            }
            case Node::Alt: {
                string s;
                for (auto & k : n.kids)
                    s += (s.empty() ? "" : space() + "|" + space()) + write(*k, 1);
                return group(0, s);
            }
            default: {
                string s = write(*n.kids[0], 3) + space();
                if (n.lo == 0 && ! n.hi && c.chance(3, 4))
                    return group(2, s + "*");
                if (n.lo == 1 && ! n.hi && c.chance(3, 4))
                    return group(2, s + "+");
                if (n.lo == 0 && n.hi && *n.hi == 1 && c.chance(3, 4))
                    return group(2, s + "?");
                s += "{" + space() + number(n.lo) + space();
                if (! n.hi)
                    s += ",";
                else if (*n.hi != n.lo || c.chance(1, 3))
                    s += "," + space() + number(*n.hi);
                return group(2, s + space() + "}");
            }
            }
        }

        // a word that is in the language, if we can make one
        auto member(const Node & n, const set<long long> & alphabet, Word & out) -> bool
        {
            switch (n.kind) {
            case Node::Literal: out.push_back(n.value); return true;
            case Node::Any:
                if (alphabet.empty())
                    return false;
                out.push_back(c.pick(vector<long long>(alphabet.begin(), alphabet.end())));
                return true;
            case Node::Class: {
                vector<long long> vs;
                if (n.negated) {
                    for (auto & v : alphabet)
                        if (! in_class(n, v))
                            vs.push_back(v);
                }
                else
                    for (auto & [a, b] : n.items) {
                        vs.push_back(a);
                        vs.push_back(b);
                        vs.push_back(std::min(a, b) + (std::max(a, b) - std::min(a, b)) / 2);
                    }
                if (vs.empty())
                    return false;
                out.push_back(c.pick(vs));
                return true;
            }
            case Node::Concat:
                for (auto & k : n.kids)
                    if (! member(*k, alphabet, out))
                        return false;
                return true;
            case Node::Alt: return member(*n.kids[c.draw(n.kids.size() - 1)], alphabet, out);
            default:
                for (auto k = n.lo + static_cast<long long>(c.draw(n.hi ? std::min(3LL, *n.hi - n.lo) : 2)); k; --k)
                    if (out.size() > 60 || ! member(*n.kids[0], alphabet, out))
                        return false;
                return true;
            }
        }
    };

    auto show(const Word & w) -> string
    {
        string r = "<";
        for (auto & v : w)
            r += (r.size() > 1 ? " " : "") + std::to_string(v);
        return r + ">";
    }

    auto check_shape(Case & c, const RegexNfa & nfa) -> void
    {
        c.expect(nfa.num_states >= 1, "no states");
        c.expect(nfa.transitions.size() == static_cast<std::size_t>(nfa.num_states), "the number of states does not match the transitions");
        for (auto & m : nfa.transitions)
            for (auto & [_, to] : m)
                for (auto & q : to)
                    c.expect(q >= 0 && q < nfa.num_states, "a transition leaves the automaton");
        for (auto & q : nfa.final_states)
            c.expect(q >= 0 && q < nfa.num_states, "a final state outside the automaton");
    }

    auto nfa_accepts(const RegexNfa & nfa, const Word & w) -> bool
    {
        set<long> now{0};
        for (auto & v : w) {
            set<long> next;
            for (auto & q : now)
                if (auto it = nfa.transitions[q].find(Integer{v}); it != nfa.transitions[q].end())
                    next.insert(it->second.begin(), it->second.end());
            now = next;
        }
        for (auto & q : nfa.final_states)
            if (now.contains(q))
                return true;
        return false;
    }

    auto compare_language(Case & c, Gen & g, const string & text, const Node & tree) -> void
    {
        // a contiguous range of values, as the callers pass, or any set of them
        set<long long> alphabet;
        vector<Integer> given;
        switch (c.weighted({6, 2, 1, 1})) {
        case 0: {
            auto lo = c.around_zero(-3, 3), hi = lo + static_cast<long long>(c.draw(4));
            for (auto v = lo; v <= hi; ++v)
                alphabet.insert(v);
        } break;
        case 1:
            for (auto v = c.around_zero(-2, 9), n = static_cast<long long>(c.draw(9)); n >= 0; --n)
                alphabet.insert(v++);
            break;
        case 2:
            for (auto n = c.draw(5); n; --n)
                alphabet.insert(c.around_zero(-5, 130));
            break;
        default: alphabet = {0, 1}; break;
        }
        for (auto & v : alphabet)
            given.emplace_back(v);
        if (c.chance(1, 6))
            std::reverse(given.begin(), given.end());
        c.note() << " over";
        for (auto & v : given)
            c.note() << " " << v.raw_value;

        RegexNfa nfa = [&] {
            try {
                return regex_to_nfa(text, given);
            }
            catch (const InvalidProblemDefinitionException & e) {
                c.fail(string{"a well-formed expression was rejected: "} + e.what());
            }
        }();
        check_shape(c, nfa);

        vector<Word> words{{}};
        // every short word over a few symbols
        vector<long long> few(alphabet.begin(), alphabet.end());
        if (few.size() > 3)
            few.resize(3);
        few.push_back(g.symbol());
        std::size_t from = 0, max_length = c.chance(1, 4) ? 4 : 3;
        for (std::size_t len = 1; len <= max_length; ++len) {
            auto to = words.size();
            for (; from < to; ++from)
                for (auto & v : few) {
                    auto w = words[from];
                    w.push_back(v);
                    words.push_back(w);
                }
        }
        // words in the language, and words near them
        for (int k = 0; k < 6; ++k) {
            Word w;
            if (! g.member(tree, alphabet, w))
                continue;
            words.push_back(w);
            auto x = w;
            switch (c.draw(3)) {
            case 0: x.insert(x.begin() + c.draw(x.size()), g.symbol()); break;
            case 1:
                if (! x.empty())
                    x.erase(x.begin() + c.draw(x.size() - 1));
                break;
            case 2:
                if (! x.empty())
                    x[c.draw(x.size() - 1)] = c.chance(1, 2) ? -1 : g.symbol();
                break;
            default: x.insert(x.end(), w.begin(), w.end()); break;
            }
            words.push_back(x);
        }

        int yes = 0, no = 0;
        std::size_t index = 0;
        for (auto & w : words) {
            Matcher m{alphabet, w, {}};
            bool expected = m.accepts(tree);
            if (nfa_accepts(nfa, w) != expected)
                c.fail("the automaton " + string{expected ? "rejects " : "accepts "} + show(w));
            ++(expected ? yes : no);
            if (index++ % 8 == 0 || index > words.size() - 4) {
                vector<Integer> seq;
                for (auto & v : w)
                    seq.emplace_back(v);
                if (regex_reference_accepts(text, given, seq) != expected)
                    c.fail("the reference matcher " + string{expected ? "rejects " : "accepts "} + show(w));
            }
        }
        if (yes && no)
            c.nontrivial();
        if (yes > 20)
            c.label("over twenty accepted words");
        if (tree.kind == Node::Repeat || tree.kind == Node::Concat || tree.kind == Node::Alt)
            c.label("compound expression");
    }

    auto language(Case & c) -> void
    {
        Gen g{c, static_cast<int>(3 + c.draw(14))};
        auto tree = g.node(4);
        if (cost(*tree) > 1500)
            c.discard();
        auto text = g.space() + g.write(*tree, 0) + g.space();
        c.note() << "\"" << text << "\"";
        auto again = read(text);
        c.expect(again != nullptr, "the check's own reader rejects what it wrote");
        compare_language(c, g, text, *tree);
    }

    auto any_string(Case & c) -> void
    {
        // strings of tokens, and well-formed strings with small changes
        Gen g{c, static_cast<int>(2 + c.draw(6))};
        string text;
        const vector<string> tokens{"1", "2", "3", "0", "12", " ", "|", "+", "*", "(", ")", "?", "{", "}", ",", ".", "[", "]", "-", "^", "{2}", "{1,}",
            "{1,2}", "{2,1}", "[1-3]", "[^1]", "()", "[]", "\t", "\n", "a", "\\", "$", "\r", "_", "9223372036854775807", "9223372036854775808",
            "18446744073709551617", "99999999999999999999999", "\xc3\xa9", ";", "\"", "/", "<", ":"};
        auto token = [&]() -> string {
            // legal ones mostly, or hardly any string would be
            return tokens[c.chance(1, 25) ? c.draw(tokens.size() - 1) : c.draw(28)];
        };
        if (c.chance(1, 2)) {
            for (auto n = c.draw(9); n; --n)
                text += token();
        }
        else {
            auto tree = g.node(3);
            if (cost(*tree) > 400)
                c.discard();
            text = g.write(*tree, 0);
            for (auto n = 1 + c.draw(2); n && ! text.empty(); --n)
                switch (c.draw(3)) {
                case 0: text.erase(c.draw(text.size() - 1), 1); break;
                case 1: text.insert(c.draw(text.size()), token()); break;
                case 2: {
                    auto i = c.draw(text.size() - 1);
                    text[i] = text[c.draw(text.size() - 1)];
                } break;
                default: text.resize(c.draw(text.size())); break;
                }
        }
        c.note() << "\"" << text << "\"";
        auto tree = read(text);
        if (tree && cost(*tree) > 3000)
            c.discard();
        if (tree) {
            c.label("well-formed");
            compare_language(c, g, text, *tree);
        }
        else {
            c.label("malformed");
            c.nontrivial();
            // an enormous quantifier in a malformed string must not be expanded before the rest is read: keep to small ones
            if (auto t = lex(text))
                for (auto & k : *t)
                    if (k.kind == 'i' && k.value > 200)
                        for (auto & j : *t)
                            if (j.kind == '{' || j.kind == '-')
                                c.discard();
            try {
                (void)regex_to_nfa(text, {0_i, 1_i, 2_i});
            }
            catch (const InvalidProblemDefinitionException &) {
                try {
                    (void)regex_reference_accepts(text, {0_i, 1_i, 2_i}, {1_i});
                }
                catch (const InvalidProblemDefinitionException &) {
                    return;
                }
                c.fail("the reference matcher reads a malformed expression");
            }
            c.fail("a malformed expression was accepted");
        }
    }
}

auto main(int argc, char ** argv) -> int
{
    return pbt::main(argc, argv,
        pbt::Suite{
            .id = "C03",
            .rule = "Expressions written from generated syntax trees (with random spacing and redundant groups), strings of tokens, and expressions with "
                    "small edits. The automaton and the reference matcher are compared, on every word of up to three or four symbols and on "
                    "words built to be in or near the language, with a separate matcher over the tree; what a separate reader of the published "
                    "grammar rejects must be rejected. Non-trivial: both an accepted and a rejected word were compared, or the string is malformed.",
            .properties = {{"language", 60000, 12, [](Case & c) { language(c); }}, {"any-string", 120000, 12, [](Case & c) { any_string(c); }}},
            .assumptions = {"the grammar is the one in the header's documentation, which is MiniZinc's"},
        });
}

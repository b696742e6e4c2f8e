#include <checks/proof/pbp.hh>

#include <algorithm>
#include <cctype>
#include <cstdlib>
#include <fstream>

using std::pair;
using std::size_t;
using std::string;
using std::string_view;
using std::to_string;
using std::vector;

namespace pbp
{
    namespace
    {
        constexpr Big limit = Big{1} << 110;

        auto checked(Big b) -> Big
        {
            if (b > limit || b < -limit)
                throw TooLarge{};
            return b;
        }

        auto times(Big a, Big b) -> Big
        {
            if (a == 0 || b == 0)
                return 0;
            auto m = a < 0 ? -a : a, n = b < 0 ? -b : b;
            if (m > limit / n)
                throw TooLarge{};
            return a * b;
        }

        auto number(string_view s, Big & out) -> bool
        {
            size_t i = 0;
            bool neg = false;
            if (i < s.size() && (s[i] == '-' || s[i] == '+'))
                neg = s[i++] == '-';
            if (i == s.size())
                return false;
            Big v = 0;
            for (; i < s.size(); ++i) {
                if (s[i] < '0' || s[i] > '9')
                    return false;
                v = checked(v * 10 + (s[i] - '0'));
            }
            out = neg ? -v : v;
            return true;
        }

        // Words, with a ; that ends one, or a : that follows a number or ends one, as words of their own.
        auto words(string_view line) -> vector<string_view>
        {
            vector<string_view> r;
            size_t i = 0;
            while (i < line.size()) {
                while (i < line.size() && std::isspace(static_cast<unsigned char>(line[i])))
                    ++i;
                if (i == line.size())
                    break;
                auto b = i;
                while (i < line.size() && ! std::isspace(static_cast<unsigned char>(line[i])))
                    ++i;
                auto w = line.substr(b, i - b);
                bool semi = w.size() > 1 && w.back() == ';';
                auto body = semi ? w.substr(0, w.size() - 1) : w;
                // "3:-1" or "3::hint"
                size_t d = 0;
                if (d < body.size() && body[d] == '-')
                    ++d;
                while (d < body.size() && std::isdigit(static_cast<unsigned char>(body[d])))
                    ++d;
                if (d > 0 && d < body.size() && body[d] == ':' && std::isdigit(static_cast<unsigned char>(body[d - 1]))) {
                    r.push_back(body.substr(0, d));
                    r.push_back(body.substr(d, 1));
                    if (d + 1 < body.size())
                        r.push_back(body.substr(d + 1));
                }
                else if (body.size() > 1 && body.back() == ':') {
                    r.push_back(body.substr(0, body.size() - 1));
                    r.push_back(body.substr(body.size() - 1));
                }
                else
                    r.push_back(body);
                if (semi)
                    r.push_back(w.substr(w.size() - 1));
            }
            return r;
        }
    }

    auto Inequality::operator==(const Inequality & o) const -> bool
    {
        return degree == o.degree &&
            std::equal(terms.begin(), terms.end(), o.terms.begin(), o.terms.end(),
                [](const Term & a, const Term & b) { return a.lit == b.lit && a.coeff == b.coeff; });
    }

    auto negate(const Inequality & i) -> Inequality
    {
        // not (sum >= d): sum <= d - 1: sum of c * ~l >= total - d + 1
        Inequality r;
        Big total = 0;
        for (auto & t : i.terms) {
            total += t.coeff;
            r.terms.push_back({t.coeff, t.lit ^ 1});
        }
        r.degree = checked(total) - i.degree + 1;
        return r;
    }

    namespace
    {
        auto weakly_implied(const Inequality & wanted, const Inequality & given, bool sat) -> bool
        {
            if (wanted.degree <= 0)
                return true;
            if (given.degree <= 0)
                return false;
            // take each term down to what is wanted of it, dropping the rest
            Big d = given.degree;
            auto w = wanted.terms.begin();
            for (auto & t : given.terms) {
                while (w != wanted.terms.end() && (w->lit >> 1) < (t.lit >> 1))
                    ++w;
                auto c = sat && t.coeff > given.degree ? given.degree : t.coeff;
                Big keep = 0;
                if (w != wanted.terms.end() && w->lit == t.lit)
                    keep = c < w->coeff ? c : w->coeff;
                d -= c - keep;
            }
            return d >= wanted.degree;
        }
    }

    auto implied_by(const Inequality & wanted, const Inequality & given) -> bool
    {
        if (weakly_implied(wanted, given, false) || weakly_implied(wanted, given, true))
            return true;
        // a wanted inequality whose coefficients exceed its degree is the same as the saturated one
        Inequality s = wanted;
        bool changed = false;
        for (auto & t : s.terms)
            if (t.coeff > s.degree) {
                t.coeff = s.degree;
                changed = true;
            }
        return changed && (weakly_implied(s, given, false) || weakly_implied(s, given, true));
    }

    auto Checker::refuse(const string & why) const -> void
    {
        throw Refused{_line.empty() ? why : why + ", in: " + _line.substr(0, 600)};
    }

    auto Checker::literal(string_view name, bool create) -> Lit
    {
        bool neg = ! name.empty() && name.front() == '~';
        if (neg)
            name.remove_prefix(1);
        auto i = _ids.find(name);
        if (i != _ids.end())
            return i->second * 2 + neg;
        if (! create)
            refuse("unknown variable " + string{name});
        if (name.empty() || ! (std::isalpha(static_cast<unsigned char>(name.front())) || name.front() == '_'))
            refuse("\"" + string{name} + "\" is not the name of a variable");
        _names.emplace_back(name);
        auto v = static_cast<int>(_names.size()) - 1;
        _ids.emplace(string_view{_names.back()}, v);
        _occ.resize(_names.size() * 2);
        _value.resize(_names.size() * 2, 0);
        _preserved.resize(_names.size(), false);
        return v * 2 + neg;
    }

    auto Checker::find(string_view name) const -> std::optional<Lit>
    {
        bool neg = ! name.empty() && name.front() == '~';
        auto i = _ids.find(neg ? name.substr(1) : name);
        if (i == _ids.end())
            return std::nullopt;
        return i->second * 2 + neg;
    }

    auto Checker::name_of(Lit l) const -> string
    {
        return (l & 1 ? "~" : "") + _names.at(l >> 1);
    }

    auto Checker::normalise(vector<pair<Big, Lit>> terms, Big bound) const -> Inequality
    {
        std::sort(terms.begin(), terms.end(), [](auto & a, auto & b) { return a.second < b.second; });
        Inequality r;
        for (size_t i = 0; i < terms.size();) {
            auto v = terms[i].second >> 1;
            Big c = 0; // of the positive literal
            for (; i < terms.size() && terms[i].second >> 1 == v; ++i)
                if (terms[i].second & 1) {
                    c -= terms[i].first;
                    bound -= terms[i].first;
                }
                else
                    c += terms[i].first;
            checked(c);
            if (c > 0)
                r.terms.push_back({c, v * 2});
            else if (c < 0) {
                r.terms.push_back({-c, v * 2 + 1});
                bound -= c;
            }
        }
        r.degree = checked(bound);
        return r;
    }

    auto Checker::skip_id() -> void
    {
        _cons.emplace_back().alive = false;
    }

    auto Checker::add(Inequality i) -> int
    {
        auto id = static_cast<int>(_cons.size());
        _cons.emplace_back().ineq = std::move(i);
        insert(id);
        if (auto trace = std::getenv("VERIF_TRACE_PROOF")) // for looking at a failure
            std::ofstream{trace, std::ios::app} << id << ": " << text(_cons[id].ineq) << '\n';
        return id;
    }

    auto Checker::text(const Inequality & i) const -> string
    {
        string s;
        for (auto & t : i.terms)
            s += to_string(static_cast<long long>(t.coeff)) + " " + name_of(t.lit) + " ";
        return s + ">= " + to_string(static_cast<long long>(i.degree));
    }

    auto Checker::insert(int id) -> void
    {
        auto & c = _cons[id];
        c.slack = -c.ineq.degree;
        c.largest = 0;
        for (auto & t : c.ineq.terms) {
            if (_value[t.lit] >= 0)
                c.slack += t.coeff;
            c.largest = std::max(c.largest, t.coeff);
            _occ[t.lit].emplace_back(id, t.coeff);
        }
        if (c.slack < c.largest) {
            c.queued = true;
            _pending.push_back(id);
        }
    }

    auto Checker::erase(int id) -> void
    {
        auto & c = _cons[id];
        for (auto & t : c.ineq.terms) {
            auto & o = _occ[t.lit];
            // most likely to be near the end
            for (auto i = o.size(); i-- > 0;)
                if (o[i].first == id) {
                    o[i] = o.back();
                    o.pop_back();
                    break;
                }
        }
        c.alive = false;
        if (c.queued) {
            c.queued = false;
            std::erase(_pending, id);
        }
    }

    auto Checker::delete_id(int id) -> void
    {
        bool mattered = _cons[id].reason;
        erase(id);
        _cons[id].ineq.terms = {};
        if (mattered)
            rebuild_root();
    }

    auto Checker::rebuild_root() -> void
    {
        undo_to(0);
        _root_conflict = false;
        for (auto id : _pending)
            _cons[id].queued = false;
        _pending.clear();
        for (size_t i = 1; i < _cons.size(); ++i) {
            auto & c = _cons[i];
            c.reason = false;
            if (c.alive && c.slack < c.largest) {
                c.queued = true;
                _pending.push_back(static_cast<int>(i));
            }
        }
        if (! propagate(true))
            _root_conflict = true;
    }

    auto Checker::assign(Lit l) -> void
    {
        _value[l] = 1;
        _value[l ^ 1] = -1;
        _trail.push_back(l);
        for (auto & [id, c] : _occ[l ^ 1]) {
            auto & k = _cons[id];
            k.slack -= c;
            if (! k.queued && k.slack < k.largest) {
                k.queued = true;
                _pending.push_back(id);
            }
        }
    }

    auto Checker::undo_to(size_t n) -> void
    {
        while (_trail.size() > n) {
            auto l = _trail.back();
            _trail.pop_back();
            _value[l] = _value[l ^ 1] = 0;
            for (auto & [id, c] : _occ[l ^ 1])
                _cons[id].slack += c;
        }
    }

    auto Checker::propagate(bool at_root) -> bool
    {
        while (! _pending.empty()) {
            auto id = _pending.back();
            _pending.pop_back();
            auto & k = _cons[id];
            k.queued = false;
            if (k.slack < 0) {
                if (at_root)
                    k.reason = true;
                for (auto p : _pending)
                    _cons[p].queued = false;
                _pending.clear();
                return false;
            }
            for (size_t i = 0; i < k.ineq.terms.size(); ++i) {
                auto & t = k.ineq.terms[i];
                if (t.coeff > k.slack && _value[t.lit] == 0) {
                    if (at_root)
                        k.reason = true;
                    assign(t.lit);
                }
            }
        }
        return true;
    }

    auto Checker::rup(const Inequality & i) -> bool
    {
        if (_root_conflict || i.degree <= 0)
            return true;
        if (! propagate(true)) {
            _root_conflict = true;
            return true;
        }
        auto mark = _trail.size();
        auto id = static_cast<int>(_cons.size());
        _cons.emplace_back().ineq = negate(i);
        insert(id);
        bool conflict = ! propagate(false);
        undo_to(mark);
        erase(id);
        _cons.pop_back();
        return conflict;
    }

    auto Checker::rup_hinted(const Inequality & i, const vector<int> & hints) -> bool
    {
        if (i.degree <= 0)
            return true;
        auto n = negate(i);
        vector<const Inequality *> all{&n};
        for (auto h : hints)
            all.push_back(&_cons[h].ineq);
        std::unordered_map<int, bool> value; // by variable: is it true
        while (true) {
            bool changed = false;
            for (auto k : all) {
                Big slack = -k->degree;
                for (auto & t : k->terms) {
                    auto v = value.find(t.lit >> 1);
                    if (v == value.end() || v->second == ! (t.lit & 1))
                        slack += t.coeff;
                }
                if (slack < 0)
                    return true;
                for (auto & t : k->terms)
                    if (t.coeff > slack && ! value.contains(t.lit >> 1)) {
                        value.emplace(t.lit >> 1, ! (t.lit & 1));
                        changed = true;
                    }
            }
            if (! changed)
                return false;
        }
    }

    auto Checker::solve_rest(size_t & decisions) -> bool
    {
        // a depth first search from the current assignment, which has been propagated
        Lit pick = -1;
        for (size_t i = 1; i < _cons.size() && pick < 0; ++i) {
            auto & c = _cons[i];
            if (! c.alive)
                continue;
            Big have = 0;
            for (auto & t : c.ineq.terms)
                if (_value[t.lit] > 0)
                    have += t.coeff;
            if (have >= c.ineq.degree)
                continue;
            for (auto & t : c.ineq.terms)
                if (_value[t.lit] == 0) {
                    pick = t.lit;
                    break;
                }
        }
        if (pick < 0)
            return true;
        for (auto l : {pick, pick ^ 1}) {
            if (++decisions > 20000)
                throw TooLarge{};
            auto mark = _trail.size();
            assign(l);
            if (propagate(false) && solve_rest(decisions))
                return true;
            undo_to(mark);
        }
        return false;
    }

    auto Checker::satisfiable(const vector<Lit> & lits, size_t & decisions) -> bool
    {
        if (_root_conflict || ! propagate(true)) {
            _root_conflict = true;
            return false;
        }
        auto mark = _trail.size();
        bool ok = true;
        for (auto l : lits)
            if (_value[l] < 0)
                ok = false;
            else if (_value[l] == 0)
                assign(l);
        if (ok)
            ok = propagate(false) && solve_rest(decisions);
        else {
            for (auto p : _pending)
                _cons[p].queued = false;
            _pending.clear();
        }
        undo_to(mark);
        return ok;
    }

    auto Checker::reference(string_view tok) const -> int
    {
        int id = 0;
        if (! tok.empty() && tok.front() == '@') {
            auto i = _labels.find(tok.substr(1));
            if (i == _labels.end())
                refuse("unknown label " + string{tok});
            id = i->second;
        }
        else {
            Big n = 0;
            if (! number(tok, n))
                refuse("\"" + string{tok} + "\" is not a reference to a line");
            id = static_cast<int>(n < 0 ? static_cast<Big>(_cons.size()) + n : n);
        }
        if (id <= 0 || id >= static_cast<int>(_cons.size()))
            refuse("reference " + string{tok} + " is to a line that does not exist");
        if (! _cons[id].alive)
            refuse("reference " + string{tok} + " is to a line that has been deleted");
        return id;
    }

    auto Checker::parse_inequality(const vector<string_view> & toks, size_t & at, bool create) -> Inequality
    {
        vector<pair<Big, Lit>> terms;
        if (keep_events)
            _last.terms.clear();
        while (at < toks.size() && toks[at] != ">=") {
            Big c = 0;
            if (! number(toks[at], c))
                refuse("\"" + string{toks[at]} + "\" is not a coefficient");
            if (++at == toks.size())
                refuse("there is no literal after a coefficient");
            terms.emplace_back(c, literal(toks[at], create));
            if (keep_events)
                _last.terms.emplace_back(c, toks[at]);
            ++at;
        }
        if (at == toks.size())
            refuse("an inequality has no >=");
        ++at;
        Big b = 0;
        if (at == toks.size() || ! number(toks[at], b))
            refuse("an inequality has no bound");
        ++at;
        _last.bound = b;
        return normalise(std::move(terms), b);
    }

    auto Checker::read_opb(const string & text) -> void
    {
        _cons.emplace_back().alive = false;
        size_t at = 0;
        while (at < text.size()) {
            auto nl = text.find('\n', at);
            if (nl == string::npos)
                nl = text.size();
            string_view line{text.data() + at, nl - at};
            at = nl + 1;
            if (line.empty() || line.front() == '*')
                continue;
            _line = "the model: " + string{line};
            auto toks = words(line);
            if (toks.empty())
                continue;
            if (toks.back() != ";")
                refuse("a line does not end in ;");
            if (toks[0] == "min" || toks[0] == "min:") {
                if (_objective)
                    refuse("two objectives");
                _objective.emplace();
                for (size_t i = toks[0] == "min" ? 2 : 1; i + 1 < toks.size(); i += 2) {
                    Big c = 0;
                    if (! number(toks[i], c) || i + 2 >= toks.size())
                        refuse("cannot read the objective");
                    _objective->emplace_back(c, literal(toks[i + 1], true));
                }
                continue;
            }
            if (toks[0] == "preserved" || toks[0] == "preserved:") {
                _has_preserved = true;
                for (size_t i = toks[0] == "preserved" ? 2 : 1; i + 1 < toks.size(); ++i) {
                    auto l = literal(toks[i], true);
                    if (l & 1)
                        refuse("a negated variable is preserved");
                    if (_preserved[l >> 1])
                        refuse("a variable is preserved twice");
                    _preserved[l >> 1] = true;
                    _preserved_list.push_back(l >> 1);
                }
                continue;
            }
            size_t i = 0;
            std::optional<string> label;
            if (toks[0].front() == '@')
                label = string{toks[i++].substr(1)};
            auto ineq = parse_inequality(toks, i, true);
            if (i + 1 != toks.size())
                refuse("there is more after the bound");
            if (label && ! _labels.emplace(*label, static_cast<int>(_cons.size())).second)
                refuse("two lines have the same label");
            add(std::move(ineq));
        }
        _formula = _cons.size() - 1;
        _line.clear();
    }

    auto Checker::do_pol(const vector<string_view> & toks) -> Inequality
    {
        struct Item
        {
            bool is_number = false;
            Big n = 0;
            string_view tok;
            Inequality ineq;
        };
        vector<Item> stack;
        auto settle = [&](Item & i) -> Inequality & {
            if (i.is_number) {
                i.is_number = false;
                i.ineq = _cons[reference(i.tok)].ineq;
            }
            return i.ineq;
        };
        auto pop_number = [&]() -> Big {
            if (stack.size() < 2 || ! stack.back().is_number)
                refuse("an operator needs a number before it");
            auto n = stack.back().n;
            stack.pop_back();
            if (n <= 0)
                refuse("a factor or divisor is not positive");
            return n;
        };
        size_t i = 1;
        for (; i < toks.size() && toks[i] != ";"; ++i) {
            auto t = toks[i];
            if (t == "+") {
                if (stack.size() < 2)
                    refuse("there is nothing to add");
                auto b = std::move(settle(stack.back()));
                stack.pop_back();
                auto & a = settle(stack.back());
                // merge
                Inequality r;
                r.degree = a.degree + b.degree;
                size_t x = 0, y = 0;
                while (x < a.terms.size() || y < b.terms.size()) {
                    if (y == b.terms.size() || (x < a.terms.size() && a.terms[x].lit >> 1 < b.terms[y].lit >> 1))
                        r.terms.push_back(a.terms[x++]);
                    else if (x == a.terms.size() || b.terms[y].lit >> 1 < a.terms[x].lit >> 1)
                        r.terms.push_back(b.terms[y++]);
                    else {
                        auto & p = a.terms[x++];
                        auto & q = b.terms[y++];
                        if (p.lit == q.lit)
                            r.terms.push_back({checked(p.coeff + q.coeff), p.lit});
                        else {
                            auto least = std::min(p.coeff, q.coeff);
                            r.degree -= least;
                            if (p.coeff > least)
                                r.terms.push_back({p.coeff - least, p.lit});
                            else if (q.coeff > least)
                                r.terms.push_back({q.coeff - least, q.lit});
                        }
                    }
                }
                checked(r.degree);
                a = std::move(r);
            }
            else if (t == "*") {
                auto n = pop_number();
                auto & a = settle(stack.back());
                for (auto & x : a.terms)
                    x.coeff = times(x.coeff, n);
                a.degree = times(a.degree, n);
            }
            else if (t == "d") {
                auto n = pop_number();
                auto & a = settle(stack.back());
                for (auto & x : a.terms)
                    x.coeff = (x.coeff + n - 1) / n;
                a.degree = a.degree > 0 ? (a.degree + n - 1) / n : a.degree / n;
            }
            else if (t == "s") {
                if (stack.empty())
                    refuse("there is nothing to saturate");
                auto & a = settle(stack.back());
                if (a.degree <= 0) {
                    a.terms.clear();
                    a.degree = 0;
                }
                for (auto & x : a.terms)
                    x.coeff = std::min(x.coeff, a.degree);
            }
            else if (t == "w") {
                if (stack.size() < 2 || stack.back().is_number || stack.back().ineq.terms.size() != 1)
                    refuse("there is nothing to weaken");
                auto v = stack.back().ineq.terms[0].lit >> 1;
                stack.pop_back();
                auto & a = settle(stack.back());
                for (size_t k = 0; k < a.terms.size(); ++k)
                    if (a.terms[k].lit >> 1 == v) {
                        a.degree -= a.terms[k].coeff;
                        a.terms.erase(a.terms.begin() + static_cast<long>(k));
                        break;
                    }
            }
            else {
                Item it;
                it.tok = t;
                Big n = 0;
                if (t.front() == '@')
                    it.ineq = _cons[reference(t)].ineq;
                else if (number(t, n)) {
                    it.is_number = true;
                    it.n = n;
                }
                else
                    it.ineq = Inequality{{{1, literal(t, false)}}, 0};
                stack.push_back(std::move(it));
            }
        }
        if (i + 1 != toks.size())
            refuse("a pol line does not end in ;");
        if (stack.size() != 1)
            refuse("a pol line leaves " + to_string(stack.size()) + " things on its stack");
        return settle(stack.back());
    }

    auto Checker::goal_follows(const Inequality & goal, const Inequality & negated) -> bool
    {
        if (goal.degree <= 0 || implied_by(goal, negated))
            return true;
        if (rup(goal))
            return true;
        for (size_t i = 1; i < _cons.size(); ++i)
            if (_cons[i].alive && implied_by(goal, _cons[i].ineq))
                return true;
        return false;
    }

    auto Checker::check(const string & text) -> Result
    {
        Result res;
        bool started = false, concluded = false, ended = false, output = false;

        // what is being proved inside a subproof
        struct Open
        {
            Inequality wanted, negated;
            vector<Inequality> goals; // [0] is #1
            vector<bool> proved;
            vector<int> of; // which line each goal after the first is for
            size_t base = 0, inner = 0;
            int goal = -1;
            bool inner_open = false;
            std::optional<string> label;
        };
        std::optional<Open> open;

        auto forget_from = [&](size_t first) {
            bool mattered = false;
            for (auto i = _cons.size(); i-- > first;)
                if (_cons[i].alive) {
                    mattered = mattered || _cons[i].reason;
                    erase(static_cast<int>(i));
                    _cons[i].ineq.terms = {};
                }
            if (mattered)
                rebuild_root();
        };
        auto settle_root = [&] {
            if (! _root_conflict && ! propagate(true))
                _root_conflict = true;
        };
        auto label_line = [&](const std::optional<string> & l, int id) {
            if (l)
                _labels[*l] = id;
        };

        size_t at = 0;
        while (at < text.size()) {
            auto nl = text.find('\n', at);
            if (nl == string::npos)
                refuse("the last line is not finished");
            string_view line{text.data() + at, nl - at};
            at = nl + 1;
            ++res.lines;
            while (! line.empty() && line.front() == ' ')
                line.remove_prefix(1);
            if (line.empty() || line.front() == '%')
                continue;
            _line = "line " + to_string(res.lines) + ": " + string{line};
            if (ended)
                refuse("there is more after the end");
            if (! started) {
                if (line != "pseudo-Boolean proof version 3.0")
                    refuse("the first line is not that of a proof");
                started = true;
                continue;
            }
            auto toks = words(line);
            std::optional<string> label;
            if (toks.front().front() == '@') {
                label = string{toks.front().substr(1)};
                toks.erase(toks.begin());
                if (toks.empty())
                    refuse("a label is all there is");
            }
            auto rule = toks.front();
            if (concluded && rule != "end")
                refuse("there is more after the conclusion");
            if (rule == "rup") {
                ++res.rup;
                size_t i = 1;
                auto c = parse_inequality(toks, i, true);
                settle_root();
                if (i < toks.size() && toks[i] == ":") {
                    ++res.hinted;
                    vector<int> hints;
                    for (++i; i < toks.size() && toks[i] != ";"; ++i)
                        if (toks[i] != "~")
                            hints.push_back(reference(toks[i]));
                    if (! rup_hinted(c, hints))
                        refuse("this does not follow by unit propagation over the lines it names");
                }
                else if (! rup(c))
                    refuse("this does not follow by unit propagation");
                if (i + 1 != toks.size() || toks[i] != ";")
                    refuse("the line does not end in ;");
                label_line(label, add(std::move(c)));
                settle_root();
            }
            else if (rule == "pol") {
                ++res.pol;
                auto c = do_pol(toks);
                label_line(label, add(std::move(c)));
                settle_root();
            }
            else if (rule == "ia" || rule == "e") {
                ++res.ia;
                size_t i = 1;
                auto c = parse_inequality(toks, i, true);
                if (rule == "ia" && i + 1 == toks.size() && toks[i] == ";") {
                    bool found = c.degree <= 0;
                    for (size_t k = 1; k < _cons.size() && ! found; ++k)
                        found = _cons[k].alive && implied_by(c, _cons[k].ineq);
                    if (! found)
                        refuse("this is not implied by any one line");
                    label_line(label, add(std::move(c)));
                    settle_root();
                    continue;
                }
                if (i + 3 != toks.size() || toks[i] != ":" || toks[i + 2] != ";")
                    refuse("this should name one line");
                auto id = reference(toks[i + 1]);
                if (rule == "e") {
                    if (! (c == _cons[id].ineq))
                        refuse("this is not the same as the line it names");
                }
                else {
                    if (! implied_by(c, _cons[id].ineq))
                        refuse("this is not implied by the line it names");
                    label_line(label, add(std::move(c)));
                    settle_root();
                }
            }
            else if (rule == "a") {
                ++res.assertions;
                size_t i = 1;
                auto c = parse_inequality(toks, i, true);
                if (keep_events) {
                    _last.kind = Event::Assertion;
                    res.events.push_back(_last);
                }
                label_line(label, add(std::move(c)));
                settle_root();
            }
            else if (rule == "red") {
                ++res.red;
                size_t i = 1;
                auto c = parse_inequality(toks, i, true);
                if (i == toks.size() || toks[i] != ":")
                    refuse("there is no witness");
                std::map<int, int> w; // variable to literal, or -1 for true, -2 for false
                for (++i; i < toks.size() && toks[i] != ":" && toks[i] != ";"; i += 3) {
                    if (i + 2 >= toks.size() || toks[i + 1] != "->")
                        refuse("cannot read the witness");
                    auto l = literal(toks[i], true);
                    int to = 0;
                    if (toks[i + 2] == "1")
                        to = l & 1 ? -2 : -1;
                    else if (toks[i + 2] == "0")
                        to = l & 1 ? -1 : -2;
                    else
                        to = literal(toks[i + 2], true) ^ (l & 1);
                    if (_preserved[l >> 1])
                        refuse("a witness changes a variable that is preserved");
                    if (! w.emplace(l >> 1, to).second)
                        refuse("a witness mentions a variable twice");
                }
                if (i >= toks.size())
                    refuse("the line does not end");
                settle_root();
                auto substitute = [&](const Inequality & k) {
                    vector<pair<Big, Lit>> terms;
                    Big bound = k.degree;
                    for (auto & t : k.terms) {
                        auto f = w.find(t.lit >> 1);
                        if (f == w.end())
                            terms.emplace_back(t.coeff, t.lit);
                        else if (f->second < 0) {
                            if ((f->second == -1) == ! (t.lit & 1))
                                bound -= t.coeff;
                        }
                        else
                            terms.emplace_back(t.coeff, f->second ^ (t.lit & 1));
                    }
                    return normalise(std::move(terms), bound);
                };
                Open o;
                o.wanted = c;
                o.negated = negate(c);
                o.goals.push_back(substitute(c));
                o.of.push_back(0);
                o.label = label;
                std::vector<int> touched;
                for (auto & [v, _] : w)
                    for (auto l : {v * 2, v * 2 + 1})
                        for (auto & [id, _c] : _occ[l])
                            touched.push_back(id);
                std::sort(touched.begin(), touched.end());
                touched.erase(std::unique(touched.begin(), touched.end()), touched.end());
                for (auto id : touched) {
                    o.goals.push_back(substitute(_cons[id].ineq));
                    o.of.push_back(id);
                }
                if (_objective) {
                    // the witness must not make the objective worse
                    vector<pair<Big, Lit>> terms;
                    Big bound = 0;
                    bool any = false;
                    for (auto & [k, l] : *_objective) {
                        auto f = w.find(l >> 1);
                        if (f == w.end())
                            continue;
                        any = true;
                        terms.emplace_back(k, l);
                        if (f->second < 0) {
                            if ((f->second == -1) == ! (l & 1))
                                bound += k;
                        }
                        else
                            terms.emplace_back(-k, f->second ^ (l & 1));
                    }
                    if (any) {
                        o.goals.push_back(normalise(std::move(terms), bound));
                        o.of.push_back(-1);
                    }
                }
                o.proved.resize(o.goals.size(), false);
                o.base = _cons.size();
                if (toks[i] == ";") {
                    // everything has to follow without help; the negated inequality is there to help
                    auto id = add(o.negated);
                    settle_root();
                    for (size_t g = 0; g < o.goals.size(); ++g)
                        if (! goal_follows(o.goals[g], o.negated))
                            refuse(g == 0 ? "the inequality itself does not follow under its witness"
                                          : o.of[g] < 0 ? "the witness could make the objective worse"
                                                        : "line " + to_string(o.of[g]) + " of the database does not follow under the witness");
                    bool mattered = _cons[id].reason;
                    erase(id);
                    _cons.pop_back();
                    if (mattered || _root_conflict)
                        rebuild_root();
                    label_line(label, add(std::move(c)));
                    settle_root();
                }
                else {
                    if (open)
                        refuse("a subproof inside a subproof");
                    if (i + 2 != toks.size() || toks[i + 1] != "subproof")
                        refuse("cannot read what follows the witness");
                    ++res.subproofs;
                    add(o.negated);
                    settle_root();
                    open = std::move(o);
                }
            }
            else if (rule == "proofgoal") {
                if (! open || open->inner_open || toks.size() != 2)
                    refuse("there is no subproof for this goal");
                int g = -1;
                if (toks[1] == "#1")
                    g = 0;
                else if (toks[1].front() == '#')
                    refuse("there is no such goal");
                else {
                    auto id = reference(toks[1]);
                    for (size_t k = 1; k < open->of.size(); ++k)
                        if (open->of[k] == id)
                            g = static_cast<int>(k);
                    if (g < 0)
                        refuse("the witness does not touch that line");
                }
                open->goal = g;
                open->inner_open = true;
                open->inner = _cons.size();
                add(negate(open->goals[g]));
                settle_root();
            }
            else if (rule == "qed") {
                if (! open)
                    refuse("there is no subproof");
                settle_root();
                if (open->inner_open) {
                    if (! _root_conflict)
                        refuse("the subproof does not end in a contradiction");
                    forget_from(open->inner);
                    open->proved[open->goal] = true;
                    open->inner_open = false;
                }
                else {
                    for (size_t g = 0; g < open->goals.size(); ++g)
                        if (! open->proved[g] && ! goal_follows(open->goals[g], open->negated))
                            refuse("a goal that has no subproof does not follow by itself");
                    forget_from(open->base);
                    auto o = std::move(*open);
                    open.reset();
                    label_line(o.label, add(std::move(o.wanted)));
                    settle_root();
                }
            }
            else if (rule == "del") {
                ++res.deletions;
                if (toks.back() != ";")
                    refuse("the line does not end in ;");
                if (toks.size() == 4 && toks[1] == "id") {
                    auto id = reference(toks[2]);
                    if (id <= static_cast<int>(_formula))
                        refuse("this deletes a line of the model");
                    delete_id(id);
                }
                else if (toks.size() == 5 && toks[1] == "range") {
                    auto position = [&](string_view t) -> size_t {
                        if (t.front() == '@')
                            return static_cast<size_t>(reference(t));
                        Big n = 0;
                        if (! number(t, n))
                            refuse("cannot read the range");
                        if (n < 0)
                            n += static_cast<Big>(_cons.size());
                        if (n <= 0 || n > static_cast<Big>(_cons.size()))
                            refuse("the range is of lines that do not exist");
                        return static_cast<size_t>(n);
                    };
                    auto from = position(toks[2]), to = position(toks[3]);
                    if (from <= _formula)
                        refuse("this deletes a line of the model");
                    bool mattered = false;
                    for (auto i = from; i < to; ++i)
                        if (_cons[i].alive) {
                            mattered = mattered || _cons[i].reason;
                            erase(static_cast<int>(i));
                            _cons[i].ineq.terms = {};
                        }
                    if (mattered)
                        rebuild_root();
                }
                else
                    refuse("cannot read the deletion");
            }
            else if (rule == "solx" || rule == "soli") {
                if ((rule == "soli") != _objective.has_value())
                    refuse(_objective ? "a solution to exclude, although there is an objective" : "a solution to improve on, although there is no objective");
                if (toks.back() != ";")
                    refuse("the line does not end in ;");
                settle_root();
                if (_root_conflict)
                    refuse("a solution, although the database is contradictory");
                auto mark = _trail.size();
                Event e;
                e.kind = Event::Solution;
                for (size_t i = 1; i + 1 < toks.size(); ++i) {
                    auto l = literal(toks[i], true);
                    if (keep_events)
                        e.terms.emplace_back(1, string{toks[i]});
                    if (_value[l] < 0)
                        refuse("the solution contradicts the database at " + string{toks[i]});
                    if (_value[l] == 0)
                        assign(l);
                }
                if (! propagate(false))
                    refuse("the solution contradicts the database");
                for (size_t i = 1; i <= _formula; ++i) {
                    auto & k = _cons[i];
                    Big have = 0;
                    for (auto & t : k.ineq.terms)
                        if (_value[t.lit] > 0)
                            have += t.coeff;
                    if (have < k.ineq.degree)
                        refuse("the solution leaves line " + to_string(i) + " of the model undecided");
                }
                Inequality n;
                if (_objective) {
                    Big value = 0;
                    for (auto & [k, l] : *_objective) {
                        if (_value[l] == 0)
                            refuse("the solution does not decide the objective");
                        if (_value[l] > 0)
                            value += k;
                    }
                    vector<pair<Big, Lit>> terms;
                    for (auto & [k, l] : *_objective)
                        terms.emplace_back(-k, l);
                    n = normalise(std::move(terms), 1 - value);
                    if (! res.best || value < *res.best)
                        res.best = value;
                }
                else {
                    vector<pair<Big, Lit>> terms;
                    auto exclude = [&](int v) {
                        if (_value[v * 2] == 0)
                            refuse("the solution does not decide " + _names[v]);
                        terms.emplace_back(1, _value[v * 2] > 0 ? v * 2 + 1 : v * 2);
                    };
                    if (_has_preserved)
                        for (auto v : _preserved_list)
                            exclude(v);
                    else
                        for (size_t v = 0; v < _names.size(); ++v)
                            exclude(static_cast<int>(v));
                    n = normalise(std::move(terms), 1);
                }
                undo_to(mark);
                ++res.solutions;
                if (keep_events)
                    res.events.push_back(e);
                add(std::move(n));
                settle_root();
            }
            else if (rule == "output") {
                if (open || toks.size() != 3 || toks[1] != "NONE" || toks[2] != ";")
                    refuse("cannot read the output section");
                output = true;
            }
            else if (rule == "conclusion") {
                if (open || ! output || toks.size() < 3 || toks.back() != ";")
                    refuse("cannot read the conclusion");
                concluded = true;
                res.conclusion.kind = string{toks[1]};
                settle_root();
                auto contradiction = [&](string_view t) {
                    auto id = reference(t);
                    Big most = 0;
                    for (auto & k : _cons[id].ineq.terms)
                        most += k.coeff;
                    if (most >= _cons[id].ineq.degree)
                        refuse("the line it names is not a contradiction");
                };
                if (toks[1] == "UNSAT") {
                    if (toks.size() != 5 || toks[2] != ":")
                        refuse("cannot read the conclusion");
                    contradiction(toks[3]);
                    if (res.solutions > 0)
                        refuse("unsatisfiable, although there are solutions");
                }
                else if (toks[1] == "SAT") {
                    if (res.solutions == 0)
                        refuse("satisfiable, although there are no solutions");
                }
                else if (toks[1] == "ENUMERATION_COMPLETE") {
                    Big n = 0;
                    if (toks.size() != 6 || toks[3] != ":" || ! number(toks[2], n))
                        refuse("cannot read the conclusion");
                    contradiction(toks[4]);
                    if (n != res.solutions)
                        refuse("there are " + to_string(res.solutions) + " solutions in the proof");
                    res.conclusion.count = static_cast<long long>(n);
                }
                else if (toks[1] == "BOUNDS") {
                    if (toks.size() != 5 || ! _objective)
                        refuse("cannot read the conclusion");
                    Big lo = 0, hi = 0;
                    auto lower_inf = toks[2] == "INF", upper_inf = toks[3] == "INF";
                    if ((! lower_inf && ! number(toks[2], lo)) || (! upper_inf && ! number(toks[3], hi)))
                        refuse("cannot read the bounds");
                    if (lower_inf) {
                        if (! _root_conflict)
                            refuse("the problem is not shown to be infeasible");
                        if (res.solutions > 0)
                            refuse("infeasible, although there are solutions");
                    }
                    else {
                        vector<pair<Big, Lit>> terms;
                        for (auto & [k, l] : *_objective)
                            terms.emplace_back(k, l);
                        auto claim = normalise(std::move(terms), lo);
                        Inequality nothing;
                        if (! goal_follows(claim, nothing))
                            refuse("the lower bound does not follow");
                        res.conclusion.lower = lo;
                    }
                    if (! upper_inf) {
                        if (! res.best || *res.best > hi)
                            refuse("no solution is as good as the upper bound");
                        res.conclusion.upper = hi;
                    }
                }
                else if (toks[1] != "NONE")
                    refuse("cannot read the conclusion");
            }
            else if (rule == "end") {
                if (line != "end pseudo-Boolean proof;" || ! concluded)
                    refuse("this is not how a proof ends");
                ended = true;
            }
            else
                refuse("there is no such rule");
        }
        _line.clear();
        if (! ended)
            refuse("the proof does not end");
        return res;
    }
}

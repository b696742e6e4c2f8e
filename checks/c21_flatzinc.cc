// The FlatZinc program prints the solutions of the document that it was given, as MiniZinc defines them, and nothing else.
#include <checks/frontends/mains.hh>
#include <checks/solver/prove.hh>
#include <engine/pbt.hh>

#include <algorithm>
#include <cstdlib>
#include <functional>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <vector>

using pbt::Case;
using std::map;
using std::optional;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;
using LL = long long;

namespace
{
    using Values = vector<LL>;

    // a variable, or a constant
    struct T
    {
        int var = -1;
        LL k = 0;
        bool boolean = false;
        [[nodiscard]] auto operator()(const Values & a) const -> LL
        {
            return var >= 0 ? a[static_cast<size_t>(var)] : k;
        }
    };

    auto all(const vector<T> & ts, const Values & a) -> Values
    {
        Values r;
        for (auto & t : ts)
            r.push_back(t(a));
        return r;
    }

    struct Var
    {
        string name;
        bool boolean = false, defined = false, unbounded = false;
        vector<LL> domain;
        std::function<auto(const Values &)->LL> derive; // its value, from those before it, if it has no domain of its own
        string rhs;
    };

    struct Array
    {
        string name, text;
        vector<T> terms;
        bool variables = false;
    };

    struct Con
    {
        string id;
        vector<string> args;
        std::function<auto(const Values &)->bool> holds;
    };

    struct Doc
    {
        vector<Var> vars;
        vector<Array> arrays;
        vector<Con> cons;
        vector<string> output;
        string method = "satisfy", ann;
        int objective = -1;

        [[nodiscard]] auto product() const -> double
        {
            double r = 1;
            for (auto & v : vars)
                if (! v.derive)
                    r *= static_cast<double>(v.domain.size());
            return r;
        }

        [[nodiscard]] auto text() const -> string
        {
            string r = "{\n\"variables\":{";
            bool first = true;
            for (auto & v : vars) {
                r += string{first ? "" : ","} + "\n  \"" + v.name + "\":{\"type\":\"" + (v.boolean ? "bool" : "int") + "\"";
                first = false;
                if (! v.boolean && ! v.unbounded) {
                    r += ",\"domain\":[";
                    for (size_t i = 0; i < v.domain.size();) {
                        auto j = i;
                        while (j + 1 < v.domain.size() && v.domain[j + 1] == v.domain[j] + 1)
                            ++j;
                        r += string{i ? "," : ""} + "[" + to_string(v.domain[i]) + "," + to_string(v.domain[j]) + "]";
                        i = j + 1;
                    }
                    r += "]";
                }
                if (v.defined)
                    r += ",\"defined\":true";
                if (! v.rhs.empty())
                    r += ",\"rhs\":" + v.rhs;
                r += "}";
            }
            r += "\n},\n\"arrays\":{";
            first = true;
            for (auto & a : arrays) {
                r += string{first ? "" : ","} + "\n  \"" + a.name + "\":{\"a\":" + a.text + "}";
                first = false;
            }
            r += "\n},\n\"constraints\":[";
            first = true;
            for (auto & k : cons) {
                if (k.id.empty())
                    continue;
                r += string{first ? "" : ","} + "\n  {\"id\":\"" + k.id + "\",\"args\":[";
                first = false;
                for (size_t i = 0; i < k.args.size(); ++i)
                    r += (i ? "," : "") + k.args[i];
                r += "]}";
            }
            r += "\n],\n\"output\":[";
            for (size_t i = 0; i < output.size(); ++i)
                r += string{i ? "," : ""} + "\"" + output[i] + "\"";
            r += "],\n\"solve\":{\"method\":\"" + method + "\"";
            if (objective >= 0)
                r += ",\"objective\":\"" + vars[static_cast<size_t>(objective)].name + "\"";
            if (! ann.empty())
                r += ",\"ann\":" + ann;
            r += "},\n\"version\":\"1.0\"\n}\n";
            return r;
        }

        // what is printed for a solution
        [[nodiscard]] auto block(const Values & a) const -> string
        {
            string r;
            auto one = [&](const T & t, bool boolean) { return boolean ? string{t(a) == 1 ? "true" : "false"} : to_string(t(a)); };
            for (auto & o : output) {
                bool found = false;
                for (size_t i = 0; i < vars.size(); ++i)
                    if (vars[i].name == o) {
                        r += o + " = " + one(T{static_cast<int>(i), 0, false}, vars[i].boolean) + ";\n";
                        found = true;
                    }
                for (auto & x : arrays)
                    if (! found && x.name == o) {
                        bool boolean = std::any_of(x.terms.begin(), x.terms.end(), [](auto & t) { return t.boolean; });
                        r += o + " = [";
                        for (size_t i = 0; i < x.terms.size(); ++i)
                            r += (i ? ", " : "") + one(x.terms[i], boolean);
                        r += "];\n";
                    }
            }
            return r;
        }

        [[nodiscard]] auto solutions() const -> vector<Values>
        {
            vector<Values> r;
            Values a(vars.size(), 0);
            auto go = [&](auto & self, size_t i) -> void {
                if (i == vars.size()) {
                    for (auto & k : cons)
                        if (! k.holds(a))
                            return;
                    r.push_back(a);
                }
                else if (vars[i].derive) {
                    a[i] = vars[i].derive(a);
                    self(self, i + 1);
                }
                else
                    for (auto v : vars[i].domain) {
                        a[i] = v;
                        self(self, i + 1);
                    }
            };
            go(go, 0);
            return r;
        }
    };

    struct Gen
    {
        Case & c;
        Doc & d;
        double budget;
        int next_array = 0;
        bool wide = false; // may variables without bounds be used?

        auto name(size_t i) -> string
        {
            static const vector<string> shapes{"x", "X_INTRODUCED_", "b", "a1_", "Zed"};
            auto s = c.pick(shapes);
            return s + to_string(i) + (s == "X_INTRODUCED_" ? "_" : "");
        }

        auto new_var(vector<LL> domain, bool boolean) -> T
        {
            Var v;
            v.name = name(d.vars.size());
            v.boolean = boolean;
            v.domain = std::move(domain);
            v.defined = c.chance(1, 5);
            d.vars.push_back(std::move(v));
            return {static_cast<int>(d.vars.size()) - 1, 0, boolean};
        }

        auto room(size_t n) const -> bool
        {
            return d.product() * static_cast<double>(n) <= budget;
        }

        auto int_domain(LL lo, LL hi) -> vector<LL>
        {
            lo += c.around_zero(-1, 1);
            hi += c.around_zero(-1, 1);
            if (hi < lo)
                hi = lo;
            vector<LL> r;
            if (c.chance(1, 3)) {
                for (auto v = lo; v <= hi; ++v)
                    if (! c.chance(1, 3))
                        r.push_back(v);
                if (r.empty())
                    r.push_back(lo);
            }
            else
                for (auto v = lo; v <= hi; ++v)
                    r.push_back(v);
            return r;
        }

        auto constant(LL lo, LL hi) -> T
        {
            return {-1, c.range(lo, hi), false};
        }

        // over something like the given range
        auto iv(LL lo = -2, LL hi = 3, bool may_be_constant = true, bool exact = false) -> T
        {
            if (may_be_constant && c.chance(1, 8))
                return constant(lo, hi);
            vector<int> have;
            for (size_t i = 0; i < d.vars.size(); ++i)
                if (! d.vars[i].boolean && (wide || ! d.vars[i].derive) && (! exact || (! d.vars[i].derive && d.vars[i].domain.front() >= lo && d.vars[i].domain.back() <= hi)))
                    have.push_back(static_cast<int>(i));
            if (! have.empty() && c.chance(2, 5))
                return {c.pick(have), 0, false};
            auto domain = int_domain(lo, hi);
            if (exact) {
                std::erase_if(domain, [&](LL v) { return v < lo || v > hi; });
                if (domain.empty())
                    domain.push_back(lo);
            }
            if (room(domain.size()))
                return new_var(std::move(domain), false);
            if (! have.empty())
                return {c.pick(have), 0, false};
            return constant(lo, hi);
        }

        auto bv(bool may_be_constant = true) -> T
        {
            if (may_be_constant && c.chance(1, 8))
                return {-1, c.range(0, 1), true};
            vector<int> have;
            for (size_t i = 0; i < d.vars.size(); ++i)
                if (d.vars[i].boolean)
                    have.push_back(static_cast<int>(i));
            if (! have.empty() && c.chance(2, 5))
                return {c.pick(have), 0, true};
            if (room(2))
                return new_var({0, 1}, true);
            if (! have.empty())
                return {c.pick(have), 0, true};
            return {-1, c.range(0, 1), true};
        }

        auto ivs(size_t n, LL lo = -2, LL hi = 3, bool may_be_constant = true, bool exact = false) -> vector<T>
        {
            vector<T> r;
            for (size_t i = 0; i < n; ++i)
                r.push_back(iv(lo, hi, may_be_constant, exact));
            return r;
        }

        auto bvs(size_t n) -> vector<T>
        {
            vector<T> r;
            for (size_t i = 0; i < n; ++i)
                r.push_back(bv());
            return r;
        }

        // variables, none of them twice
        auto distinct(size_t n, LL lo, LL hi, bool exact = false) -> vector<T>
        {
            vector<T> r;
            for (size_t i = 0; i < n; ++i) {
                T t;
                for (int tries = 0; tries < 4; ++tries) {
                    t = iv(lo, hi, false, exact);
                    if (t.var >= 0 && std::none_of(r.begin(), r.end(), [&](auto & o) { return o.var == t.var; }))
                        break;
                    t = {};
                }
                r.push_back(t.var >= 0 ? t : new_var({c.range(lo, hi)}, false));
            }
            return r;
        }

        auto two(bool boolean) -> std::pair<T, T>
        {
            for (;;) {
                auto a = boolean ? bv() : iv(), b = boolean ? bv() : iv();
                if (a.var != b.var)
                    return {a, b};
                if (a.var >= 0 || boolean) {
                    b = {-1, boolean ? c.range(0, 1) : c.around_zero(-2, 3), boolean};
                    if (a.var >= 0)
                        return {a, b};
                }
            }
        }

        auto j(const T & t) const -> string
        {
            if (t.var >= 0)
                return "\"" + d.vars[static_cast<size_t>(t.var)].name + "\"";
            return t.boolean ? (t.k ? "true" : "false") : to_string(t.k);
        }

        auto plain(const vector<T> & ts) const -> string
        {
            string r = "[";
            for (size_t i = 0; i < ts.size(); ++i)
                r += (i ? "," : "") + j(ts[i]);
            return r + "]";
        }

        auto named(const string & text, vector<T> ts, bool variables) -> string
        {
            if (! c.chance(1, 3))
                return text;
            Array a;
            a.name = "A" + to_string(++next_array);
            a.text = text;
            a.terms = std::move(ts);
            a.variables = variables;
            d.arrays.push_back(a);
            return "\"" + a.name + "\"";
        }

        auto j(const vector<T> & ts) -> string
        {
            return named(plain(ts), ts, true);
        }

        auto ints(const Values & k, bool boolean = false) -> string
        {
            vector<T> ts;
            for (auto v : k)
                ts.push_back({-1, v, boolean});
            return named(plain(ts), ts, false);
        }

        auto set(const Values & k) const -> string // in increasing order
        {
            string r = "{\"set\":[";
            for (size_t i = 0; i < k.size();) {
                auto e = i;
                while (e + 1 < k.size() && k[e + 1] == k[e] + 1)
                    ++e;
                r += string{i ? "," : ""} + "[" + to_string(k[i]) + "," + to_string(k[e]) + "]";
                i = e + 1;
            }
            return r + "]}";
        }

        auto subset(LL lo, LL hi) -> Values
        {
            Values r;
            for (auto v = lo; v <= hi; ++v)
                if (c.chance(1, 2))
                    r.push_back(v);
            return r;
        }

        auto post(const string & id, vector<string> args, std::function<auto(const Values &)->bool> holds) -> void
        {
            d.cons.push_back({id, std::move(args), std::move(holds)});
        }
    };

    struct Wide
    {
        Gen & g;
        explicit Wide(Gen & g_) : g(g_)
        {
            g.wide = true;
        }
        ~Wide()
        {
            g.wide = false;
        }
    };

    auto sat_div(LL a, LL b) -> optional<LL>
    {
        return b == 0 ? std::nullopt : optional{a / b};
    }

    auto power(LL a, LL b) -> optional<LL>
    {
        if (b < 0) {
            if (a == 0)
                return std::nullopt;
            return a == 1 ? 1 : a == -1 ? (b % 2 ? -1 : 1) : 0;
        }
        LL r = 1;
        for (LL i = 0; i < b; ++i)
            r *= a;
        return r;
    }

    auto lex(const Values & a, const Values & b, bool strict) -> bool
    {
        for (size_t i = 0; i < std::min(a.size(), b.size()); ++i)
            if (a[i] != b[i])
                return a[i] < b[i];
        return strict ? a.size() < b.size() : a.size() <= b.size();
    }

    auto reified(Gen & g, const string & id, vector<string> args, std::function<auto(const Values &)->bool> f, bool negate = false) -> void
    {
        auto r = g.bv();
        args.push_back(g.j(r));
        g.post(id, std::move(args), [=](const Values & a) { return (r(a) == 1) == (f(a) != negate); });
    }

    auto table_of() -> const vector<std::pair<string, std::function<auto(Gen &)->void>>> &
    {
        using A = const Values &;
        static const vector<std::pair<string, std::function<auto(Gen &)->void>>> t{
            {"element",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(3);
                    bool boolean = g.c.chance(1, 3);
                    auto idx = g.iv(1, static_cast<LL>(n));
                    auto v = boolean ? g.bv() : g.iv();
                    if (g.c.chance(1, 2)) {
                        Values k;
                        for (size_t i = 0; i < n; ++i)
                            k.push_back(boolean ? g.c.range(0, 1) : g.c.around_zero(-2, 3));
                        g.post(boolean ? "array_bool_element" : "array_int_element", {g.j(idx), g.ints(k, boolean), g.j(v)}, [=](A a) {
                            return idx(a) >= 1 && idx(a) <= static_cast<LL>(k.size()) && k[static_cast<size_t>(idx(a) - 1)] == v(a);
                        });
                    }
                    else {
                        auto x = boolean ? g.bvs(n) : g.ivs(n);
                        g.post(boolean ? "array_var_bool_element" : "array_var_int_element", {g.j(idx), g.j(x), g.j(v)}, [=](A a) {
                            return idx(a) >= 1 && idx(a) <= static_cast<LL>(x.size()) && x[static_cast<size_t>(idx(a) - 1)](a) == v(a);
                        });
                    }
                }},
            {"array_min_max",
                [](Gen & g) {
                    Wide wide{g};
                    auto x = g.ivs(1 + g.c.draw(3));
                    auto m = g.iv();
                    bool max = g.c.chance(1, 2);
                    g.post(max ? "array_int_maximum" : "array_int_minimum", {g.j(m), g.j(x)}, [=](A a) {
                        auto v = all(x, a);
                        return m(a) == (max ? *std::max_element(v.begin(), v.end()) : *std::min_element(v.begin(), v.end()));
                    });
                }},
            {"arithmetic",
                [](Gen & g) {
                    static const vector<string> ids{"int_abs", "int_plus", "int_times", "int_div", "int_mod", "int_max", "int_min", "int_pow"};
                    auto id = g.c.pick(ids);
                    if (id == "int_abs") {
                        auto x = g.iv(), y = g.iv(0, 3);
                        g.post(id, {g.j(x), g.j(y)}, [=](A a) { return std::llabs(x(a)) == y(a); });
                        return;
                    }
                    auto x = g.iv(), y = id == "int_pow" ? g.iv(-1, 3) : g.iv(), z = g.iv(-4, 6);
                    g.post(id, {g.j(x), g.j(y), g.j(z)}, [=](A a) {
                        auto p = x(a), q = y(a), r = z(a);
                        if (id == "int_plus")
                            return p + q == r;
                        if (id == "int_times")
                            return p * q == r;
                        if (id == "int_div")
                            return sat_div(p, q) == r;
                        if (id == "int_mod")
                            return q != 0 && p % q == r;
                        if (id == "int_max")
                            return std::max(p, q) == r;
                        if (id == "int_min")
                            return std::min(p, q) == r;
                        return power(p, q) == r;
                    });
                }},
            {"comparison",
                [](Gen & g) {
                    Wide wide{g};
                    auto which = g.c.draw(3);
                    bool boolean = g.c.chance(1, 3), reify = g.c.chance(1, 2);
                    auto [x, y] = g.two(boolean);
                    static const vector<string> names{"eq", "le", "lt", "ne"};
                    auto f = [which, x = x, y = y](A a) {
                        return which == 0 ? x(a) == y(a) : which == 1 ? x(a) <= y(a) : which == 2 ? x(a) < y(a) : x(a) != y(a);
                    };
                    vector<string> args{g.j(x), g.j(y)};
                    if (which == 3 && boolean) {
                        if (reify)
                            reified(g, "bool_xor", args, f);
                        else
                            g.post(g.c.chance(1, 2) ? "bool_not" : "bool_xor", args, f);
                    }
                    else if (reify)
                        reified(g, (boolean ? "bool_" : "int_") + names[which] + "_reif", args, f);
                    else
                        g.post((boolean ? "bool_" : "int_") + names[which], args, f);
                }},
            {"bool2int",
                [](Gen & g) {
                    auto x = g.bv(), y = g.iv(0, 1);
                    g.post("bool2int", {g.j(x), g.j(y)}, [=](A a) { return x(a) == y(a); });
                }},
            {"linear",
                [](Gen & g) {
                    Wide wide{g};
                    auto which = g.c.draw(2);
                    bool boolean = which < 2 && g.c.chance(1, 4), reify = ! boolean && g.c.chance(1, 3);
                    static const vector<string> names{"eq", "le", "ne"};
                    auto n = 1 + g.c.draw(3);
                    auto x = boolean ? g.bvs(n) : g.ivs(n);
                    Values k;
                    for (size_t i = 0; i < n; ++i)
                        k.push_back(g.c.chance(1, 2) ? (g.c.chance(1, 2) ? 1 : -1) : g.c.around_zero(-4, 4));
                    auto s = ! reify && g.c.chance(1, 3) ? g.iv() : g.constant(-5, 6);
                    auto f = [=](A a) {
                        LL t = 0;
                        for (size_t i = 0; i < n; ++i)
                            t += k[i] * x[i](a);
                        return which == 0 ? t == s(a) : which == 1 ? t <= s(a) : t != s(a);
                    };
                    vector<string> args{g.ints(k), g.j(x), g.j(s)};
                    if (reify)
                        reified(g, "int_lin_" + names[which] + "_reif", args, f);
                    else
                        g.post((boolean ? "bool_lin_" : "int_lin_") + names[which], args, f);
                }},
            {"set_in",
                [](Gen & g) {
                    auto x = g.iv(-2, 5);
                    auto k = g.subset(-3, 6);
                    auto f = [=](A a) { return std::find(k.begin(), k.end(), x(a)) != k.end(); };
                    vector<string> args{g.j(x), g.set(k)};
                    if (g.c.chance(1, 2))
                        reified(g, "set_in_reif", args, f);
                    else
                        g.post("set_in", args, f);
                }},
            {"boolean",
                [](Gen & g) {
                    switch (g.c.draw(5)) {
                    case 0: {
                        auto x = g.bvs(g.c.draw(4));
                        reified(g, "array_bool_and", {g.j(x)}, [=](A a) {
                            auto v = all(x, a);
                            return std::count(v.begin(), v.end(), 1) == static_cast<long>(v.size());
                        });
                        break;
                    }
                    case 1: {
                        auto x = g.bvs(1 + g.c.draw(4));
                        g.post("array_bool_xor", {g.j(x)}, [=](A a) {
                            auto v = all(x, a);
                            return std::count(v.begin(), v.end(), 1) % 2 == 1;
                        });
                        break;
                    }
                    case 2: {
                        auto x = g.bv(), y = g.bv();
                        reified(g, "bool_and", {g.j(x), g.j(y)}, [=](A a) { return x(a) == 1 && y(a) == 1; });
                        break;
                    }
                    case 3: {
                        auto x = g.bv(), y = g.bv();
                        reified(g, "bool_or", {g.j(x), g.j(y)}, [=](A a) { return x(a) == 1 || y(a) == 1; });
                        break;
                    }
                    default: {
                        auto x = g.bvs(g.c.draw(3)), y = g.bvs(g.c.draw(3));
                        auto f = [=](A a) {
                            auto p = all(x, a), q = all(y, a);
                            return std::count(p.begin(), p.end(), 1) > 0 || std::count(q.begin(), q.end(), 0) > 0;
                        };
                        if (g.c.chance(1, 2))
                            reified(g, "bool_clause_reif", {g.j(x), g.j(y)}, f);
                        else
                            g.post("bool_clause", {g.j(x), g.j(y)}, f);
                    }
                    }
                }},
            {"all_different",
                [](Gen & g) {
                    auto x = g.ivs(1 + g.c.draw(4), -1, 3);
                    if (g.c.chance(1, 2)) {
                        auto k = g.subset(-1, 3);
                        g.post("glasgow_all_different_except_int", {g.j(x), g.set(k)}, [=](A a) {
                            auto v = all(x, a);
                            for (size_t i = 0; i < v.size(); ++i)
                                for (size_t o = 0; o < i; ++o)
                                    if (v[i] == v[o] && std::find(k.begin(), k.end(), v[i]) == k.end())
                                        return false;
                            return true;
                        });
                    }
                    else
                        g.post("glasgow_alldifferent", {g.j(x)}, [=](A a) {
                            auto v = all(x, a);
                            return std::set<LL>(v.begin(), v.end()).size() == v.size();
                        });
                }},
            {"all_equal",
                [](Gen & g) {
                    auto x = g.ivs(1 + g.c.draw(3));
                    g.post("glasgow_all_equal_int", {g.j(x)}, [=](A a) {
                        auto v = all(x, a);
                        return std::set<LL>(v.begin(), v.end()).size() <= 1;
                    });
                }},
            {"counting",
                [](Gen & g) {
                    auto x = g.ivs(1 + g.c.draw(4), -1, 3);
                    auto n = g.iv(0, 3);
                    switch (g.c.draw(3)) {
                    case 0: {
                        auto k = g.subset(-1, 3);
                        g.post("glasgow_among", {g.j(n), g.j(x), g.set(k)}, [=](A a) {
                            LL t = 0;
                            for (auto & v : x)
                                t += std::find(k.begin(), k.end(), v(a)) != k.end();
                            return t == n(a);
                        });
                        break;
                    }
                    case 1: {
                        auto y = g.iv(-1, 3);
                        g.post("glasgow_count_eq", {g.j(x), g.j(y), g.j(n)}, [=](A a) {
                            LL t = 0;
                            for (auto & v : x)
                                t += v(a) == y(a);
                            return t == n(a);
                        });
                        break;
                    }
                    case 2:
                        g.post("glasgow_nvalue", {g.j(n), g.j(x)}, [=](A a) {
                            auto v = all(x, a);
                            return static_cast<LL>(std::set<LL>(v.begin(), v.end()).size()) == n(a);
                        });
                        break;
                    default: {
                        auto cover = g.subset(-1, 3);
                        if (cover.empty())
                            cover.push_back(1);
                        g.c.shuffle(cover);
                        vector<T> counts;
                        for (size_t i = 0; i < cover.size(); ++i)
                            counts.push_back(g.iv(0, 2));
                        bool closed = g.c.chance(1, 2);
                        g.post(closed ? "glasgow_global_cardinality_closed" : "glasgow_global_cardinality", {g.j(x), g.ints(cover), g.j(counts)}, [=](A a) {
                            auto v = all(x, a);
                            for (size_t i = 0; i < cover.size(); ++i)
                                if (std::count(v.begin(), v.end(), cover[i]) != counts[i](a))
                                    return false;
                            if (closed)
                                for (auto w : v)
                                    if (std::find(cover.begin(), cover.end(), w) == cover.end())
                                        return false;
                            return true;
                        });
                    }
                    }
                }},
            {"arg_sort",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(2);
                    auto x = g.ivs(n, 0, 2), p = g.ivs(n, 1, static_cast<LL>(n));
                    g.post("glasgow_arg_sort_int", {g.j(x), g.j(p)}, [=](A a) {
                        vector<size_t> order(n);
                        std::iota(order.begin(), order.end(), 0);
                        std::stable_sort(order.begin(), order.end(), [&](auto i, auto o) { return x[i](a) < x[o](a); });
                        for (size_t i = 0; i < n; ++i)
                            if (p[i](a) != static_cast<LL>(order[i]) + 1)
                                return false;
                        return true;
                    });
                }},
            {"sort",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(2);
                    auto x = g.ivs(n, 0, 2), y = g.ivs(n, 0, 2);
                    g.post("glasgow_sort", {g.j(x), g.j(y)}, [=](A a) {
                        auto v = all(x, a);
                        std::sort(v.begin(), v.end());
                        return v == all(y, a);
                    });
                }},
            {"bin_packing",
                [](Gen & g) {
                    auto bins = 1 + g.c.draw(2), n = 1 + g.c.draw(3);
                    auto x = g.distinct(n, 0, static_cast<LL>(bins) - 1, true);
                    Values sizes;
                    for (size_t i = 0; i < n; ++i)
                        sizes.push_back(g.c.range(0, 4));
                    auto loads = [=](A a) -> optional<Values> {
                        Values l(bins, 0);
                        for (size_t i = 0; i < n; ++i) {
                            auto b = x[i](a);
                            if (b < 0 || b >= static_cast<LL>(bins))
                                return std::nullopt;
                            l[static_cast<size_t>(b)] += sizes[i];
                        }
                        return l;
                    };
                    if (g.c.chance(1, 2)) {
                        Values caps;
                        for (size_t i = 0; i < bins; ++i)
                            caps.push_back(g.c.range(0, 7));
                        g.post("glasgow_bin_packing_capa", {g.ints(caps), g.j(x), g.ints(sizes)}, [=](A a) {
                            auto l = loads(a);
                            if (! l)
                                return false;
                            for (size_t i = 0; i < bins; ++i)
                                if ((*l)[i] > caps[i])
                                    return false;
                            return true;
                        });
                    }
                    else {
                        auto y = g.ivs(bins, 0, 5, true, true);
                        g.post("glasgow_bin_packing_load", {g.j(y), g.j(x), g.ints(sizes)}, [=](A a) {
                            auto l = loads(a);
                            return l && *l == all(y, a);
                        });
                    }
                }},
            {"knapsack",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(2);
                    auto x = g.distinct(n, 0, 2, true);
                    Values w, p;
                    for (size_t i = 0; i < n; ++i) {
                        w.push_back(g.c.range(0, 4));
                        p.push_back(g.c.range(0, 4));
                    }
                    auto weight = g.iv(0, 6, true, true), profit = g.iv(0, 6, true, true);
                    g.post("glasgow_knapsack", {g.ints(w), g.ints(p), g.j(x), g.j(weight), g.j(profit)}, [=](A a) {
                        LL s = 0, t = 0;
                        for (size_t i = 0; i < n; ++i) {
                            s += w[i] * x[i](a);
                            t += p[i] * x[i](a);
                        }
                        return s == weight(a) && t == profit(a);
                    });
                }},
            {"circuit",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(3);
                    auto x = g.distinct(n, 0, static_cast<LL>(n) - 1);
                    g.post("glasgow_circuit", {g.j(x)}, [=](A a) {
                        LL at = 0;
                        for (size_t i = 0; i < n; ++i) {
                            at = x[static_cast<size_t>(at)](a);
                            if (at < 0 || at >= static_cast<LL>(n) || (at == 0) != (i + 1 == n))
                                return false;
                        }
                        return true;
                    });
                }},
            {"inverse",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(2);
                    auto xy = g.distinct(2 * n, 1, static_cast<LL>(n));
                    vector<T> x(xy.begin(), xy.begin() + static_cast<long>(n)), y(xy.begin() + static_cast<long>(n), xy.end());
                    g.post("glasgow_inverse", {g.j(x), g.j(y)}, [=](A a) {
                        for (size_t i = 0; i < n; ++i)
                            for (size_t o = 0; o < n; ++o)
                                if ((x[i](a) == static_cast<LL>(o) + 1) != (y[o](a) == static_cast<LL>(i) + 1))
                                    return false;
                        for (auto v : all(xy, a))
                            if (v < 1 || v > static_cast<LL>(n))
                                return false;
                        return true;
                    });
                }},
            {"symmetric_all_different",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(3);
                    auto x = g.distinct(n, 1, static_cast<LL>(n));
                    g.post("glasgow_symmetric_all_different", {g.j(x)}, [=](A a) {
                        for (size_t i = 0; i < n; ++i) {
                            auto v = x[i](a);
                            if (v < 1 || v > static_cast<LL>(n) || x[static_cast<size_t>(v - 1)](a) != static_cast<LL>(i) + 1)
                                return false;
                        }
                        return true;
                    });
                }},
            {"cumulative",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(2);
                    bool optional_tasks = g.c.chance(1, 3);
                    auto s = g.ivs(n, 0, 3), l = g.ivs(n, 0, 3, true, true), h = g.ivs(n, 0, 2, true, true);
                    auto b = g.iv(0, 3, true, true);
                    vector<T> p;
                    vector<string> args{g.j(s), g.j(l), g.j(h)};
                    if (optional_tasks) {
                        p = g.bvs(n);
                        args.push_back(g.j(p));
                    }
                    args.push_back(g.j(b));
                    g.post(optional_tasks ? "glasgow_cumulative_opt" : "glasgow_cumulative", args, [=](A a) {
                        for (LL t = -60; t <= 60; ++t) {
                            LL used = 0;
                            for (size_t i = 0; i < n; ++i)
                                if ((p.empty() || p[i](a) == 1) && s[i](a) <= t && t < s[i](a) + l[i](a))
                                    used += h[i](a);
                            if (used > b(a))
                                return false;
                        }
                        return true;
                    });
                }},
            {"disjunctive",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(2);
                    bool optional_tasks = g.c.chance(1, 3), strict = g.c.chance(1, 2);
                    auto s = g.ivs(n, 0, 4), l = g.ivs(n, 0, 3, true, true);
                    vector<T> p;
                    vector<string> args{g.j(s), g.j(l)};
                    if (optional_tasks) {
                        p = g.bvs(n);
                        args.push_back(g.j(p));
                    }
                    g.post(string{"glasgow_disjunctive"} + (strict ? "_strict" : "") + (optional_tasks ? "_opt" : ""), args, [=](A a) {
                        for (size_t i = 0; i < n; ++i)
                            for (size_t o = 0; o < i; ++o) {
                                if (! p.empty() && (p[i](a) == 0 || p[o](a) == 0))
                                    continue;
                                if (! strict && (l[i](a) == 0 || l[o](a) == 0))
                                    continue;
                                if (s[i](a) + l[i](a) > s[o](a) && s[o](a) + l[o](a) > s[i](a))
                                    return false;
                            }
                        return true;
                    });
                }},
            {"diffn",
                [](Gen & g) {
                    auto n = 1 + g.c.draw(1);
                    bool strict = g.c.chance(1, 2);
                    auto x = g.ivs(n, 0, 2), y = g.ivs(n, 0, 2), w = g.ivs(n, 0, 2, true, true), h = g.ivs(n, 0, 2, true, true);
                    g.post(strict ? "glasgow_diffn" : "glasgow_diffn_nonstrict", {g.j(x), g.j(y), g.j(w), g.j(h)}, [=](A a) {
                        for (size_t i = 0; i < n; ++i)
                            for (size_t o = 0; o < i; ++o) {
                                if (! strict && (w[i](a) == 0 || w[o](a) == 0 || h[i](a) == 0 || h[o](a) == 0))
                                    continue;
                                if (x[i](a) + w[i](a) > x[o](a) && x[o](a) + w[o](a) > x[i](a) && y[i](a) + h[i](a) > y[o](a) && y[o](a) + h[o](a) > y[i](a))
                                    return false;
                            }
                        return true;
                    });
                }},
            {"ordering",
                [](Gen & g) {
                    bool boolean = g.c.chance(1, 4), strict = ! boolean && g.c.chance(1, 2);
                    auto n = 1 + g.c.draw(3);
                    auto x = boolean ? g.bvs(n) : g.ivs(n);
                    g.post(boolean ? "glasgow_increasing_bool" : strict ? "glasgow_strictly_increasing_int" : "glasgow_increasing_int", {g.j(x)}, [=](A a) {
                        for (size_t i = 1; i < n; ++i)
                            if (x[i](a) < x[i - 1](a) + (strict ? 1 : 0))
                                return false;
                        return true;
                    });
                }},
            {"lex",
                [](Gen & g) {
                    bool boolean = g.c.chance(1, 4), strict = g.c.chance(1, 2);
                    auto n = 1 + g.c.draw(2), m = g.c.chance(1, 3) ? 1 + g.c.draw(2) : n;
                    auto x = boolean ? g.bvs(n) : g.ivs(n, 0, 2), y = boolean ? g.bvs(m) : g.ivs(m, 0, 2);
                    auto f = [=](A a) { return lex(all(x, a), all(y, a), strict); };
                    auto id = string{strict ? "glasgow_lex_less_" : "glasgow_lex_lesseq_"} + (boolean ? "bool" : "int");
                    if (g.c.chance(1, 3))
                        reified(g, id + "_reif", {g.j(x), g.j(y)}, f);
                    else
                        g.post(id, {g.j(x), g.j(y)}, f);
                }},
            {"mdd",
                [](Gen & g) {
                    // nodes are numbered in any order, but for the root, and 0 is where they end
                    auto levels = 1 + g.c.draw(2);
                    auto x = g.ivs(levels, 0, 2);
                    vector<LL> level{1};
                    for (size_t l = 2; l <= levels; ++l)
                        for (auto n = 1 + g.c.draw(1); n > 0; --n)
                            level.push_back(static_cast<LL>(l));
                    if (g.c.chance(1, 4))
                        level.push_back(static_cast<LL>(levels) + 1); // leads nowhere
                    for (size_t i = 1; i + 1 < level.size(); ++i)
                        std::swap(level[i], level[i + g.c.draw(level.size() - 1 - i)]);
                    struct Edge
                    {
                        size_t from, to;
                        Values label;
                    };
                    vector<Edge> edges;
                    for (size_t n = 1; n <= level.size(); ++n)
                        for (LL v = -1; v <= 3; ++v) {
                            vector<size_t> to;
                            for (size_t o = 1; o <= level.size(); ++o)
                                if (level[o - 1] == level[n - 1] + 1)
                                    to.push_back(o);
                            if (level[n - 1] == static_cast<LL>(levels))
                                to.push_back(0);
                            if (to.empty() || g.c.chance(1, 3))
                                continue;
                            auto o = g.c.pick(to);
                            auto e = std::find_if(edges.begin(), edges.end(), [&](auto & q) { return q.from == n && q.to == o; });
                            if (e != edges.end() && ! g.c.chance(1, 4))
                                e->label.push_back(v);
                            else
                                edges.push_back({n, o, {v}});
                        }
                    g.c.shuffle(edges);
                    Values from, to;
                    string labels = "[";
                    for (auto & e : edges) {
                        from.push_back(static_cast<LL>(e.from));
                        to.push_back(static_cast<LL>(e.to));
                        labels += (labels.size() > 1 ? "," : "") + g.set(e.label);
                    }
                    labels += "]";
                    vector<string> args{g.j(x), to_string(level.size()), g.ints(level), to_string(edges.size()), g.ints(from),
                        edges.empty() ? labels : g.named(labels, {}, false), g.ints(to)};
                    g.post("glasgow_mdd", args, [=](A a) {
                        size_t at = 1;
                        for (size_t i = 0; i < levels; ++i) {
                            auto v = x[i](a);
                            auto e = std::find_if(edges.begin(), edges.end(),
                                [&](auto & q) { return q.from == at && std::find(q.label.begin(), q.label.end(), v) != q.label.end(); });
                            if (e == edges.end())
                                return false;
                            at = e->to;
                        }
                        return at == 0;
                    });
                }},
            {"regular",
                [](Gen & g) {
                    auto states = 1 + g.c.draw(3), symbols = 1 + g.c.draw(2);
                    auto x = g.ivs(1 + g.c.draw(3), 0, static_cast<LL>(symbols) - 1);
                    Values next;
                    for (size_t i = 0; i < states * symbols; ++i)
                        next.push_back(g.c.chance(1, 4) ? 0 : 1 + static_cast<LL>(g.c.draw(states - 1)));
                    auto start = 1 + static_cast<LL>(g.c.draw(states - 1));
                    auto final_states = g.subset(1, static_cast<LL>(states));
                    g.post("glasgow_regular", {g.j(x), to_string(states), to_string(symbols), g.ints(next), to_string(start), g.set(final_states)}, [=](A a) {
                        auto at = start;
                        for (auto v : all(x, a)) {
                            if (v < 0 || v >= static_cast<LL>(symbols))
                                return false;
                            at = next[static_cast<size_t>(at - 1) * symbols + static_cast<size_t>(v)];
                            if (at == 0)
                                return false;
                        }
                        return std::find(final_states.begin(), final_states.end(), at) != final_states.end();
                    });
                }},
            {"member",
                [](Gen & g) {
                    bool boolean = g.c.chance(1, 4);
                    auto n = 1 + g.c.draw(3);
                    auto x = boolean ? g.bvs(n) : g.ivs(n);
                    auto y = boolean ? g.bv() : g.iv();
                    g.post(boolean ? "glasgow_member_bool" : "glasgow_member_int", {g.j(x), g.j(y)}, [=](A a) {
                        auto v = all(x, a);
                        return std::find(v.begin(), v.end(), y(a)) != v.end();
                    });
                }},
            {"precede",
                [](Gen & g) {
                    auto x = g.ivs(1 + g.c.draw(3), -1, 3);
                    auto chain_holds = [](const Values & v, const Values & chain) {
                        for (size_t i = 1; i < chain.size(); ++i) {
                            auto s = std::find(v.begin(), v.end(), chain[i - 1]), t = std::find(v.begin(), v.end(), chain[i]);
                            if (t != v.end() && s >= t)
                                return false;
                        }
                        return true;
                    };
                    switch (g.c.draw(2)) {
                    case 0: {
                        auto s = g.c.around_zero(-1, 3), t = g.c.around_zero(-1, 3);
                        if (s == t)
                            t = s + 1;
                        g.post("glasgow_value_precede_int", {to_string(s), to_string(t), g.j(x)}, [=](A a) { return chain_holds(all(x, a), {s, t}); });
                        break;
                    }
                    case 1: {
                        auto chain = g.subset(-1, 3);
                        g.c.shuffle(chain);
                        if (chain.empty())
                            chain.push_back(1);
                        g.post("glasgow_value_precede_chain_int", {g.ints(chain), g.j(x)}, [=](A a) { return chain_holds(all(x, a), chain); });
                        break;
                    }
                    default:
                        g.post("glasgow_seq_precede_chain_int", {g.j(x)}, [=](A a) {
                            LL largest = 0;
                            for (auto v : all(x, a)) {
                                if (v > largest + 1)
                                    return false;
                                largest = std::max(largest, v);
                            }
                            return true;
                        });
                    }
                }},
            {"table",
                [](Gen & g) {
                    bool boolean = g.c.chance(1, 4);
                    auto n = 1 + g.c.draw(2);
                    auto x = boolean ? g.bvs(n) : g.ivs(n, 0, 2);
                    auto rows = g.c.draw(5);
                    Values flat;
                    for (size_t i = 0; i < rows * n; ++i)
                        flat.push_back(boolean ? g.c.range(0, 1) : g.c.around_zero(-1, 3));
                    g.post(boolean ? "glasgow_table_bool" : "glasgow_table_int", {g.j(x), g.ints(flat, boolean)}, [=](A a) {
                        auto v = all(x, a);
                        for (size_t r = 0; r < rows; ++r)
                            if (std::equal(v.begin(), v.end(), flat.begin() + static_cast<long>(r * n)))
                                return true;
                        return false;
                    });
                }},
        };
        return t;
    }

    // A variable without bounds, given its value by a linear equation over those before it.
    auto derived(Gen & g) -> void
    {
        auto n = 1 + g.c.draw(1);
        auto x = g.ivs(n);
        Values k;
        for (size_t i = 0; i < n; ++i)
            k.push_back(g.c.around_zero(-3, 3));
        auto off = g.c.around_zero(-3, 3);
        Var v;
        v.name = g.name(g.d.vars.size());
        v.unbounded = true;
        v.defined = g.c.chance(1, 2);
        v.derive = [=](const Values & a) {
            LL t = off;
            for (size_t i = 0; i < n; ++i)
                t += k[i] * x[i](a);
            return t;
        };
        auto me = static_cast<int>(g.d.vars.size());
        g.d.vars.push_back(v);
        // sometimes the other way about
        auto sign = g.c.chance(1, 2) ? -1 : 1;
        auto terms = x;
        terms.push_back({me, 0, false});
        Values coeffs;
        for (auto c : k)
            coeffs.push_back(sign * c);
        coeffs.push_back(-sign);
        g.post("int_lin_eq", {g.ints(coeffs), g.j(terms), to_string(-off * sign)}, [](const Values &) { return true; });
    }

    auto annotations(Gen & g) -> string
    {
        auto & c = g.c;
        auto search = [&](auto & self, int depth) -> string {
            switch (c.weighted({5, 3, depth > 0 ? 2U : 0U, 1, 1})) {
            case 0:
            case 1: {
                static const vector<string> vars{"input_order", "first_fail", "dom_w_deg", "smallest", "anti_first_fail", "largest", "occurrence", "most_constrained", "max_regret"};
                static const vector<string> vals{"indomain_min", "indomain_max", "indomain", "indomain_median", "outdomain_max", "outdomain_min", "indomain_split",
                    "indomain_split_random", "indomain_random", "indomain_middle", "indomain_reverse_split"};
                bool boolean = c.chance(1, 3);
                vector<T> x;
                for (size_t i = 0; i < g.d.vars.size(); ++i)
                    if (g.d.vars[i].boolean == boolean && c.chance(2, 3))
                        x.push_back({static_cast<int>(i), 0, boolean});
                if (c.chance(1, 8))
                    x.push_back({-1, 1, boolean});
                c.shuffle(x);
                return string{"{\"id\":\""} + (boolean ? "bool" : "int") + "_search\",\"args\":[" + g.j(x) + ",\"" + c.pick(vars) + "\",\"" + c.pick(vals) + "\",\"" +
                    (c.chance(1, 6) ? "lds" : "complete") + "\"]}";
            }
            case 2: {
                string r = "{\"id\":\"seq_search\",\"args\":[[";
                auto n = c.draw(3);
                for (size_t i = 0; i < n; ++i)
                    r += (i ? "," : "") + self(self, depth - 1);
                return r + "]]}";
            }
            case 3: return "{\"id\":\"restart_luby\",\"args\":[100]}";
            default: return "\"restart_none\"";
            }
        };
        string r = "[";
        auto n = c.draw(2);
        for (size_t i = 0; i < n; ++i)
            r += (i ? "," : "") + search(search, 2);
        return r + "]";
    }

    struct Parsed
    {
        vector<string> blocks;
        string status;
        vector<string> stats;
    };

    auto parse(Case & c, const string & out) -> Parsed
    {
        Parsed r;
        string block;
        size_t at = 0;
        while (at < out.size()) {
            auto e = out.find('\n', at);
            if (e == string::npos)
                c.fail("what is printed does not end with a line end");
            auto line = out.substr(at, e - at);
            at = e + 1;
            if (line.starts_with("%%%mzn-stat"))
                r.stats.push_back(line);
            else if (! r.status.empty())
                c.fail("something follows " + r.status + ": " + line);
            else if (line == "----------") {
                r.blocks.push_back(block);
                block.clear();
            }
            else if (line.starts_with("=====")) {
                if (! block.empty())
                    c.fail("an unfinished solution is printed");
                r.status = line;
            }
            else
                block += line + "\n";
        }
        if (! block.empty())
            c.fail("an unfinished solution is printed: " + block);
        return r;
    }

    auto generate(Case & c, Doc & d, const string & which, double budget) -> void
    {
        Gen g{c, d, budget};
        auto & table = table_of();
        auto named = [&](const string & n) {
            for (auto & [name, f] : table)
                if (name == n)
                    f(g);
        };
        if (which == "any") {
            if (c.chance(1, 5))
                derived(g);
            for (auto n = 1 + c.draw(3); n > 0; --n)
                c.pick(table).second(g);
        }
        else {
            named(which);
            if (c.chance(1, 3))
                c.pick(table).second(g);
        }
        if (d.vars.empty())
            g.iv(-2, 3, false);
        if (d.vars.empty())
            c.discard();
        // given a value outright, or another variable's
        for (size_t i = 0; i < d.vars.size(); ++i)
            if (! d.vars[i].unbounded && c.chance(1, 16)) {
                T t;
                if (c.chance(1, 3)) {
                    auto o = c.draw(d.vars.size() - 1);
                    if (o == i || d.vars[o].boolean != d.vars[i].boolean)
                        continue;
                    t = {static_cast<int>(o), 0, d.vars[i].boolean};
                }
                else
                    t = {-1, c.pick(d.vars[i].domain), d.vars[i].boolean};
                d.vars[i].rhs = g.j(t);
                T me{static_cast<int>(i), 0, false};
                d.cons.push_back({"", {}, [=](const Values & a) { return me(a) == t(a); }});
                c.label("a variable that is given a value");
            }
        if (c.chance(1, 3))
            d.ann = annotations(g);
        // an output array of its own
        if (c.chance(1, 3)) {
            Array a;
            a.name = "O1";
            bool boolean = c.chance(1, 3);
            for (size_t i = 0; i < d.vars.size(); ++i)
                if (d.vars[i].boolean == boolean && c.chance(2, 3))
                    a.terms.push_back({static_cast<int>(i), 0, boolean});
            if (c.chance(1, 4) && ! a.terms.empty())
                a.terms.push_back({-1, c.range(0, 1), boolean});
            if (! a.terms.empty()) {
                a.text = g.plain(a.terms);
                a.variables = true;
                d.arrays.push_back(a);
            }
        }
        bool everything = c.chance(3, 4);
        for (auto & v : d.vars)
            if (everything || c.chance(1, 2))
                d.output.push_back(v.name);
        for (auto & a : d.arrays)
            if (std::any_of(a.terms.begin(), a.terms.end(), [](auto & t) { return t.var >= 0; }) && c.chance(1, 2))
                d.output.push_back(a.name);
        c.shuffle(d.output);
    }

    struct Want
    {
        vector<Values> solutions;
        std::map<string, size_t> blocks; // how many solutions print it
    };

    auto expected(const Doc & d) -> Want
    {
        Want w;
        w.solutions = d.solutions();
        for (auto & s : w.solutions)
            ++w.blocks[d.block(s)];
        return w;
    }

    auto objective_of(Case & c, const Doc & d, const string & block) -> LL
    {
        auto & n = d.vars[static_cast<size_t>(d.objective)];
        auto at = ("\n" + block).find("\n" + n.name + " = ");
        if (at == string::npos)
            c.fail("the objective is not printed");
        auto v = block.substr(at + n.name.size() + 3);
        v = v.substr(0, v.find(';'));
        return v == "true" ? 1 : v == "false" ? 0 : std::stoll(v);
    }

    auto solve(Case & c, const string & which, bool optimise, double budget, bool prove, bool timeouts) -> void
    {
        Doc d;
        generate(c, d, which, budget);
        if (optimise) {
            d.objective = static_cast<int>(c.draw(d.vars.size() - 1));
            d.method = c.chance(1, 2) ? "maximize" : "minimize";
            auto & n = d.vars[static_cast<size_t>(d.objective)].name;
            if (std::find(d.output.begin(), d.output.end(), n) == d.output.end())
                d.output.push_back(n);
        }
        fe::Scratch scratch;
        vector<string> args;
        bool all_solutions = c.chance(1, 2);
        optional<size_t> limit;
        if (all_solutions)
            args.push_back(c.chance(1, 2) ? "-a" : "--all-solutions");
        if (c.chance(1, 5)) {
            limit = 1 + c.draw(4);
            args.insert(args.end(), {"-n", to_string(*limit)});
        }
        if (c.chance(1, 5))
            args.push_back("-f");
        if (c.chance(1, 8))
            args.push_back("-i");
        if (c.chance(1, 8))
            args.push_back("-v");
        if (c.chance(1, 8))
            args.insert(args.end(), {"-p", to_string(1 + c.draw(3))});
        if (c.chance(1, 4) || (d.ann.contains("random") && c.chance(7, 8)))
            args.insert(args.end(), {"-r", to_string(c.draw(1000))});
        else if (d.ann.contains("random"))
            c.discard(); // what is printed would then not be the same twice
        bool stats = c.chance(1, 4);
        if (stats)
            args.push_back("-s");
        bool lift = c.chance(1, 6);
        if (lift) {
            args.push_back("--difference-logic");
            if (c.chance(1, 3))
                args.push_back(c.chance(1, 2) ? "--difference-logic-simplify=off" : "--difference-logic-simplify=on");
        }
        // documented: only for finding one solution, or for optimisation
        if ((optimise || (! all_solutions && ! limit) || limit == 1) && c.chance(1, 4))
            args.push_back("--restarts=" + to_string(c.draw(5)));
        if (timeouts)
            args.insert(args.end(), {"-t", to_string(c.draw(3))});
        if (prove)
            args.insert(args.end(), {"--prove", "--proof-files-basename", scratch.file("p")});
        string shown;
        for (auto & a : args)
            shown += " " + (a.starts_with("/") ? string{"p"} : a);
        args.insert(args.begin() + static_cast<long>(c.draw(1) ? args.size() : 0), scratch.file("m.fzn"));
        c.note() << "fzn-glasgow" << shown << "\n" << d.text();
        fe::spit(scratch.file("m.fzn"), d.text());

        auto want = expected(d);
        auto total = want.solutions.size();
        if (total > 0 && static_cast<double>(total) < d.product())
            c.nontrivial();

        auto ran = fe::run_fzn(args);
        if (ran.status != 0 && prove && ran.err.contains("unimplemented") && (d.text().contains("knapsack") || d.text().contains("bin_packing")))
            c.discard(); // neither is supported in proofs over anything but plain variables
        if (ran.status != 0 && prove && ran.err.contains("Integer overflow") && std::any_of(d.vars.begin(), d.vars.end(), [](auto & v) { return v.unbounded; })) {
            c.label("refused, as the numbers in the proof would be too large");
            c.discard();
        }
        if (ran.status != 0)
            c.fail("it fails: " + ran.err, which);
        auto got = parse(c, ran.out);
        auto show = [&] { return "\nwhich prints\n" + ran.out; };

        optional<LL> best;
        for (auto & s : want.solutions)
            if (optimise) {
                auto v = s[static_cast<size_t>(d.objective)];
                if (! best || (d.method == "minimize" ? v < *best : v > *best))
                    best = v;
            }
        auto seen = want.blocks;
        optional<LL> previous;
        for (auto & b : got.blocks) {
            auto it = seen.find(b);
            if (it == seen.end())
                c.fail("this is not a solution:\n" + b + show(), which);
            if (it->second == 0)
                c.fail("this is printed more times than there are solutions like it:\n" + b + show(), which);
            if (! optimise)
                --it->second;
            else {
                auto v = objective_of(c, d, b);
                if (previous && (d.method == "minimize" ? v >= *previous : v <= *previous))
                    c.fail("a solution is no better than the one before it" + show(), which);
                previous = v;
            }
        }
        bool complete = got.status == "==========" || got.status == "=====UNSATISFIABLE=====";
        if (got.status == "=====UNSATISFIABLE=====" && total > 0)
            c.fail("it has solutions" + show(), which);
        if (got.status == "==========" && got.blocks.empty())
            c.fail("there was no solution" + show(), which);
        if (got.status == "=====UNKNOWN=====" && (! got.blocks.empty() || ! timeouts))
            c.fail("it is not unknown" + show(), which);
        if (! got.status.empty() && ! complete && got.status != "=====UNKNOWN=====")
            c.fail("this is not a status: " + got.status, which);
        if (complete && ! optimise && got.blocks.size() != total)
            c.fail(to_string(got.blocks.size()) + " solutions were printed, of " + to_string(total) + show(), which);
        if (complete && optimise && previous != best)
            c.fail("the best value is " + (best ? to_string(*best) : string{"none"}) + show(), which);
        if (limit && got.blocks.size() > *limit)
            c.fail("more solutions than were asked for" + show(), which);
        if (! timeouts) {
            if (total == 0 && ! complete)
                c.fail("it is unsatisfiable, and that is not said" + show(), which);
            bool stopped = limit ? got.blocks.size() == *limit : ! optimise && ! all_solutions && got.blocks.size() == 1;
            if (! complete && ! stopped)
                c.fail("it stopped too soon" + show(), which);
            if (! limit && ! optimise && ! all_solutions && got.blocks.size() > 1)
                c.fail("one solution was asked for" + show(), which);
        }
        else
            c.label(complete ? "finished in time" : "ran out of time");
        if (stats) {
            auto value = [&](const string & n) -> optional<double> {
                optional<double> r;
                for (auto & l : got.stats)
                    if (l.starts_with("%%%mzn-stat: " + n + "="))
                        r = std::stod(l.substr(14 + n.size()));
                return r;
            };
            if (value("intVariables") != static_cast<double>(d.vars.size()))
                c.fail("the number of variables is wrong" + show());
            auto branch = static_cast<double>(std::count_if(d.vars.begin(), d.vars.end(), [](auto & v) { return ! v.defined; }));
            if (value("branchableVariables") != branch)
                c.fail("the number of variables to branch on is wrong" + show());
            for (auto * n : {"failures", "nodes", "propagations", "effectfulPropagations", "peakDepth", "restarts", "solveTime"})
                if (! value(n))
                    c.fail(string{"there is no "} + n + show());
            if (*value("effectfulPropagations") > *value("propagations") || *value("peakDepth") > *value("nodes"))
                c.fail("the statistics contradict each other" + show());
            if (lift && *value("nodes") > 0 && ! value("differenceLogicEdgesLifted"))
                c.fail("difference logic has no statistics" + show());
            for (auto & l : got.stats)
                if (l != "%%%mzn-stat-end" && (! l.starts_with("%%%mzn-stat: ") || ! l.contains('=')))
                    c.fail("this is not a statistic: " + l);
            if (got.stats.empty() || got.stats.back() != "%%%mzn-stat-end")
                c.fail("the statistics are not ended" + show());
        }
        else if (! got.stats.empty())
            c.fail("statistics were not asked for" + show());

        if (prove) {
            mdl::Written w;
            w.opb = fe::slurp(scratch.file("p.opb"));
            w.pbp = fe::slurp(scratch.file("p.pbp"));
            auto r = mdl::check_proof(c, w, "proof " + which);
            auto & k = r.conclusion;
            if (complete && total == 0 && k.kind != "UNSAT" && ! (optimise && k.kind == "BOUNDS" && ! k.upper))
                c.fail("the proof concludes " + k.kind + " and not that there is no solution", which);
            if (complete && total > 0 && ! optimise && (k.kind != "ENUMERATION_COMPLETE" || k.count != static_cast<LL>(total)))
                c.fail("the proof concludes " + k.kind + " of " + to_string(k.count) + " and not that all " + to_string(total) + " solutions were found", which);
            if (complete && total > 0 && optimise) {
                auto b = d.method == "minimize" ? *best : -*best;
                if (k.kind != "BOUNDS" || ! k.lower || ! k.upper || *k.lower != b || *k.upper != b)
                    c.fail("the proof does not conclude that the best value is " + to_string(*best), which);
            }
            if (! complete && (k.kind == "UNSAT" || k.kind == "ENUMERATION_COMPLETE"))
                c.fail("the proof concludes " + k.kind + " when that was not shown", which);
            c.label("proof " + k.kind);
        }
    }

    auto replaced(string s, const string & from, const string & to) -> optional<string>
    {
        auto at = s.find(from);
        if (at == string::npos)
            return std::nullopt;
        return s.replace(at, from.size(), to);
    }

    // A document that is wrong is refused, and nothing is printed as if it were an answer.
    auto damaged(Case & c) -> void
    {
        Doc d;
        generate(c, d, "any", 60);
        auto text = d.text();
        optional<string> bad;
        switch (c.draw(11)) {
        case 0: bad = replaced(text, "\"version\":\"1.0\"", "\"version\":\"2.0\""); break;
        case 1: { // cut short
            bad = text.substr(0, c.draw(text.rfind('}') - 1));
            break;
        }
        case 2: { // a constraint that is not known
            auto & k = c.pick(d.cons);
            if (! k.id.empty())
                bad = replaced(text, "\"id\":\"" + k.id + "\"", "\"id\":\"" + k.id + "_x\"");
            break;
        }
        case 3: bad = replaced(text, "\"type\":\"int\"", "\"type\":\"float\""); break;
        case 4: bad = replaced(text, "\"method\":\"satisfy\"", c.chance(1, 2) ? "\"method\":\"satisfied\"" : "\"method\":\"minimize\",\"objective\":\"nothing\""); break;
        case 5: { // an argument that is a name of nothing
            auto & k = d.cons[c.draw(d.cons.size() - 1)];
            if (k.args.empty())
                break;
            auto & a = k.args[c.draw(k.args.size() - 1)];
            a = c.chance(1, 2) || ! a.starts_with("[") ? "\"nothing\"" : a == "[]" ? "[\"nothing\"]" : "[\"nothing\"," + a.substr(1);
            bad = d.text();
            break;
        }
        case 6: { // too few arguments
            auto & k = d.cons[c.draw(d.cons.size() - 1)];
            if (k.args.empty() || (k.id == "bool_xor" && k.args.size() == 3))
                break;
            k.args.pop_back();
            bad = d.text();
            break;
        }
        case 7: { // numbers of coefficients and variables that differ
            for (auto & k : d.cons)
                if (k.id.contains("_lin_") && ! bad) {
                    k.args[0] = k.args[0].starts_with("[") ? "[1," + k.args[0].substr(1) : "[1,2,3,4,5,6,7,8,9]";
                    bad = d.text();
                }
            break;
        }
        case 8: { // not as many of one thing as of another
            for (auto & k : d.cons)
                if (! bad)
                    for (auto & [id, arg] : std::initializer_list<std::pair<string, size_t>>{{"glasgow_inverse", 0}, {"glasgow_sort", 0}, {"glasgow_arg_sort_int", 1},
                             {"glasgow_cumulative", 1}, {"glasgow_disjunctive", 1}, {"glasgow_diffn", 2}, {"glasgow_bin_packing_capa", 2}, {"glasgow_knapsack", 0},
                             {"glasgow_global_cardinality", 1}, {"glasgow_cumulative_opt", 3}, {"glasgow_disjunctive_opt", 2}})
                        if (k.id == id && k.args[arg].starts_with("[") && k.args[arg] != "[]") {
                            k.args[arg] = "[1," + k.args[arg].substr(1);
                            bad = d.text();
                        }
            break;
        }
        case 9: { // a table that has a row that is not finished
            for (auto & k : d.cons)
                if (k.id == "glasgow_table_int" && k.args[1].starts_with("[") && k.args[0].starts_with("[") && k.args[0].contains(',') && ! bad) {
                    k.args[1] = k.args[1] == "[]" ? "[1]" : "[1," + k.args[1].substr(1);
                    bad = d.text();
                }
            break;
        }
        case 10: { // something to print that is not there
            d.output.push_back("nothing");
            if (! d.solutions().empty())
                bad = d.text();
            break;
        }
        default: { // in a diagram, an edge that goes nowhere, a level that there is not, or an automaton without some of its transitions
            for (auto & k : d.cons)
                if (! bad) {
                    if (k.id == "glasgow_mdd" && c.chance(1, 2)) {
                        // or as many nodes or edges as there are not
                        auto & a = k.args[c.chance(1, 2) ? 1 : 3];
                        a = to_string(std::stoll(a) + 1 + static_cast<LL>(c.draw(3)));
                        bad = d.text();
                    }
                    else if (k.id == "glasgow_mdd" && k.args[6].starts_with("[") && k.args[6] != "[]") {
                        auto & a = k.args[c.chance(1, 2) ? 6 : 2];
                        if (a.starts_with("[")) {
                            auto end = a.find_first_of(",]");
                            a = "[77" + a.substr(end);
                            bad = d.text();
                        }
                    }
                    else if (k.id == "glasgow_regular" && k.args[3].starts_with("[")) {
                        k.args[3] = "[" + k.args[3].substr(std::min(k.args[3].find(',') == string::npos ? k.args[3].size() - 1 : k.args[3].find(',') + 1, k.args[3].size()));
                        bad = d.text();
                    }
                }
        }
        }
        if (! bad)
            c.discard();
        c.note() << *bad;
        c.nontrivial();
        fe::Scratch scratch;
        fe::spit(scratch.file("m.fzn"), *bad);
        auto ran = fe::run_fzn({"-a", scratch.file("m.fzn")});
        if (ran.status == 0)
            c.fail("it is accepted, and prints\n" + ran.out);
        if (ran.out.contains("-----") || ran.out.contains("====="))
            c.fail("it fails, and also prints\n" + ran.out);
        if (ran.err.empty())
            c.fail("it fails, and does not say so");
    }
}

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C21";
    s.rule = "for documents that are solved, at least one assignment is a solution and at least one is not; for damaged ones, there was something to damage";
    for (auto & [name, f] : table_of())
        s.properties.push_back({name, 3500, 15, [name](Case & c) { solve(c, name, c.chance(1, 5), 400, c.chance(1, 8), false); }});
    s.properties.push_back({"documents", 40000, 15, [](Case & c) { solve(c, "any", false, 600, false, false); }});
    s.properties.push_back({"optimisation", 30000, 15, [](Case & c) { solve(c, "any", true, 600, false, false); }});
    s.properties.push_back({"proofs", 8000, 15, [](Case & c) { solve(c, "any", c.chance(1, 3), 120, true, false); }});
    s.properties.push_back({"timeouts", 4000, 8, [](Case & c) { solve(c, "any", c.chance(1, 3), 3000, false, true); }});
    s.properties.push_back({"refusals", 20000, 15, damaged});
    return pbt::main(argc, argv, s);
}

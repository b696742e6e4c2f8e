#include <checks/solver/prove.hh>

#include <cstdlib>
#include <fstream>
#include <sstream>

#include <sys/stat.h>
#include <unistd.h>

using namespace gcs;
using std::optional;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;

namespace mdl
{
    auto Writing::text() const -> string
    {
        string r;
        if (! verbose)
            r += " terse";
        if (full)
            r += " full";
        if (! scp)
            r += " no s-expressions";
        if (compact)
            r += " compact";
        if (level != AssertionLevel::Off)
            r += " assertion level " + to_string(static_cast<int>(level));
        return r.empty() ? " default" : r;
    }

    auto random_writing(pbt::Case & c) -> Writing
    {
        Writing w;
        w.verbose = ! c.chance(1, 4);
        w.full = c.chance(1, 8);
        w.compact = c.chance(1, 4);
        w.scp = ! c.chance(1, 8);
        return w;
    }

    namespace
    {
        auto scratch() -> string
        {
            static string dir;
            static pid_t owner = 0;
            if (owner != getpid()) {
                owner = getpid();
                for (auto * base : {"/dev/shm", "/tmp"}) {
                    auto t = string{base} + "/verif-proof-XXXXXX";
                    if (mkdtemp(t.data())) {
                        dir = t;
                        break;
                    }
                }
                static string at_end;
                at_end = dir;
                std::atexit([] { rmdir(at_end.c_str()); });
            }
            mkdir(dir.c_str(), 0700);
            return dir + "/p";
        }

        auto slurp(const string & name) -> string
        {
            std::ifstream f{name, std::ios::binary};
            std::ostringstream s;
            s << f.rdbuf();
            return s.str();
        }

        auto field(const string & line, const string & name) -> optional<string>
        {
            auto at = line.find("\"" + name + "\":");
            if (at == string::npos)
                return std::nullopt;
            at += name.size() + 3;
            if (line[at] == '"') {
                auto e = line.find('"', at + 1);
                return line.substr(at + 1, e - at - 1);
            }
            auto e = line.find_first_of(",}", at);
            return line.substr(at, e - at);
        }

        struct Cleanup
        {
            string prefix;
            ~Cleanup()
            {
                if (auto * keep = std::getenv("VERIF_KEEP_PROOF"))
                    for (auto * e : {".opb", ".pbp", ".scp", ".varmap"})
                        [[maybe_unused]] auto r = std::system(("cp " + prefix + e + " " + keep + e + " 2>/dev/null").c_str());
                for (auto * e : {".opb", ".pbp", ".scp", ".varmap"})
                    unlink((prefix + e).c_str());
                rmdir(prefix.substr(0, prefix.rfind('/')).c_str());
            }
        };
    }

    auto write_proof(const Model &, Posted & p, const Search & s, const Writing & w, optional<size_t> stop_after,
        optional<unsigned long long> stop_nodes) -> Written
    {
        Written r;
        auto prefix = scratch();
        Cleanup cleanup{prefix};
        ProofFileNames names{prefix};
        if (! w.scp)
            names.s_expr_file = std::nullopt;
        ProofOptions options{names};
        options.set_verbose_names(w.verbose).enable_full_encoding(w.full).set_compact_boolean_encoding(w.compact).set_assertion_level(w.level);
        unsigned long long nodes = 0;
        SolveCallbacks cb;
        cb.solution = [&](const CurrentState & st) -> bool {
            Asg a;
            for (auto & v : p.env.base)
                a.push_back(st(v).raw_value);
            r.outcome.solutions.push_back(std::move(a));
            return ! (stop_after && r.outcome.solutions.size() == *stop_after);
        };
        if (stop_nodes)
            cb.trace = [&](const CurrentState &) -> bool { return ++nodes <= *stop_nodes; };
        if (s.make)
            cb.branch = s.make(p.env, p.problem);
        cb.completed = [&] { r.outcome.completed = true; };
        cb.stats_report = silent_stats_report();
        if (s.luby)
            cb.restarts = RestartSchedule::luby(*s.luby);
        r.outcome.stats = solve_with(p.problem, cb, options);
        r.opb = slurp(prefix + ".opb");
        r.pbp = slurp(prefix + ".pbp");
        if (w.scp)
            r.scp = slurp(prefix + ".scp");
        r.varmap = slurp(prefix + ".varmap");
        for (size_t i = 0; i < p.env.base.size(); ++i)
            r.position.emplace(std::get<SimpleIntegerVariableID>(p.env.base[i]).index, i);
        std::istringstream lines{r.varmap};
        string line;
        while (std::getline(lines, line)) {
            if (line.empty() || line.front() != '"')
                continue;
            auto name = line.substr(1, line.find("\":") - 1);
            Meaning m;
            auto type = field(line, "type").value_or(""), id = field(line, "cpvarid").value_or("");
            if (! id.empty()) {
                m.variable = std::atoll(id.c_str());
                m.real = field(line, "cpvartype").value_or("") == "intvar";
            }
            if (type == "intvarbit") {
                m.kind = Meaning::Bit;
                m.value = 1LL << std::atoll(field(line, "power").value_or("0").c_str());
            }
            else if (type == "intvarnegbit") {
                m.kind = Meaning::Bit;
                m.value = std::atoll(field(line, "power").value_or("0").c_str());
            }
            else if (type == "condition") {
                m.value = std::atoll(field(line, "value").value_or("0").c_str());
                auto op = field(line, "operator").value_or("");
                m.kind = op == "=" ? Meaning::Equal : op == ">=" ? Meaning::AtLeast : Meaning::Other;
            }
            r.names.emplace(name, m);
        }
        return r;
    }

    auto check_proof(pbt::Case & c, const Written & w, const string & key, const string & undecided_key, bool keep_events) -> pbp::Result
    {
        pbp::Checker k;
        k.keep_events = keep_events;
        try {
            k.read_opb(w.opb);
            auto r = k.check(w.pbp);
            c.label(r.lines < 100 ? "up to 100 lines" : r.lines < 1000 ? "up to 1000 lines" : "over 1000 lines");
            return r;
        }
        catch (const pbp::Refused & e) {
            c.fail("the proof is refused: " + e.why, undecided_key.empty() || ! e.why.contains("undecided") ? key : undecided_key);
        }
        catch (const pbp::TooLarge &) {
            c.label("numbers too large to check");
            c.discard();
        }
        std::abort();
    }

    auto value_of(const Written & w, std::string_view name, const Asg & a) -> optional<bool>
    {
        bool negated = name.starts_with('~');
        if (negated)
            name.remove_prefix(1);
        auto it = w.names.find(name);
        if (it == w.names.end() || ! it->second.real)
            return std::nullopt;
        auto & m = it->second;
        auto pos = w.position.find(m.variable);
        if (pos == w.position.end())
            return std::nullopt;
        auto v = a.at(pos->second);
        switch (m.kind) {
        case Meaning::Bit:
            return negated ^ (m.value < 0 ? v < 0 : (static_cast<unsigned long long>(v) & static_cast<unsigned long long>(m.value)) != 0);
        case Meaning::Equal: return negated ^ (v == m.value);
        case Meaning::AtLeast: return negated ^ (v >= m.value);
        default: return std::nullopt;
        }
    }

    auto events_of(const Written & w) -> vector<pbp::Event>
    {
        vector<pbp::Event> r;
        std::istringstream lines{w.pbp};
        string line;
        while (std::getline(lines, line)) {
            std::istringstream toks{line};
            string rule, t;
            toks >> rule;
            pbp::Event e;
            if (rule == "solx" || rule == "soli") {
                e.kind = pbp::Event::Solution;
                r.push_back(e);
            }
            else if (rule == "a") {
                e.kind = pbp::Event::Assertion;
                long long k = 0;
                string name;
                while (toks >> t && t != ">=") {
                    k = std::stoll(t);
                    toks >> name;
                    e.terms.emplace_back(k, name);
                }
                if (toks >> k)
                    e.bound = k;
                r.push_back(std::move(e));
            }
        }
        return r;
    }

    auto bits_of(const Written & w, const Posted & p, const pbp::Checker & k, const Asg & a) -> vector<pbp::Lit>
    {
        vector<pbp::Lit> r;
        std::map<long long, long long> value;
        for (size_t i = 0; i < a.size(); ++i)
            value.emplace(std::get<SimpleIntegerVariableID>(p.env.base[i]).index, a[i]);
        for (auto & [n, m] : w.names)
            if (m.kind == Meaning::Bit && m.real && value.contains(m.variable)) {
                auto l = k.find(n);
                if (! l)
                    continue;
                auto v = value.at(m.variable);
                bool on = m.value < 0 ? v < 0 : (static_cast<unsigned long long>(v) & static_cast<unsigned long long>(m.value)) != 0;
                r.push_back(on ? *l : *l ^ 1);
            }
        return r;
    }
}

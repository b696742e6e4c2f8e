// What is written as an s-expression document reads back as the same problem, and a document that is not one is refused.
#include <checks/frontends/mains.hh>
#include <checks/solver/enumerate.hh>
#include <checks/solver/prove.hh>

#include <gcs/exception.hh>
#include <gcs/innards/proofs/proof_error.hh>
#include <gcs/scp_reader.hh>

#include <algorithm>
#include <map>
#include <sstream>

using namespace gcs;
using namespace mdl;
using std::optional;
using std::size_t;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    auto key_of(const Model & m) -> string
    {
        return m.cons.empty() ? string{} : m.cons.front().entry;
    }

    auto has_views(const Model & m) -> bool
    {
        for (auto & k : m.cons)
            for (auto & o : k.scope)
                if (o.var >= 0 && (o.neg || o.off != 0))
                    return true;
        return false;
    }

    auto written_document(pbt::Case & c, const Model & m, Posted & p) -> string
    {
        try {
            return write_proof(m, p, default_search(), Writing{}, std::nullopt, 0).scp;
        }
        catch (const UnimplementedException & e) {
            // conditions on ranges, and knapsacks and bins over anything but plain variables, are not supported in proofs
            auto t = m.text();
            if (t.contains("..") || t.contains("knapsack") || t.contains("bin_packing"))
                c.discard();
            throw;
        }
        catch (const innards::ProofError & e) {
            // a known finding of the proofs, which are not what is looked at here
            if (string{e.what()}.contains("edge-finding wants a simple start variable"))
                c.discard();
            throw;
        }
        catch (const UnexpectedException & e) {
            // these two kinds of reification have a documented lack of a way to be written as s-expressions
            if (string{e.what()}.contains("Unexpected reification type in s_expr"))
                c.discard();
            throw;
        }
    }

    // The names in the order that the variables were created.
    auto names_of(const Problem & p) -> vector<string>
    {
        vector<string> r;
        for (const auto & [id, lo, hi, name] : p.each_variable_with_bounds_and_name())
            r.push_back(name);
        return r;
    }

    auto round_trip(pbt::Case & c, Model & m) -> void
    {
        c.note() << m.text();
        Posted p;
        post(m, p, c.chance(1, 3));
        auto key = key_of(m);
        auto document = written_document(c, m, p);
        Posted q;
        ScpModel r;
        try {
            r = read_scp(q.problem, document);
        }
        catch (const ScpUnsupportedConstraintError & e) {
            c.fail("a constraint that can be written cannot be read: " + string{e.what()}, key);
        }
        catch (const MessageException & e) {
            // documented: views do not read back, nor automata that are not deterministic
            if (has_views(m))
                c.label("refused, having views");
            else if (string{e.what()}.contains("deterministic"))
                c.label("refused, being nondeterministic");
            else
                c.fail("a document that was written cannot be read: " + string{e.what()}, key);
            return;
        }
        c.label(has_views(m) ? "read, having views" : "read");
        auto names = names_of(p.problem);
        if (names_of(q.problem) != names)
            c.fail("the variables do not have the same names, or are not in the same order", key);
        if (r.variables.size() != names.size())
            c.fail("not every variable was given back", key);
        for (auto & n : names) {
            auto it = r.variables.find(n);
            if (it == r.variables.end())
                c.fail("the variable " + n + " was not given back", key);
            q.env.base.push_back(it->second);
        }
        auto expected = m.brute_force();
        if (! expected.empty() && static_cast<double>(expected.size()) < m.product())
            c.nontrivial();
        if (m.objective.has_value() != r.minimise_variable.has_value())
            c.fail(m.objective ? "the objective was lost" : "an objective appeared", key);
        // the objective is not posted, so every solution is wanted
        auto objective = m.objective;
        m.objective.reset();
        vector<LL> values;
        if (q.problem.optional_minimise_variable())
            c.fail("reading posted the objective", key);
        Outcome o;
        {
            SolveCallbacks cb;
            cb.solution = [&](const CurrentState & st) -> bool {
                Asg a;
                for (auto & v : q.env.base)
                    a.push_back(st(v).raw_value);
                if (r.minimise_variable)
                    values.push_back(st(*r.minimise_variable).raw_value);
                o.solutions.push_back(std::move(a));
                return true;
            };
            cb.completed = [&] { o.completed = true; };
            cb.stats_report = silent_stats_report();
            o.stats = solve_with(q.problem, cb);
        }
        m.objective = objective;
        if (m.objective)
            for (size_t i = 0; i < values.size(); ++i)
                // what is added to the objective is not written, as it makes no difference to which solution is best
                if (auto want = (m.objective->eval(o.solutions[i]) - m.objective->off) * (m.maximise ? -1 : 1); want != values[i])
                    c.fail("the objective read back is " + to_string(values[i]) + " for " + show(o.solutions[i]) + ", not " + to_string(want), key);
        expect_enumeration(c, m, expected, o, "after being written and read");
        if (r.minimise_variable)
            q.problem.minimise(*r.minimise_variable);
        auto again = written_document(c, m, q);
        if (again != document)
            c.fail("written again after being read, it is\n" + again + "and not\n" + document, key);
    }

    // The program that solves documents prints what the document's problem has as solutions.
    auto program(pbt::Case & c, Model & m) -> void
    {
        c.note() << m.text();
        if (has_views(m))
            c.discard();
        Posted p;
        post(m, p, c.chance(1, 3));
        auto key = key_of(m);
        auto document = written_document(c, m, p);
        auto names = names_of(p.problem);
        fe::Scratch scratch;
        fe::spit(scratch.file("m.scp"), document);
        bool all = c.chance(2, 3), prove = c.chance(1, 4), stats = c.chance(1, 4);
        vector<string> args;
        if (all)
            args.push_back("--all");
        if (stats)
            args.push_back("--stats");
        if (prove)
            args.insert(args.end(), {"--prove", "--proof-files-basename", scratch.file("p")});
        args.insert(args.begin() + static_cast<long>(c.chance(1, 2) ? args.size() : 0), scratch.file("m.scp"));
        c.note() << "\n" << (all ? " --all" : "") << (stats ? " --stats" : "") << (prove ? " --prove" : "");
        if (c.chance(1, 8)) {
            args.push_back("--parse-only");
            auto ran = fe::run_scp(args);
            if (ran.status != 0 && ! ran.err.contains("deterministic"))
                c.fail("only parsing it fails: " + ran.err, key);
            if (! ran.out.empty())
                c.fail("only parsing it prints " + ran.out, key);
            c.label("only parsed");
            return;
        }
        auto ran = fe::run_scp(args);
        if (ran.status != 0) {
            if (ran.err.contains("deterministic"))
                c.discard(); // documented
            c.fail("the program fails: " + ran.err, key);
        }
        vector<Asg> got;
        std::istringstream lines{ran.out};
        string line;
        while (std::getline(lines, line)) {
            if (! line.contains('='))
                break;
            std::map<string, LL> values;
            std::istringstream toks{line};
            string t;
            while (toks >> t) {
                auto eq = t.rfind('=');
                if (! values.emplace(t.substr(0, eq), std::stoll(t.substr(eq + 1))).second)
                    c.fail("a variable is printed twice: " + line, key);
            }
            Asg a;
            for (auto & n : names) {
                if (! values.contains(n))
                    c.fail("a variable is not printed: " + line, key);
                a.push_back(values.at(n));
            }
            if (values.size() != names.size())
                c.fail("there is something else that is printed: " + line, key);
            got.push_back(std::move(a));
        }
        auto expected = m.brute_force();
        if (! expected.empty() && static_cast<double>(expected.size()) < m.product())
            c.nontrivial();
        auto sorted = got;
        std::sort(sorted.begin(), sorted.end());
        std::sort(expected.begin(), expected.end());
        if (std::adjacent_find(sorted.begin(), sorted.end()) != sorted.end())
            c.fail("a solution is printed twice:\n" + ran.out, key);
        if (! std::includes(expected.begin(), expected.end(), sorted.begin(), sorted.end()))
            c.fail("something is printed that is not a solution:\n" + ran.out, key);
        if (m.objective) {
            auto worth = [&](const Asg & a) { return m.objective->eval(a) * (m.maximise ? -1 : 1); };
            for (size_t i = 1; i < got.size(); ++i)
                if (worth(got[i]) >= worth(got[i - 1]))
                    c.fail("a solution is no better than the one before:\n" + ran.out, key);
            if (got.empty() != expected.empty())
                c.fail(got.empty() ? "no solution is printed" : "there is no solution", key);
            for (auto & e : expected)
                if (worth(e) < worth(got.back()))
                    c.fail("the last solution is not the best:\n" + ran.out, key);
        }
        else if (all && sorted != expected)
            c.fail("of " + to_string(expected.size()) + " solutions, these are printed:\n" + ran.out, key);
        else if (! all && got.size() != (expected.empty() ? 0 : 1))
            c.fail("one solution was asked for:\n" + ran.out, key);
        if (stats != ran.out.contains("recursions"))
            c.fail(stats ? "there are no statistics" : "statistics were not asked for", key);
        if (prove) {
            if (fe::slurp(scratch.file("p.scp")).empty() || fe::slurp(scratch.file("p.opb")).empty() || ! fe::slurp(scratch.file("p.pbp")).contains("conclusion"))
                c.fail("the proof was not written", key);
        }
    }

    auto tokens(const string & s) -> vector<string>
    {
        vector<string> r;
        for (size_t i = 0; i < s.size();) {
            if (s[i] == '(' || s[i] == ')')
                r.emplace_back(1, s[i++]);
            else if (std::isspace(static_cast<unsigned char>(s[i])))
                ++i;
            else {
                auto e = s.find_first_of("() \n\t", i);
                r.push_back(s.substr(i, e - i));
                i = e == string::npos ? s.size() : e;
            }
        }
        return r;
    }

    // a term that starts at a token
    auto term_end(const vector<string> & t, size_t at) -> size_t
    {
        if (t[at] != "(")
            return at + 1;
        int depth = 0;
        for (auto i = at; i < t.size(); ++i) {
            if (t[i] == "(")
                ++depth;
            else if (t[i] == ")" && --depth == 0)
                return i + 1;
        }
        return t.size();
    }

    auto damaged(pbt::Case & c, Model & m) -> void
    {
        Posted p;
        post(m, p, c.chance(1, 3));
        auto document = written_document(c, m, p);
        auto t = tokens(document);
        for (auto n = 1 + c.draw(3); n > 0 && ! t.empty(); --n) {
            auto at = c.draw(t.size() - 1);
            auto end = term_end(t, at);
            if (t[at] == ")")
                end = at + 1;
            vector<string> term(t.begin() + static_cast<long>(at), t.begin() + static_cast<long>(end));
            switch (c.weighted({4, 4, 3, 2, 2, 2, 1})) {
            case 0: // remove a term
                t.erase(t.begin() + static_cast<long>(at), t.begin() + static_cast<long>(end));
                break;
            case 1: { // another atom instead
                static const vector<string> atoms{"0", "1", "-1", "2", "-7", "100", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "*", "X", "_1",
                    "_2", "=", "!=", "<", ">=", "in", "notin", "<=", ">", "loads", "capacities", "minimize", "maximize", "decide", "()", "(1 >= 1)", "(v0 = 1)", "1x", "-", "+1"};
                vector<string> with{c.pick(atoms)};
                if (c.chance(1, 3))
                    with = {t[c.draw(t.size() - 1)]};
                t.erase(t.begin() + static_cast<long>(at), t.begin() + static_cast<long>(end));
                t.insert(t.begin() + static_cast<long>(at), with.begin(), with.end());
                break;
            }
            case 2: // twice
                t.insert(t.begin() + static_cast<long>(at), term.begin(), term.end());
                break;
            case 3: { // one term in the place of another
                auto other = c.draw(t.size() - 1);
                auto other_end = t[other] == ")" ? other + 1 : term_end(t, other);
                vector<string> with(t.begin() + static_cast<long>(other), t.begin() + static_cast<long>(other_end));
                t.erase(t.begin() + static_cast<long>(at), t.begin() + static_cast<long>(end));
                t.insert(t.begin() + static_cast<long>(at), with.begin(), with.end());
                break;
            }
            case 4: // within a list of its own
                t.insert(t.begin() + static_cast<long>(end), ")");
                t.insert(t.begin() + static_cast<long>(at), "(");
                break;
            case 5: { // another constraint's name
                static const vector<string> ops{"abs", "all_different", "all_equal", "circuit", "array_min", "boundsglobalcardinality", "gacglobalcardinalityclosed",
                    "increasing", "strictly_decreasing", "sort", "arg_sort", "in", "element", "element_2d", "count", "nvalue", "inverse", "and", "or", "parity", "plus",
                    "minus", "multiply", "divide", "modulus", "power", "less_than", "less_equal_if", "greater_than_iff", "lex_less_than", "lex_greater_equal_iff", "lin_equals",
                    "lin_not_equals_iff", "lin_less_equal_if", "equals", "not_equals_if", "regular", "table", "negative_table", "smart_table", "all_different_except",
                    "symmetric_all_different", "at_most_one", "among", "value_precede", "seq_precede_chain", "difference", "binpacking", "mdd", "min_distance", "nogoods",
                    "knapsack", "cumulative", "disjunctive", "disjunctive_2d", "nonsense"};
                t[at] = c.pick(ops);
                break;
            }
            default: // cut short
                t.resize(at);
            }
        }
        string text;
        for (auto & x : t)
            text += x + " ";
        c.note() << text;
        if (text.size() > 200000)
            c.discard();
        optional<int> status;
        if (c.chance(1, 8)) {
            // the program says by its exit status which of these it is
            fe::Scratch scratch;
            fe::spit(scratch.file("m.scp"), text);
            auto ran = fe::run_scp({"--parse-only", scratch.file("m.scp")});
            status = ran.status;
            if (ran.status != 0 && (! ran.out.empty() || ran.err.empty()))
                c.fail("the program fails without saying so, or says something else");
            c.label("exit status " + to_string(ran.status));
        }
        auto is = [&](int s) {
            if (status && *status != s)
                c.fail("the exit status is " + to_string(*status) + " and not " + to_string(s));
        };
        Problem q;
        try {
            auto r = read_scp(q, text);
            c.label("read");
            is(0);
            // then nothing was dropped: as many variables and constraints as are in the document
            size_t variables = 0, constraints = 0;
            for ([[maybe_unused]] const auto & v : q.each_variable_with_bounds_and_name())
                ++variables;
            for ([[maybe_unused]] const auto & k : q.each_constraint())
                ++constraints;
            auto u = tokens(text);
            vector<size_t> inside;
            size_t at = 1;
            for (int section = 0; section < 4; ++section) {
                auto end = term_end(u, at);
                size_t n = 0;
                for (auto i = at + 2; i + 1 < end; i = term_end(u, i))
                    ++n;
                inside.push_back(n);
                at = end;
            }
            if (variables != inside.at(1) || r.variables.size() != variables)
                c.fail(to_string(inside.at(1)) + " variables in the document, but " + to_string(variables) + " were created");
            if (constraints != inside.at(2))
                c.fail(to_string(inside.at(2)) + " constraints in the document, but " + to_string(constraints) + " were posted");
        }
        catch (const ScpUnsupportedConstraintError &) {
            c.label("refused, as a constraint is not known");
            c.nontrivial();
            is(2);
        }
        catch (const MessageException &) {
            c.label("refused");
            c.nontrivial();
            is(1);
        }
    }
}

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C20";
    s.rule = "for documents that are read back, at least one assignment is a solution and at least one is not; for damaged ones, they are refused";
    auto style = [](pbt::Case & c) {
        auto s = random_style(c);
        s.budget = c.chance(1, 3) ? 300 : 60;
        if (! c.chance(1, 6))
            s.views = 0;
        return s;
    };
    for (auto & e : all_entries())
        s.properties.push_back({e.first, 1000, 12, [e, style](pbt::Case & c) {
                                    Model m;
                                    Gen g{c, m, style(c)};
                                    m.cons.push_back(generate(g, e));
                                    if (m.doms.empty())
                                        g.new_var({0, 1});
                                    round_trip(c, m);
                                }});
    auto any = [all = all_entries(), style](pbt::Case & c, Model & m) {
        mixed_model(c, m, all, all, 2, 3, 100);
        if (m.doms.empty()) {
            Gen g{c, m, Style{}};
            g.new_var({0, 1});
        }
    };
    s.properties.push_back({"objectives", 4000, 12, [any](pbt::Case & c) {
                                Model m;
                                any(c, m);
                                m.objective = Op{static_cast<int>(c.draw(m.doms.size() - 1)), c.chance(1, 3), c.chance(1, 6) ? c.around_zero(-5, 5) : 0};
                                m.maximise = c.chance(1, 2);
                                round_trip(c, m);
                            }});
    s.properties.push_back({"conjunctions", 4000, 12, [any](pbt::Case & c) {
                                Model m;
                                any(c, m);
                                round_trip(c, m);
                            }});
    s.properties.push_back({"program", 25000, 12, [any, all = all_entries(), style](pbt::Case & c) {
                                Model m;
                                if (c.chance(1, 2))
                                    any(c, m);
                                else {
                                    Gen g{c, m, style(c)};
                                    m.cons.push_back(generate(g, c.pick(all)));
                                    if (m.doms.empty())
                                        g.new_var({0, 1});
                                }
                                if (c.chance(1, 3)) {
                                    m.objective = Op{static_cast<int>(c.draw(m.doms.size() - 1)), c.chance(1, 3), 0};
                                    m.maximise = c.chance(1, 2);
                                }
                                program(c, m);
                            }});
    s.properties.push_back({"damaged", 60000, 12, [all = all_entries(), style](pbt::Case & c) {
                                Model m;
                                Gen g{c, m, style(c)};
                                m.cons.push_back(generate(g, c.pick(all)));
                                if (c.chance(1, 4))
                                    m.cons.push_back(generate(g, c.pick(all)));
                                if (m.doms.empty())
                                    g.new_var({0, 1});
                                if (c.chance(1, 4))
                                    m.objective = Op{static_cast<int>(c.draw(m.doms.size() - 1)), c.chance(1, 2), 0};
                                damaged(c, m);
                            }});
    return pbt::main(argc, argv, s);
}

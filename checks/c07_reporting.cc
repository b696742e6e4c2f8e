// Restart schedules and statistics reporting.
#include "engine/pbt.hh"

#include <gcs/constraints/cumulative/derived_cumulative_stats.hh>
#include <gcs/constraints/difference/difference_simplify.hh>
#include <gcs/restarts.hh>
#include <gcs/stats.hh>

#include <algorithm>
#include <format>
#include <iostream>
#include <list>
#include <map>
#include <sstream>

using namespace gcs;
using pbt::Case;
using std::string;
using std::to_string;
using std::vector;

namespace
{
    // The Luby sequence, by its block structure: S(k) = S(k-1) S(k-1) 2^k.
    auto luby_sequence(std::size_t atleast) -> const vector<unsigned long long> &
    {
        static vector<unsigned long long> s{1};
        for (unsigned long long top = 2 * s.back(); s.size() < atleast; top *= 2) {
            auto n = s.size();
            s.reserve(2 * n + 1);
            for (std::size_t i = 0; i < n; ++i)
                s.push_back(s[i]);
            s.push_back(top);
        }
        return s;
    }

    auto restarts(Case & c) -> void
    {
        auto scale = c.weighted({1, 3, 2}) == 0 ? 100ULL : c.chance(1, 2) ? 1 + c.draw(1000) : c.draw(1ULL << 40);
        auto & want = luby_sequence(40000);
        struct One
        {
            RestartSchedule s;
            std::size_t at;
        };
        bool use_default = scale == 100 && c.chance(1, 2);
        vector<One> all{{use_default ? RestartSchedule::luby() : RestartSchedule::luby(scale), 0}};
        auto steps = 1 + c.draw(12);
        c.note() << "scale " << scale << ":";
        for (unsigned i = 0; i < steps; ++i) {
            auto which = c.draw(all.size() - 1);
            if (c.chance(1, 5) && all.size() < 4) {
                c.note() << " copy" << which;
                all.push_back(all[which]);
                c.label("copied");
            }
            else {
                auto k = c.weighted({4, 3, 1}) == 0 ? 1 : c.chance(1, 8) ? c.draw(4000) : c.draw(70);
                // jump to just before the end of a block, where the sequence is most interesting
                if (c.chance(1, 4)) {
                    auto b = 1ULL << (1 + c.draw(11));
                    auto target = b - 1 > all[which].at + 1 ? b - 2 - all[which].at : 1;
                    k = target;
                }
                for (unsigned j = 0; j < k && all[which].at + 1 < 30000; ++j) {
                    auto & o = all[which];
                    c.expect(o.s.current_cutoff() == want[o.at] * scale,
                        "cutoff " + to_string(o.at + 1) + " is " + to_string(o.s.current_cutoff()) + " rather than " + to_string(want[o.at] * scale));
                    o.s.advance();
                    ++o.at;
                }
                c.note() << " " << which << "+" << k;
            }
            for (auto & o : all) {
                c.expect(o.s.current_cutoff() == want[o.at] * scale,
                    "cutoff " + to_string(o.at + 1) + " is " + to_string(o.s.current_cutoff()) + " rather than " + to_string(want[o.at] * scale));
                c.expect(o.s.current_cutoff() == want[o.at] * scale, "asking for a cutoff changed it");
                if (o.at > 62)
                    c.nontrivial();
            }
        }
    }

    struct Component final : ComponentStats
    {
        string name, sum;
        [[nodiscard]] auto component_name() const -> string override
        {
            return name;
        }
        [[nodiscard]] auto summary() const -> string override
        {
            return sum;
        }
        [[nodiscard]] auto entries() const -> vector<StatsEntry> override
        {
            return {};
        }
    };

    struct CerrCapture
    {
        std::ostringstream to;
        std::streambuf * old;
        CerrCapture() : old(std::cerr.rdbuf(to.rdbuf()))
        {
        }
        ~CerrCapture()
        {
            std::cerr.rdbuf(old);
        }
    };

    auto id_text(const ConstraintID & id) -> string
    {
        if (std::holds_alternative<CurrentlyUnnamedConstraint>(id))
            return "unnamed";
        if (auto n = std::get_if<NumberedConstraint>(&id))
            return "_" + to_string(n->number);
        return string{std::get<NamedConstraint>(id).name};
    }

    auto expected_line(const StatsNote & n) -> string
    {
        return (n.level == StatsLevel::Important || n.component.empty() ? "" : n.component + ": ") + n.text +
            (n.constraint ? " (" + id_text(*n.constraint) + ")" : "");
    }

    auto same(const StatsNote & a, const StatsNote & b) -> bool
    {
        return a.level == b.level && a.component == b.component && a.constraint == b.constraint && a.text == b.text;
    }

    auto reporting(Case & c) -> void
    {
        static const vector<string> words{"", "a", "ab", "long note, with (brackets)", "auto_table", "x: y", "100%", "{}"};
        static const vector<StatsLevel> levels{StatsLevel::General, StatsLevel::Important, StatsLevel::Detailed, StatsLevel::Debug};
        Stats stats;
        vector<StatsNote> notes, heard, cerr_expected;
        vector<std::shared_ptr<const ComponentStats>> comps;
        vector<std::shared_ptr<Component>> pool;
        int handler = 0; // 0 none, 1 recording, 2 the default, 3 silent
        StatsLevel threshold = StatsLevel::Important;
        string expected_cerr;
        CerrCapture capture;
        auto steps = 1 + c.draw(14);
        bool during_ok = true;
        for (unsigned i = 0; i < steps; ++i) {
            switch (c.weighted({6, 3, 2})) {
            case 0: {
                StatsNote n{c.pick(levels), c.pick(words), std::nullopt, c.pick(words)};
                switch (c.draw(3)) {
                case 1: n.constraint = NumberedConstraint{c.draw(30)}; break;
                case 2: n.constraint = NamedConstraint{words[c.draw(words.size() - 1)]}; break;
                case 3: n.constraint = CurrentlyUnnamedConstraint{}; break;
                default: break;
                }
                c.note() << "note(" << static_cast<int>(n.level) << "," << expected_line(n) << ") ";
                c.expect(render(n) == expected_line(n), "a note is rendered '" + render(n) + "' rather than '" + expected_line(n) + "'");
                auto before = heard.size();
                stats.report(n);
                notes.push_back(n);
                if (handler == 1) {
                    c.expect(heard.size() == before + 1 && same(heard.back(), n), "the handler was not given the note at once, and just once");
                    c.nontrivial();
                }
                else
                    c.expect(heard.size() == before, "a handler that is not installed was called");
                if (handler == 2 && n.level >= threshold)
                    expected_cerr += expected_line(n) + "\n";
                break;
            }
            case 1: {
                if (pool.empty() || c.chance(1, 2)) {
                    auto p = std::make_shared<Component>();
                    p->name = c.pick(words);
                    p->sum = c.pick(words);
                    pool.push_back(p);
                }
                if (c.chance(1, 6)) {
                    c.note() << "add(null) ";
                    stats.add_component(nullptr);
                    break;
                }
                auto p = c.pick(pool);
                c.note() << "add(" << p->name << ") ";
                stats.add_component(p);
                if (std::find(comps.begin(), comps.end(), p) == comps.end())
                    comps.push_back(p);
                else
                    c.label("registered twice");
                if (c.chance(1, 3))
                    p->sum = c.pick(words); // the numbers arrive later
                break;
            }
            default: {
                handler = static_cast<int>(c.draw(3));
                c.note() << "handler" << handler << " ";
                if (handler == 0)
                    stats.set_report_handler(nullptr);
                else if (handler == 1)
                    stats.set_report_handler([&](const StatsNote & n) { heard.push_back(n); });
                else if (handler == 2) {
                    if (c.chance(1, 2)) {
                        threshold = StatsLevel::Important;
                        stats.set_report_handler(default_stats_report());
                    }
                    else {
                        threshold = c.pick(levels);
                        stats.set_report_handler(default_stats_report(threshold));
                    }
                }
                else
                    stats.set_report_handler(silent_stats_report());
            }
            }
            c.expect(during_ok, "");
            c.expect(stats.notes().size() == notes.size(), "the wrong number of notes were kept");
            for (std::size_t j = 0; j < notes.size(); ++j)
                c.expect(same(stats.notes()[j], notes[j]), "the notes kept are not those reported, in order");
            c.expect(stats.components() == comps, "the registered components are not those added, in order, once each");
            c.expect(capture.to.str() == expected_cerr, "standard error holds '" + capture.to.str() + "' rather than '" + expected_cerr + "'");
        }

        auto num = [&]() { return c.chance(1, 4) ? 0ULL : c.chance(1, 4) ? static_cast<unsigned long long>(c.any_long()) : c.draw(100000); };
        stats.n_propagators = num();
        stats.idempotence_downgrades = num();
        stats.recursions = num();
        stats.failures = num();
        stats.propagations = num();
        stats.effectful_propagations = num();
        stats.contradicting_propagations = num();
        stats.max_depth = num();
        stats.restarts = num();
        stats.learned_nogoods = num();
        stats.solutions = num();
        stats.solve_time = std::chrono::microseconds{c.chance(1, 2) ? c.draw(100) : c.draw(10'000'000'000ULL)};
        std::ostringstream out;
        out << stats;
        auto text = out.str();
        c.expect(text.empty() || text.back() == '\n', "the report does not end its last line");
        vector<string> want;
        auto line = [&](const string & k, unsigned long long v) { want.push_back(k + to_string(v)); };
        line("propagators: ", stats.n_propagators);
        if (stats.idempotence_downgrades)
            line("idempotence downgrades: ", stats.idempotence_downgrades);
        line("recursions: ", stats.recursions);
        line("failures: ", stats.failures);
        want.push_back("propagations: " + to_string(stats.propagations) + " " + to_string(stats.effectful_propagations) + " " +
            to_string(stats.contradicting_propagations));
        line("max depth:  ", stats.max_depth);
        line("restarts: ", stats.restarts);
        line("learned nogoods: ", stats.learned_nogoods);
        line("solutions: ", stats.solutions);
        std::ostringstream t;
        t << static_cast<double>(stats.solve_time.count()) / 1'000'000.0;
        want.push_back("solve time: " + t.str() + "s");
        for (auto & k : comps)
            want.push_back(k->component_name() + ": " + k->summary());
        for (auto & n : notes)
            if (n.level == StatsLevel::General || n.level == StatsLevel::Important)
                want.push_back(expected_line(n));
        string all;
        for (auto & w : want)
            all += w + "\n";
        c.expect(text == all, "the report reads\n" + text + "rather than\n" + all);
        c.expect(std::format("{}", stats) == text, "a formatted report differs from a streamed one");
        // a copy is the same record, and further reports do not reach it
        auto copy = stats;
        stats.set_report_handler(nullptr);
        stats.report(StatsNote{StatsLevel::General, "later", std::nullopt, "later"});
        c.expect(copy.notes().size() == notes.size(), "a copy of the statistics shares its notes");
    }

    auto blocks(Case & c) -> void
    {
        auto num = [&]() { return static_cast<std::size_t>(c.draw(1'000'000)); };
        {
            DerivedCumulativeStats d;
            vector<std::pair<string, std::size_t>> fields;
            auto set = [&](const char * n, std::size_t & f) {
                f = num();
                fields.emplace_back(n, f);
            };
            set("constraints", d.constraints);
            set("donors", d.donors);
            set("capacity_rows", d.capacity_rows);
            set("makespan_bounds_posted", d.makespan_bounds_posted);
            vector<StatsEntry> entries;
            auto pre = c.draw(3);
            for (unsigned i = 0; i < pre; ++i)
                entries.push_back(StatsEntry{"before" + to_string(i), static_cast<long long>(i)});
            auto prefix = c.pick(vector<string>{"", "derived_", "d.", "x"});
            d.add_entries_to(entries, prefix);
            c.expect(entries.size() == pre + fields.size(), "derived: the wrong number of entries");
            for (unsigned i = 0; i < pre; ++i)
                c.expect(entries[i].name == "before" + to_string(i) && entries[i].value == static_cast<long long>(i), "derived: an earlier entry changed");
            for (auto & [n, v] : fields)
                c.expect(std::count_if(entries.begin(), entries.end(),
                             [&, &n = n, &v = v](auto & e) { return e.name == prefix + n && e.value == static_cast<long long>(v); }) == 1,
                    "derived: no entry " + prefix + n + " = " + to_string(v));
        }
        {
            DifferenceSimplificationStats d;
            vector<std::pair<string, long long>> fields;
            auto set = [&](const char * n, std::size_t & f) {
                f = num();
                fields.emplace_back(n, static_cast<long long>(f));
            };
            d.ran = c.chance(3, 4);
            d.base_negative_cycle = c.chance(1, 4);
            fields.emplace_back("ran", d.ran);
            fields.emplace_back("base_negative_cycle", d.base_negative_cycle);
            set("rounds", d.rounds);
            set("nodes", d.nodes);
            set("edges", d.edges);
            set("conditional_edges", d.conditional_edges);
            set("redundant_edges_removed", d.redundant_edges_removed);
            set("redundant_conditional_edges_removed", d.redundant_conditional_edges_removed);
            set("dead_edges_removed", d.dead_edges_removed);
            set("conditions_fixed", d.conditions_fixed);
            set("isolated_nodes_removed", d.isolated_nodes_removed);
            set("zero_weight_cycles", d.zero_weight_cycles);
            set("nodes_on_zero_weight_cycles", d.nodes_on_zero_weight_cycles);
            auto ms = c.draw(100000);
            d.seconds = (static_cast<double>(ms) + 0.5) / 1000.0;
            fields.emplace_back("milliseconds", static_cast<long long>(ms));
            auto entries = d.entries();
            c.expect(entries.size() == fields.size(), "simplification: the wrong number of entries");
            for (auto & [n, v] : fields)
                c.expect(std::count_if(entries.begin(), entries.end(), [&, &n = n, &v = v](auto & e) { return e.name == n && e.value == v; }) == 1,
                    "simplification: no entry " + n + " = " + to_string(v));
            auto want = ! d.ran ? string{"did not run"}
                : d.base_negative_cycle
                ? string{"stopped on a negative cycle in the base graph, leaving the refutation to the propagator"}
                : "removed " + to_string(d.redundant_edges_removed) + " redundant and " + to_string(d.dead_edges_removed) + " dead edges, fixed " +
                    to_string(d.conditions_fixed) + " conditions, over " + to_string(d.rounds) + " rounds of " + to_string(d.nodes) + " nodes and " +
                    to_string(d.edges) + " edges";
            c.expect(d.summary() == want, "simplification: the summary reads '" + d.summary() + "' rather than '" + want + "'");
            c.expect(d.component_name() == "difference_logic_simplify", "simplification: the component's name");
        }
        c.nontrivial();
    }
}

int main(int argc, char ** argv)
{
    return pbt::main(argc, argv,
        pbt::Suite{.id = "C07",
            .rule = "Restart schedules are advanced, copied and advanced independently, and every cutoff passed is compared with the block definition of the "
                    "Luby sequence; statistics go through histories of notes, component registrations and handler changes against a model of what should be "
                    "kept, forwarded and written. A schedule case is non-trivial past position 62; a reporting one when a note reached a recording handler.",
            .properties = {{"restarts", 60000, 12, [](Case & c) { restarts(c); }}, {"reporting", 500000, 12, [](Case & c) { reporting(c); }},
                {"blocks", 200000, 12, [](Case & c) { blocks(c); }}},
            .assumptions = {"schedules are followed for at most 30000 restarts"}});
}

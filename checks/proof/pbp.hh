// A checker for the pseudo-Boolean proofs that the solver writes: the part of
// the VeriPB 3.0 format that it uses, with explicit reasons for every refusal.
#ifndef VERIF_CHECKS_PROOF_PBP_HH
#define VERIF_CHECKS_PROOF_PBP_HH

#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pbp
{
    using Big = __int128;
    using Lit = std::int32_t; // variable * 2 + (1 if negated)

    struct Term
    {
        Big coeff;
        Lit lit;
    };

    // Normalised: one term per variable, ordered by variable, positive coefficients. The degree can be negative, in which case
    // it always holds, but is still of use in a sum.
    struct Inequality
    {
        std::vector<Term> terms;
        Big degree = 0;

        auto operator==(const Inequality &) const -> bool;
    };

    // Why a proof was refused.
    struct Refused
    {
        std::string why;
    };

    // Numbers became too large for this checker; nothing is decided.
    struct TooLarge
    {
    };

    struct Conclusion
    {
        std::string kind; // UNSAT, SAT, ENUMERATION_COMPLETE, BOUNDS, NONE
        std::optional<Big> lower, upper;
        long long count = 0;
    };

    // A line that was taken on trust, or a solution, in the order they were in the proof.
    struct Event
    {
        enum Kind
        {
            Assertion,
            Solution
        } kind;
        std::vector<std::pair<Big, std::string>> terms; // literals by name, ~ for negated
        Big bound = 0;
    };

    struct Result
    {
        Conclusion conclusion;
        long long solutions = 0; // logged
        std::optional<Big> best; // objective value of the best of them
        std::size_t lines = 0, rup = 0, hinted = 0, pol = 0, red = 0, assertions = 0, deletions = 0, subproofs = 0, ia = 0;
        std::vector<Event> events;
    };

    class Checker
    {
    public:
        auto read_opb(const std::string & text) -> void;
        auto check(const std::string & proof) -> Result;

        // For asking questions of the formula alone, after read_opb.
        // Assigns the given literals, and says whether the formula can still be satisfied; counts the decisions it needed.
        auto satisfiable(const std::vector<Lit> & lits, std::size_t & decisions) -> bool;
        [[nodiscard]] auto find(std::string_view name) const -> std::optional<Lit>; // possibly with a leading ~
        [[nodiscard]] auto name_of(Lit l) const -> std::string;
        [[nodiscard]] auto objective() const -> const std::optional<std::vector<std::pair<Big, Lit>>> &
        {
            return _objective;
        }
        [[nodiscard]] auto preserved() const -> const std::vector<int> &
        {
            return _preserved_list;
        }
        [[nodiscard]] auto has_preserved() const -> bool
        {
            return _has_preserved;
        }
        [[nodiscard]] auto formula_size() const -> std::size_t
        {
            return _formula;
        }
        [[nodiscard]] auto variables() const -> std::size_t
        {
            return _names.size();
        }

        bool keep_events = false;

    private:
        struct Con
        {
            Inequality ineq;
            Big slack = 0, largest = 0;
            bool alive = true, queued = false, reason = false;
        };

        std::deque<std::string> _names;
        std::unordered_map<std::string_view, int> _ids;
        std::vector<std::vector<std::pair<int, Big>>> _occ; // by literal
        std::vector<signed char> _value;                     // by literal: 1 true, -1 false, 0 unassigned
        std::vector<Con> _cons;                              // by id; 0 unused
        std::map<std::string, int, std::less<>> _labels;
        std::optional<std::vector<std::pair<Big, Lit>>> _objective;
        std::vector<bool> _preserved;
        std::vector<int> _preserved_list;
        bool _has_preserved = false;
        std::size_t _formula = 0;
        std::vector<Lit> _trail;
        std::vector<int> _pending;
        bool _root_conflict = false;
        std::string _line;

        [[noreturn]] auto refuse(const std::string & why) const -> void;
        auto literal(std::string_view name, bool create) -> Lit;
        [[nodiscard]] auto normalise(std::vector<std::pair<Big, Lit>> terms, Big bound) const -> Inequality;
        auto add(Inequality i) -> int; // gives it the next id
        [[nodiscard]] auto text(const Inequality & i) const -> std::string;
        auto insert(int id) -> void;
        auto erase(int id) -> void;
        auto rebuild_root() -> void;
        auto assign(Lit l) -> void;
        auto propagate(bool at_root) -> bool; // false: conflict
        auto undo_to(std::size_t n) -> void;
        auto skip_id() -> void;
        auto rup(const Inequality & i) -> bool;
        auto rup_hinted(const Inequality & i, const std::vector<int> & hints) -> bool;
        auto solve_rest(std::size_t & decisions) -> bool;
        [[nodiscard]] auto reference(std::string_view tok) const -> int;
        auto parse_inequality(const std::vector<std::string_view> & toks, std::size_t & at, bool create) -> Inequality;
        auto do_pol(const std::vector<std::string_view> & toks) -> Inequality;
        auto goal_follows(const Inequality & goal, const Inequality & negated) -> bool;
        auto delete_id(int id) -> void;

        Event _last; // the inequality most recently parsed, as written
    };

    // Does the first follow from the second alone, by weakening and saturation?
    auto implied_by(const Inequality & wanted, const Inequality & given) -> bool;
    auto negate(const Inequality & i) -> Inequality;
}

#endif

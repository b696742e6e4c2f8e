// Randomly generated constraint models with a brute-force reference meaning,
// and a harness that solves them with the code under test.
#ifndef VERIF_CHECKS_SOLVER_MODEL_HH
#define VERIF_CHECKS_SOLVER_MODEL_HH

#include <engine/pbt.hh>

#include <gcs/gcs.hh>

#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace mdl
{
    using LL = long long;
    using Asg = std::vector<LL>;
    using Dom = std::vector<LL>; // sorted, distinct, nonempty

    inline auto I(LL v) -> gcs::Integer
    {
        return gcs::Integer{v};
    }

    struct Env
    {
        std::vector<gcs::IntegerVariableID> base;
    };

    // A variable as the user writes it: a base variable, a view of one, or a constant.
    struct Op
    {
        int var = -1;
        bool neg = false;
        LL off = 0;

        [[nodiscard]] auto eval(const Asg & a) const -> LL
        {
            return var < 0 ? off : (neg ? -a[var] : a[var]) + off;
        }
        [[nodiscard]] auto id(const Env & e) const -> gcs::IntegerVariableID;
        [[nodiscard]] auto text() const -> std::string;
    };

    using Ops = std::vector<Op>;
    auto ids(const Ops &, const Env &) -> std::vector<gcs::IntegerVariableID>;
    auto text(const Ops &) -> std::string;
    auto text(const std::vector<LL> &) -> std::string;
    auto integers(const std::vector<LL> &) -> std::vector<gcs::Integer>;
    auto eval(const Ops &, const Asg &) -> std::vector<LL>;

    struct Cond
    {
        Op op;
        gcs::VariableConditionOperator rel;
        LL v, u;

        [[nodiscard]] auto eval(const Asg & a) const -> bool;
        [[nodiscard]] auto get(const Env & e) const -> gcs::IntegerVariableCondition;
        [[nodiscard]] auto text() const -> std::string;
    };

    // Whether every value of the condition's operand makes it so: -1 false, 1 true, 0 some of each.
    auto decided(const Cond & k, const Dom & values) -> int;

    struct Lit
    {
        int kind; // 0 false, 1 true, 2 condition
        Cond c;

        [[nodiscard]] auto eval(const Asg & a) const -> bool
        {
            return kind == 2 ? c.eval(a) : kind == 1;
        }
        [[nodiscard]] auto get(const Env & e) const -> gcs::innards::Literal;
        [[nodiscard]] auto text() const -> std::string;
    };

    struct Reif
    {
        int kind; // MustHold, MustNotHold, If, NotIf, Iff
        Cond c;

        [[nodiscard]] auto eval(bool holds, const Asg & a) const -> bool;
        [[nodiscard]] auto get(const Env & e) const -> gcs::ReificationCondition;
        [[nodiscard]] auto text() const -> std::string;
    };

    enum class Level
    {
        None,
        Bounds, // reaches a fixpoint where each bound has a supporting solution whose other values are within bounds
        Full    // every value left has a supporting solution
    };

    using Build = std::function<auto(const Env &)->std::unique_ptr<gcs::Constraint>>;

    struct Variant
    {
        std::string name;
        Build build;
        Level level = Level::None;
        Ops level_ops = {}; // empty: everything in scope
    };

    struct Cons
    {
        std::string entry;
        std::string text;
        Ops scope;
        std::function<auto(const Asg &)->bool> holds;
        std::vector<Variant> variants;
        std::size_t chosen = 0;
        // What may not be left undone, given the domains of what is in scope, where no variable is repeated: for
        // constraints of any size, unlike the levels.
        std::function<auto(const std::vector<Dom> &, const std::string &)->std::optional<std::string>> undone = {};
        bool repeats = false; // whether the level of propagation holds even where variables are repeated
        std::string undecided; // if not empty, the known finding that its proofs leave auxiliary variables undecided

        [[nodiscard]] auto variant() const -> const Variant &
        {
            return variants.at(chosen);
        }
    };

    struct Model
    {
        std::vector<Dom> doms;
        std::vector<int> as_vector; // how the variable is created: 0 bounds, 1 explicit domain
        std::vector<Cons> cons;
        std::optional<Op> objective;
        bool maximise = false;

        [[nodiscard]] auto product() const -> double;
        [[nodiscard]] auto text() const -> std::string;
        [[nodiscard]] auto holds(const Asg & a) const -> bool;
        [[nodiscard]] auto each_assignment(const std::function<auto(const Asg &)->bool> & f) const -> void;
        [[nodiscard]] auto brute_force() const -> std::vector<Asg>; // in lexicographic order
    };

    // How adventurous the generated operands are.
    struct Style
    {
        unsigned views = 20;     // percent of operands that are views
        unsigned reuse = 15;     // percent of operands that mention a variable again
        unsigned constants = 8;  // percent of operands that are constants
        unsigned holes = 35;     // percent of domains with holes
        double budget = 600;     // how many assignments
        LL scale = 1;            // how much larger than usual the constraints are
        LL wide = 1;             // how much wider than usual the domains are, around the same constraints
    };

    class Gen
    {
    public:
        pbt::Case & c;
        Model & m;
        Style style;
        std::vector<int> fresh_ok; // base variables an operand may reuse
        std::size_t first_var = 0;

        Gen(pbt::Case & c_, Model & m_, Style s) : c(c_), m(m_), style(s)
        {
        }

        auto pct(unsigned p) -> bool
        {
            return p > 0 && c.chance(p, 100);
        }

        auto new_var(Dom d) -> int;
        // Values of the operand are likely (strict: certain) to lie in lo..hi.
        auto op(LL lo, LL hi, bool strict = false, std::size_t max_size = 6) -> Op;
        // As op, but a base variable, not a constant or a view.
        auto plain(LL lo, LL hi, std::size_t max_size = 6, bool strict = false) -> Op;
        // A plain variable or a view of one that has not been mentioned yet.
        auto distinct(LL lo, LL hi, std::size_t max_size = 6, bool strict = false) -> Op;
        auto ops(std::size_t n, LL lo, LL hi, bool strict = false, std::size_t max_size = 6) -> Ops;
        // Operands with pairwise different handles.
        auto handles(std::size_t n, LL lo, LL hi, bool strict = false, std::size_t max_size = 6) -> Ops;
        auto cond() -> Cond;
        auto cond_on(const Op & o, LL lo, LL hi) -> Cond;
        auto lit() -> Lit;
        auto reif() -> Reif;
        auto room() -> double;
        auto range_of(const Op & o) -> std::pair<LL, LL>;
        auto rnd(LL lo, LL hi) -> LL
        {
            return c.range(lo, hi);
        }
        auto small(LL lo, LL hi) -> LL
        {
            return c.around_zero(lo, hi);
        }
        auto count(std::size_t lo, std::size_t hi) -> std::size_t
        {
            auto l = static_cast<LL>(lo), h = static_cast<LL>(hi);
            return static_cast<std::size_t>(c.range(l, l + (h - l) * style.scale));
        }
    };

    using Entry = std::pair<std::string, std::function<auto(Gen &)->Cons>>;

    auto arithmetic_entries() -> std::vector<Entry>;
    auto linear_entries() -> std::vector<Entry>;
    auto logical_entries() -> std::vector<Entry>;
    auto counting_entries() -> std::vector<Entry>;
    auto extensional_entries() -> std::vector<Entry>;
    auto scheduling_entries() -> std::vector<Entry>;
    auto ordering_entries() -> std::vector<Entry>;
    auto all_entries() -> std::vector<Entry>;

    // Adds to the scope every operand a constraint mentions, and chooses its variant.
    auto generate(Gen & g, const Entry & e) -> Cons;

    // Search settings.
    struct Search
    {
        std::string text;
        std::function<auto(const Env &, const gcs::Problem &)->gcs::BranchHeuristic> make;
        std::optional<unsigned long long> luby;
    };

    auto random_search(pbt::Case & c, const Model & m, bool allow_restarts) -> Search;
    auto default_search() -> Search;

    struct Posted
    {
        gcs::Problem problem;
        Env env;
    };

    // Creates the variables and posts the constraints.
    auto post(const Model & m, Posted & p, bool names = false) -> void;

    struct Outcome
    {
        std::vector<Asg> solutions;
        bool completed = false;
        gcs::Stats stats;
        std::string thrown;
    };

    using Trace = std::function<auto(const gcs::CurrentState &, const Env &)->void>;

    auto solve(const Model & m, Posted & p, const Search & s, const std::optional<gcs::ProofOptions> & proof = std::nullopt,
        const Trace & trace = {}) -> Outcome;

    // The enumeration oracle: each brute-force solution exactly once.
    auto expect_enumeration(pbt::Case & c, const Model & m, const std::vector<Asg> & expected, const Outcome & o, const std::string & what) -> void;

    // Checks the variant's claimed level of propagation at a node.
    // As the constraint says itself.
    auto check_undone(pbt::Case & c, const Cons & k, const gcs::CurrentState & s, const Env & e) -> void;
    auto any_repeated(const Cons & k) -> bool;

    auto check_level(pbt::Case & c, const Model & m, const std::vector<Asg> & solutions, const gcs::CurrentState & s, const Env & e) -> void;

    // True if no base variable is mentioned twice by the model's only constraint.
    auto level_applies(const Model & m) -> bool;

    auto show(const Asg & a) -> std::string;

    template <typename T_, typename... A_>
    auto mk(A_ &&... a) -> std::unique_ptr<gcs::Constraint>
    {
        return std::make_unique<T_>(std::forward<A_>(a)...);
    }
}

#endif

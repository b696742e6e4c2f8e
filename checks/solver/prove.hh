#ifndef VERIF_CHECKS_SOLVER_PROVE_HH
#define VERIF_CHECKS_SOLVER_PROVE_HH

#include <checks/proof/pbp.hh>
#include <checks/solver/model.hh>

namespace mdl
{
    // How the proof is to be written.
    struct Writing
    {
        bool verbose = true, full = false, compact = false, scp = true;
        gcs::AssertionLevel level = gcs::AssertionLevel::Off;
        [[nodiscard]] auto text() const -> std::string;
    };

    auto random_writing(pbt::Case & c) -> Writing;

    // What a name in the model or proof stands for.
    struct Meaning
    {
        enum Kind
        {
            Bit,       // value: what the bit is worth
            Equal,     // variable == value
            AtLeast,   // variable >= value
            Within,    // value <= variable <= upper
            Other
        } kind = Other;
        bool real = false; // of one of the problem's own variables, rather than one that only the proof has
        long long variable = 0, value = 0, upper = 0;
    };

    struct Written
    {
        Outcome outcome;
        std::string opb, pbp, scp, varmap;
        std::map<std::string, Meaning, std::less<>> names;
        std::map<long long, std::size_t> position; // of each of the problem's variables, in assignments
    };

    // Solves with proof logging, to scratch files that are read back and removed. stop_after: how many solutions to stop after.
    auto write_proof(const Model & m, Posted & p, const Search & s, const Writing & w, std::optional<std::size_t> stop_after = std::nullopt,
        std::optional<unsigned long long> stop_nodes = std::nullopt) -> Written;

    // Fails the case if the proof is refused. Discards it if its numbers are too large for the checker.
    auto check_proof(pbt::Case & c, const Written & w, const std::string & key, const std::string & undecided_key = {}, bool keep_events = false) -> pbp::Result;

    // What is asserted and the solutions, without checking anything.
    auto events_of(const Written & w) -> std::vector<pbp::Event>;

    // What a literal by name (possibly with a leading ~) is under an assignment to the problem's variables, if that is known.
    auto value_of(const Written & w, std::string_view name, const Asg & a) -> std::optional<bool>;

    // The value of each of the literals that say that a variable of the problem has a value: its bits.
    auto bits_of(const Written & w, const Posted & p, const pbp::Checker & k, const Asg & a) -> std::vector<pbp::Lit>;
}

#endif

#ifndef VERIF_CHECKS_SOLVER_ENUMERATE_HH
#define VERIF_CHECKS_SOLVER_ENUMERATE_HH

#include <checks/solver/model.hh>

namespace mdl
{
    auto random_style(pbt::Case & c) -> Style;

    // One property for each constraint, and one for conjunctions that involve them.
    auto enumeration_properties(const std::vector<Entry> & entries, std::size_t cases_each, std::size_t mixed_cases) -> std::vector<pbt::Property>;

    // A conjunction of between lo and hi constraints over shared variables.
    auto mixed_model(pbt::Case & c, Model & m, const std::vector<Entry> & first, const std::vector<Entry> & others, std::size_t lo, std::size_t hi,
        double budget, LL wide = 1) -> void;

    extern const char * const enumeration_rule;
}

#endif

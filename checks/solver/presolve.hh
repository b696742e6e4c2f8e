// Presolvers with randomly chosen settings, and models that give them work.
#ifndef VERIF_CHECKS_SOLVER_PRESOLVE_HH
#define VERIF_CHECKS_SOLVER_PRESOLVE_HH

#include <checks/solver/model.hh>

namespace mdl
{
    using Presolve = std::pair<std::string, std::function<auto(Posted &)->void>>;

    auto auto_table(pbt::Case & c, const Model & m) -> Presolve;
    auto difference_logic(pbt::Case & c) -> Presolve;
    // The makespan is a variable that finishes after the tasks, if the model has one.
    auto scheduling_presolver(pbt::Case & c, const std::optional<Op> & makespan) -> Presolve;

    // Tasks that share several resources; gives the makespan, if any.
    auto resources_model(pbt::Case & c, Model & m, double scale) -> std::optional<Op>;
    // Comparisons, equalities and inequalities between pairs of variables.
    auto differences_model(pbt::Case & c, Model & m, double scale) -> void;
}

#endif

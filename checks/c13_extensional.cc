// Extensional, automaton, element and knapsack constraints have exactly the solutions their definition gives.
#include <checks/solver/enumerate.hh>

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C13";
    s.rule = mdl::enumeration_rule;
    s.properties = mdl::enumeration_properties(mdl::extensional_entries(), 90000, 160000);
    return pbt::main(argc, argv, s);
}

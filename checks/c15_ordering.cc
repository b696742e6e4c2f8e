// Ordering, permutation, circuit and precedence constraints have exactly the solutions their definition gives.
#include <checks/solver/enumerate.hh>

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C15";
    s.rule = mdl::enumeration_rule;
    s.properties = mdl::enumeration_properties(mdl::ordering_entries(), 60000, 100000);
    return pbt::main(argc, argv, s);
}

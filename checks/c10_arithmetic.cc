// Arithmetic constraints have exactly the solutions their definition gives.
#include <checks/solver/enumerate.hh>

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C10";
    s.rule = mdl::enumeration_rule;
    s.properties = mdl::enumeration_properties(mdl::arithmetic_entries(), 150000, 250000);
    return pbt::main(argc, argv, s);
}

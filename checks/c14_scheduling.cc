// Scheduling and packing constraints have exactly the solutions their definition gives.
#include <checks/solver/enumerate.hh>

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C14";
    s.rule = mdl::enumeration_rule;
    s.properties = mdl::enumeration_properties(mdl::scheduling_entries(), 60000, 120000);
    return pbt::main(argc, argv, s);
}

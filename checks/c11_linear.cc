// Comparisons, equalities, linear, difference and logical constraints, reified or not, have exactly the solutions their definition gives.
#include <checks/solver/enumerate.hh>

auto main(int argc, char ** argv) -> int
{
    pbt::Suite s;
    s.id = "C11";
    s.rule = mdl::enumeration_rule;
    s.properties = mdl::enumeration_properties([] { auto r = mdl::linear_entries(); for (auto & e : mdl::logical_entries()) r.push_back(e); return r; }(), 90000, 200000);
    return pbt::main(argc, argv, s);
}

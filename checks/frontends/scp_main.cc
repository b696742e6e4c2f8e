#define main glasgow_scp_main
#include <scp/glasgow_scp_solver.cc>
#undef main

#include <checks/frontends/mains.hh>

namespace fe
{
    auto run_scp(const std::vector<std::string> & args) -> Ran
    {
        return detail::capture(&glasgow_scp_main, "glasgow_scp_solver", args);
    }
}

#define main glasgow_fzn_main
#include <minizinc/fzn_glasgow.cc>
#undef main

#include <checks/frontends/mains.hh>

namespace fe
{
    auto run_fzn(const std::vector<std::string> & args) -> Ran
    {
        auto r = detail::capture(&glasgow_fzn_main, "fzn-glasgow", args);
        abort_flag.store(false);
        std::signal(SIGINT, SIG_DFL);
        std::signal(SIGTERM, SIG_DFL);
        return r;
    }
}

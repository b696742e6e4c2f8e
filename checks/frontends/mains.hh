// The two command line programs, called as functions.
#ifndef VERIF_CHECKS_FRONTENDS_MAINS_HH
#define VERIF_CHECKS_FRONTENDS_MAINS_HH

#include <string>
#include <vector>

namespace fe
{
    struct Ran
    {
        int status = 0;
        std::string out, err;
    };

    auto run_fzn(const std::vector<std::string> & args) -> Ran;
    auto run_scp(const std::vector<std::string> & args) -> Ran;

    // a directory of its own, removed with everything in it
    class Scratch
    {
    private:
        std::string _dir;

    public:
        Scratch();
        ~Scratch();
        Scratch(const Scratch &) = delete;
        auto operator=(const Scratch &) -> Scratch & = delete;
        [[nodiscard]] auto file(const std::string & name) const -> std::string
        {
            return _dir + "/" + name;
        }
    };

    auto slurp(const std::string & file) -> std::string;
    auto spit(const std::string & file, const std::string & text) -> void;

    namespace detail
    {
        auto capture(int (*f)(int, char **), const char * name, const std::vector<std::string> & args) -> Ran;
    }
}

#endif

#include <checks/frontends/mains.hh>

#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>

#include <unistd.h>

using std::string;
using std::vector;

namespace fe
{
    Scratch::Scratch()
    {
        for (auto * base : {"/dev/shm", "/tmp"}) {
            auto t = string{base} + "/verif-front-XXXXXX";
            if (mkdtemp(t.data())) {
                _dir = t;
                return;
            }
        }
        std::abort();
    }

    Scratch::~Scratch()
    {
        std::error_code e;
        if (_dir.contains("/verif-front-"))
            std::filesystem::remove_all(_dir, e);
    }

    auto slurp(const string & file) -> string
    {
        std::ifstream f{file, std::ios::binary};
        std::ostringstream s;
        s << f.rdbuf();
        return s.str();
    }

    auto spit(const string & file, const string & text) -> void
    {
        std::ofstream f{file, std::ios::binary};
        f << text;
    }

    namespace detail
    {
        auto capture(int (*f)(int, char **), const char * name, const vector<string> & args) -> Ran
        {
            Ran r;
            vector<string> storage{name};
            storage.insert(storage.end(), args.begin(), args.end());
            vector<char *> argv;
            for (auto & a : storage)
                argv.push_back(a.data());
            argv.push_back(nullptr);
            std::ostringstream out, err;
            struct Redirect
            {
                std::ostream & s;
                std::streambuf * old;
                Redirect(std::ostream & s_, std::ostream & to) : s(s_), old(s_.rdbuf(to.rdbuf()))
                {
                }
                ~Redirect()
                {
                    s.rdbuf(old);
                }
            };
            // std::print without a stream writes to stdout, and not to cout
            auto * file = std::tmpfile();
            if (! file)
                std::abort();
            std::fflush(stdout);
            auto old = dup(1);
            dup2(fileno(file), 1);
            {
                Redirect o{std::cout, out}, e{std::cerr, err};
                r.status = f(static_cast<int>(storage.size()), argv.data());
            }
            std::fflush(stdout);
            dup2(old, 1);
            close(old);
            std::rewind(file);
            char buf[4096];
            for (size_t n; (n = std::fread(buf, 1, sizeof buf, file)) > 0;)
                r.out.append(buf, n);
            std::fclose(file);
            r.out += out.str();
            r.err = err.str();
            return r;
        }
    }
}

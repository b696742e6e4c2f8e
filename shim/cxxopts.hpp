// The installed cxxopts is older than the one the programs are written for, and lacks ParseResult::contains.
#ifndef VERIF_SHIM_CXXOPTS_HPP
#define VERIF_SHIM_CXXOPTS_HPP

#define ParseResult ParseResultOfInstalled
#define Options OptionsOfInstalled
#include_next <cxxopts.hpp>
#undef ParseResult
#undef Options

namespace cxxopts
{
    class ParseResult : public ParseResultOfInstalled
    {
    public:
        ParseResult() = default;
        ParseResult(ParseResultOfInstalled && r) : ParseResultOfInstalled(std::move(r))
        {
        }
        auto contains(const std::string & o) const -> bool
        {
            return count(o) > 0;
        }
    };

    class Options : public OptionsOfInstalled
    {
    public:
        using OptionsOfInstalled::OptionsOfInstalled;
        auto parse(int argc, const char * const * argv) -> ParseResult
        {
            return ParseResult{OptionsOfInstalled::parse(argc, argv)};
        }
    };
}

#endif

// A small property-based testing engine.
//
// Every random decision a property makes is drawn from a Case, which records
// the decision as a number in a choice sequence. A failing case is shrunk by
// editing its choice sequence (deleting spans, lowering numbers), which works
// for every generator without any per-type shrinker, and the sequence is what
// a replay file stores. Cases run in forked workers, so a crash, a sanitizer
// report, a failed library assertion or an endless loop is attributed to the
// case that caused it instead of ending the check.
//
// The set of cases a run evaluates is a pure function of the code, VERIF_SEED
// and the tier; nothing here reads a clock to make a decision, except for the
// overall safety deadline, which can only skip cases (and says so).
#ifndef VERIF_ENGINE_PBT_HH
#define VERIF_ENGINE_PBT_HH

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt
{
    struct Failure
    {
        std::string message;
        std::string key; // identifies a class of failure, for the known findings
    };

    struct Discard
    {
    };

    class Case
    {
    private:
        std::vector<std::uint64_t> _choices;
        std::size_t _pos = 0;
        bool _replaying;
        std::uint64_t _s[4];
        std::ostringstream _note;
        std::set<std::string> _labels;
        bool _nontrivial = false;
        bool _thorough = false;

        std::uint64_t * _mirror = nullptr;

        auto next() -> std::uint64_t;

    public:
        // Also write each choice, as it is made, to buf[1...], and their number to buf[0].
        auto mirror_to(std::uint64_t * buf) -> void
        {
            _mirror = buf;
        }

        explicit Case(std::uint64_t seed);
        explicit Case(std::vector<std::uint64_t> replay);

        [[nodiscard]] auto choices() const -> std::vector<std::uint64_t>;
        [[nodiscard]] auto labels() const -> const std::set<std::string> &
        {
            return _labels;
        }
        [[nodiscard]] auto is_nontrivial() const -> bool
        {
            return _nontrivial;
        }
        [[nodiscard]] auto description() const -> std::string
        {
            return _note.str();
        }

        // Uniform in 0..max inclusive; shrinks towards 0.
        auto draw(std::uint64_t max) -> std::uint64_t;

        // Uniform in lo..hi inclusive; shrinks towards lo.
        auto range(long long lo, long long hi) -> long long;

        // Uniform in lo..hi inclusive; shrinks towards zero (or the bound nearest it).
        auto around_zero(long long lo, long long hi) -> long long;

        // True with probability num / den; shrinks towards false.
        auto chance(unsigned num, unsigned den) -> bool;

        // Index, in proportion to the weights; shrinks towards index 0.
        auto weighted(std::initializer_list<unsigned> weights) -> std::size_t;
        auto weighted(const std::vector<unsigned> & weights) -> std::size_t;

        template <typename T_>
        auto pick(const std::vector<T_> & from) -> const T_ &
        {
            return from.at(draw(from.size() - 1));
        }

        template <typename T_>
        auto shuffle(std::vector<T_> & v) -> void
        {
            for (std::size_t i = 0; i + 1 < v.size(); ++i)
                std::swap(v[i], v[i + draw(v.size() - 1 - i)]);
        }

        // Any 64 bit signed value, biased towards small ones and the extremes.
        auto any_long() -> long long;

        auto label(const std::string & s) -> void
        {
            _labels.insert(s);
        }
        auto nontrivial() -> void
        {
            _nontrivial = true;
        }
        auto note() -> std::ostream &
        {
            return _note;
        }

        [[noreturn]] auto fail(const std::string & message, const std::string & key = "") -> void
        {
            throw Failure{message, key};
        }
        auto expect(bool cond, const std::string & message) -> void
        {
            if (! cond)
                fail(message);
        }
        [[noreturn]] auto discard() -> void
        {
            throw Discard{};
        }
    };

    struct Property
    {
        std::string name;
        std::size_t quick_cases;
        double thorough_factor;
        std::function<auto(Case &)->void> run;
        double cpu_seconds = 60.0; // per case, CPU time: a case takes milliseconds
        std::vector<std::pair<std::string, std::string>> env = {};
    };

    struct Suite
    {
        std::string id;
        std::string rule;
        std::vector<Property> properties;
        std::size_t memory_mb = 3000; // per worker; 0 for no limit (sanitizers)
        std::vector<std::string> assumptions = {};
    };

    // --seed N --tier T --out FILE --replays DIR --known FILE [--replay FILE] [--only NAME] [--cases N] [--deadline S] [--workers N]
    auto main(int argc, char ** argv, const Suite & suite) -> int;
}

#endif

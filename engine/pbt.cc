#include <engine/pbt.hh>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using std::string;
using std::uint64_t;
using std::vector;

namespace
{
    auto splitmix(uint64_t & x) -> uint64_t
    {
        x += 0x9e3779b97f4a7c15ULL;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }

    auto hash_string(const string & s, uint64_t h = 1469598103934665603ULL) -> uint64_t
    {
        for (unsigned char c : s) {
            h ^= c;
            h *= 1099511628211ULL;
        }
        return h;
    }

    constexpr std::size_t max_choices = 60000;
}

Case::Case(uint64_t seed) : _replaying(false)
{
    for (auto & s : _s)
        s = splitmix(seed);
}

Case::Case(vector<uint64_t> replay) : _choices(std::move(replay)), _replaying(true)
{
    for (auto & s : _s)
        s = 0;
}

auto Case::choices() const -> vector<uint64_t>
{
    return vector<uint64_t>(_choices.begin(), _choices.begin() + std::min(_pos, _choices.size()));
}

auto Case::next() -> uint64_t
{
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    auto result = rotl(_s[1] * 5, 7) * 9;
    auto t = _s[1] << 17;
    _s[2] ^= _s[0];
    _s[3] ^= _s[1];
    _s[1] ^= _s[2];
    _s[0] ^= _s[3];
    _s[2] ^= t;
    _s[3] = rotl(_s[3], 45);
    return result;
}

auto Case::draw(uint64_t max) -> uint64_t
{
    if (_pos >= max_choices)
        throw Discard{};
    if (_replaying) {
        uint64_t v = _pos < _choices.size() ? _choices[_pos] : 0;
        if (v > max)
            v = max;
        if (_pos < _choices.size())
            _choices[_pos] = v;
        else
            _choices.push_back(v);
        ++_pos;
        return v;
    }
    uint64_t v = max == ~0ULL ? next() : next() % (max + 1);
    _choices.push_back(v);
    ++_pos;
    if (_mirror) {
        _mirror[_pos] = v;
        _mirror[0] = _pos;
    }
    return v;
}

auto Case::range(long long lo, long long hi) -> long long
{
    return static_cast<long long>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
}

auto Case::around_zero(long long lo, long long hi) -> long long
{
    if (lo >= 0)
        return range(lo, hi);
    if (hi <= 0)
        return static_cast<long long>(static_cast<uint64_t>(hi) - draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
    // 0, 1, -1, 2, -2, ... then the longer side
    uint64_t pos = static_cast<uint64_t>(hi), neg = 0 - static_cast<uint64_t>(lo);
    uint64_t both = std::min(pos, neg);
    uint64_t v = draw(pos + neg);
    if (v <= 2 * both)
        return v % 2 ? static_cast<long long>(v / 2 + 1) : -static_cast<long long>(v / 2);
    return pos > neg ? static_cast<long long>(v - both) : static_cast<long long>(0 - (v - both));
}

auto Case::chance(unsigned num, unsigned den) -> bool
{
    return draw(den - 1) >= den - num;
}

auto Case::weighted(std::initializer_list<unsigned> weights) -> std::size_t
{
    return weighted(vector<unsigned>(weights));
}

auto Case::weighted(const vector<unsigned> & weights) -> std::size_t
{
    uint64_t total = 0;
    for (auto w : weights)
        total += w;
    auto v = draw(total - 1);
    for (std::size_t i = 0; i < weights.size(); ++i) {
        if (v < weights[i])
            return i;
        v -= weights[i];
    }
    return 0;
}

auto Case::any_long() -> long long
{
    constexpr long long mx = 0x7fffffffffffffffLL, mn = -mx - 1;
    switch (weighted({30, 10, 15, 10, 15, 20})) {
    case 0: return around_zero(-20, 20);
    case 1: return around_zero(-100000, 100000);
    case 2: { // near a power of two
        auto p = range(0, 63);
        auto base = p == 63 ? static_cast<uint64_t>(1) << 63 : static_cast<uint64_t>(1) << p;
        auto v = base + static_cast<uint64_t>(around_zero(-3, 3));
        return static_cast<long long>(chance(1, 2) ? 0 - v : v);
    }
    case 3: return mx - range(0, 5);
    case 4: return mn + range(0, 5);
    default: { // uniform in bit length
        auto bits = range(1, 64);
        auto v = draw(~0ULL) >> (64 - bits);
        return static_cast<long long>(chance(1, 2) ? 0 - v : v);
    }
    }
}

namespace
{
    auto json_string(const string & s) -> string
    {
        string r = "\"";
        for (unsigned char c : s) {
            if (c == '"')
                r += "\\\"";
            else if (c == '\\')
                r += "\\\\";
            else if (c == '\n')
                r += "\\n";
            else if (c == '\t')
                r += "\\t";
            else if (c < 32 || c >= 127) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else
                r += static_cast<char>(c);
        }
        return r + "\"";
    }

    enum class Outcome : int
    {
        Pass = 0,
        Fail = 1,
        Discarded = 2
    };

    struct RunResult
    {
        Outcome outcome;
        string message, key;
    };

    auto run_case(const Property & p, Case & c) -> RunResult
    {
        try {
            p.run(c);
            return {Outcome::Pass, "", ""};
        }
        catch (const Failure & f) {
            return {Outcome::Fail, f.message, f.key};
        }
        catch (const Discard &) {
            return {Outcome::Discarded, "", ""};
        }
        catch (const std::exception & e) {
            return {Outcome::Fail, string{"unexpected exception: "} + e.what(), "exception"};
        }
    }

    auto case_seed(uint64_t seed, const string & id, const string & name, std::size_t k) -> uint64_t
    {
        uint64_t x = seed * 0x9e3779b97f4a7c15ULL + hash_string(id + "/" + name) + k * 0xd1b54a32d192ed03ULL;
        splitmix(x);
        return splitmix(x);
    }

    struct Batch
    {
        std::size_t prop;
        std::size_t from, to;
    };

    struct WorkerSlot
    {
        std::atomic<long long> prop;
        std::atomic<long long> index; // -1: not in a case
        std::atomic<long long> cpu_start_ns;
        std::atomic<long long> wall_start_s;
        std::atomic<long long> batch;
    };

    struct Shared
    {
        std::atomic<long long> next_batch;
        std::atomic<int> stop;
        std::atomic<long long> skipped;
        WorkerSlot slots[64];
    };

    auto cpu_ns() -> long long
    {
        timespec t;
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
        return t.tv_sec * 1000000000LL + t.tv_nsec;
    }

    auto cpu_ns_of(pid_t pid) -> long long
    {
        clockid_t id;
        if (clock_getcpuclockid(pid, &id) != 0)
            return -1;
        timespec t;
        if (clock_gettime(id, &t) != 0)
            return -1;
        return t.tv_sec * 1000000000LL + t.tv_nsec;
    }

    struct Totals
    {
        unsigned long long evaluated = 0, discarded = 0, nontrivial = 0, known = 0;
        std::set<uint64_t> distinct;
        std::map<string, unsigned long long> labels;
        vector<string> samples;
    };

    struct FailureRecord
    {
        std::size_t prop = 0;
        vector<uint64_t> choices;
        string message, key, description;
        bool hang = false;
    };

    auto save_failure(const string & path, const FailureRecord & f) -> void
    {
        std::ofstream o(path + ".tmp", std::ios::binary);
        o << f.prop << ' ' << f.hang << ' ' << f.choices.size();
        for (auto c : f.choices)
            o << ' ' << c;
        o << '\n' << f.message.size() << ' ' << f.key.size() << ' ' << f.description.size() << '\n' << f.message << f.key << f.description;
        o.close();
        std::rename((path + ".tmp").c_str(), path.c_str());
    }

    auto load_failure(const string & path, FailureRecord & f) -> bool
    {
        std::ifstream i(path, std::ios::binary);
        if (! i)
            return false;
        std::size_t n, a, b, c;
        if (! (i >> f.prop >> f.hang >> n))
            return false;
        f.choices.resize(n);
        for (auto & x : f.choices)
            i >> x;
        if (! (i >> a >> b >> c))
            return false;
        i.get();
        f.message.resize(a);
        f.key.resize(b);
        f.description.resize(c);
        i.read(f.message.data(), a);
        i.read(f.key.data(), b);
        i.read(f.description.data(), c);
        return true;
    }

    auto save_totals(const string & path, const Totals & t) -> void
    {
        std::ofstream o(path + ".tmp", std::ios::binary);
        o << t.evaluated << ' ' << t.discarded << ' ' << t.nontrivial << ' ' << t.known << '\n' << t.distinct.size() << '\n';
        for (auto d : t.distinct)
            o << d << ' ';
        o << '\n' << t.labels.size() << '\n';
        for (auto & [k, v] : t.labels)
            o << v << ' ' << k << '\n';
        o << t.samples.size() << '\n';
        for (auto & s : t.samples)
            o << s.size() << '\n' << s << '\n';
        o.close();
        std::rename((path + ".tmp").c_str(), path.c_str());
    }

    auto load_totals(const string & path, Totals & into) -> void
    {
        std::ifstream i(path, std::ios::binary);
        if (! i)
            return;
        unsigned long long a, b, c, d;
        std::size_t n;
        i >> a >> b >> c >> d >> n;
        into.evaluated += a;
        into.discarded += b;
        into.nontrivial += c;
        into.known += d;
        for (std::size_t k = 0; k < n; ++k) {
            uint64_t x;
            i >> x;
            into.distinct.insert(x);
        }
        i >> n;
        for (std::size_t k = 0; k < n; ++k) {
            unsigned long long v;
            string s;
            i >> v;
            i.get();
            std::getline(i, s);
            into.labels[s] += v;
        }
        i >> n;
        for (std::size_t k = 0; k < n; ++k) {
            std::size_t len;
            i >> len;
            i.get();
            string s(len, ' ');
            i.read(s.data(), len);
            into.samples.push_back(s);
        }
    }

    auto limit_memory(std::size_t mb) -> void
    {
        if (! mb)
            return;
        rlimit r;
        r.rlim_cur = r.rlim_max = static_cast<rlim_t>(mb) << 20;
        setrlimit(RLIMIT_AS, &r);
    }

    auto no_core() -> void
    {
        rlimit r;
        r.rlim_cur = r.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &r);
    }

    auto redirect(const string & path) -> void
    {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) {
            dup2(fd, 1);
            dup2(fd, 2);
            close(fd);
        }
    }

    auto tail_of(const string & path) -> string
    {
        std::ifstream i(path, std::ios::binary);
        std::stringstream s;
        s << i.rdbuf();
        auto t = s.str();
        if (t.size() > 1500)
            t = "..." + t.substr(t.size() - 1500);
        return t;
    }

    struct Options
    {
        uint64_t seed = 1;
        string tier = "quick", out, replays = "/tmp", known, replay, only, scratch;
        double deadline = 0;
        std::size_t cases = 0;
        unsigned workers = 8;
    };

    struct Known
    {
        std::set<string> keys;
        auto matches(const string & key) const -> bool
        {
            return ! key.empty() && keys.contains(key);
        }
    };

    // Runs one choice sequence in a child. Returns true if it failed (in any way).
    struct Attempt
    {
        bool failed = false;
        bool hang = false;
        string message, key, description;
        vector<uint64_t> choices;
    };

    // A crash or a hang would otherwise lose what the case was about.
    const Case * crash_case = nullptr;
    char crash_path[4096];

    auto write_crash_description(int sig) -> void
    {
        if (crash_case) {
            auto text = crash_case->description();
            int fd = open(crash_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) {
                [[maybe_unused]] auto n = write(fd, text.data(), text.size());
                close(fd);
            }
        }
        signal(sig, SIG_DFL);
        raise(sig);
    }

    auto describe_on_crash(const Case & c, const string & path) -> void
    {
        crash_case = &c;
        std::snprintf(crash_path, sizeof crash_path, "%s", path.c_str());
        for (auto s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGTERM})
            signal(s, write_crash_description);
    }

    auto attempt(const Suite & suite, std::size_t prop, const vector<uint64_t> & choices, const string & scratch, double cpu_limit) -> Attempt
    {
        auto rec = scratch + "/attempt.rec", log = scratch + "/attempt.log";
        unlink(rec.c_str());
        unlink((rec + ".desc").c_str());
        std::fflush(nullptr);
        auto pid = fork();
        if (pid < 0)
            return {};
        if (pid == 0) {
            no_core();
            limit_memory(suite.memory_mb);
            redirect(log);
            for (auto & [k, v] : suite.properties[prop].env)
                setenv(k.c_str(), v.c_str(), 1);
            auto c = std::make_unique<Case>(choices);
            describe_on_crash(*c, rec + ".desc");
            auto r = run_case(suite.properties[prop], *c);
            FailureRecord f{prop, c->choices(), r.message, r.key, c->description(), false};
            save_failure(rec, f);
            _exit(r.outcome == Outcome::Fail ? 7 : 0);
        }
        Attempt a;
        a.choices = choices;
        int status = 0;
        auto wall = time(nullptr);
        while (true) {
            auto w = waitpid(pid, &status, WNOHANG);
            if (w == pid)
                break;
            auto ns = cpu_ns_of(pid);
            if (ns > cpu_limit * 1e9 || time(nullptr) - wall > 20 * cpu_limit + 120) {
                kill(pid, SIGTERM);
                usleep(200000);
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                a.description = tail_of(rec + ".desc");
                a.failed = a.hang = true;
                a.message = "did not finish within " + std::to_string(static_cast<int>(cpu_limit)) + "s of CPU time";
                a.key = "hang";
                return a;
            }
            usleep(300);
        }
        FailureRecord f;
        bool have = load_failure(rec, f);
        if (have) {
            a.choices = f.choices;
            a.description = f.description;
            a.key = f.key;
            a.message = f.message;
        }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && have)
            return a;
        a.failed = true;
        if (! (WIFEXITED(status) && WEXITSTATUS(status) == 7 && have)) {
            a.message = "crashed (" + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))) +
                "): " + tail_of(log);
            a.key = "crash";
            a.description = tail_of(rec + ".desc");
        }
        return a;
    }

    auto simpler(const vector<uint64_t> & a, const vector<uint64_t> & b) -> bool
    {
        if (a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    }

    auto shrink(const Suite & suite, FailureRecord f, const string & scratch, const Known & known, int budget, double wall_budget) -> FailureRecord
    {
        double cpu = std::min(10.0, suite.properties[f.prop].cpu_seconds);
        auto start = std::chrono::steady_clock::now();
        auto spent = [&] { return budget <= 0 || std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > wall_budget; };
        std::set<vector<uint64_t>> tried;
        auto try_it = [&](const vector<uint64_t> & c) -> bool {
            if (spent() || ! simpler(c, f.choices) || ! tried.insert(c).second)
                return false;
            --budget;
            auto a = attempt(suite, f.prop, c, scratch, cpu);
            if (! a.failed || a.hang || known.matches(a.key))
                return false;
            if (! simpler(a.choices, f.choices) && a.choices != c)
                return false;
            f.choices = simpler(c, a.choices) ? c : a.choices;
            f.message = a.message;
            f.key = a.key;
            f.description = a.description;
            return true;
        };

        bool improved = true;
        while (improved && ! spent()) {
            improved = false;
            for (std::size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
                for (std::size_t i = f.choices.size(); i-- > 0 && ! spent();) {
                    if (i + len > f.choices.size())
                        continue;
                    auto c = f.choices;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (try_it(c))
                        improved = true;
                    else if (i > 0 && f.choices[i - 1] > 0) {
                        // the number before a span is often the span's length
                        auto d = f.choices;
                        d[i - 1] -= 1;
                        d.erase(d.begin() + i, d.begin() + i + len);
                        if (try_it(d))
                            improved = true;
                    }
                }
            for (std::size_t len : {16, 8, 4, 2})
                for (std::size_t i = 0; i + len <= f.choices.size() && ! spent(); i += len) {
                    auto c = f.choices;
                    std::fill(c.begin() + i, c.begin() + i + len, 0);
                    if (c != f.choices && try_it(c))
                        improved = true;
                }
            for (std::size_t i = 0; i < f.choices.size() && ! spent(); ++i) {
                if (f.choices[i] == 0)
                    continue;
                auto c = f.choices;
                c[i] = 0;
                if (try_it(c)) {
                    improved = true;
                    continue;
                }
                uint64_t lo = 0, hi = f.choices[i];
                while (hi - lo > 1 && ! spent() && i < f.choices.size()) {
                    auto mid = lo + (hi - lo) / 2;
                    c = f.choices;
                    c[i] = mid;
                    if (try_it(c)) {
                        improved = true;
                        hi = mid;
                    }
                    else
                        lo = mid;
                }
            }
        }
        return f;
    }

    auto worker(const Suite & suite, const Options & opt, const vector<Batch> & batches, Shared & shared, unsigned slot_index, long long first_batch,
        std::size_t first_offset, const string & prefix, const Known & known) -> int
    {
        auto & slot = shared.slots[slot_index];
        Totals totals;
        std::size_t since_save = 0;
        // crash-restarted workers carry on from where the crash was
        auto b = first_batch;
        auto offset = first_offset;
        while (true) {
            if (b < 0) {
                b = shared.next_batch.fetch_add(1);
                offset = 0;
            }
            if (b >= static_cast<long long>(batches.size()))
                break;
            auto & batch = batches[b];
            auto & p = suite.properties[batch.prop];
            slot.batch = b;
            slot.prop = static_cast<long long>(batch.prop);
            for (auto & q : suite.properties)
                for (auto & [k, v] : q.env)
                    unsetenv(k.c_str());
            for (auto & [k, v] : p.env)
                setenv(k.c_str(), v.c_str(), 1);
            for (std::size_t k = batch.from + offset; k < batch.to; ++k) {
                if (shared.stop.load()) {
                    shared.skipped += static_cast<long long>(batch.to - k);
                    save_totals(prefix + ".totals", totals);
                    return 0;
                }
                auto c = std::make_unique<Case>(case_seed(opt.seed, suite.id, p.name, k));
                slot.cpu_start_ns = cpu_ns();
                slot.wall_start_s = time(nullptr);
                slot.index = static_cast<long long>(k);
                auto r = run_case(p, *c);
                slot.index = -1;
                if (r.outcome == Outcome::Discarded) {
                    ++totals.discarded;
                    continue;
                }
                ++totals.evaluated;
                ++totals.labels[p.name + "/cases"];
                for (auto & l : c->labels())
                    ++totals.labels[p.name + ": " + l];
                if (c->is_nontrivial()) {
                    ++totals.nontrivial;
                    ++totals.labels[p.name + "/nontrivial"];
                    if (totals.distinct.size() < 2000000) {
                        auto h = hash_string(p.name);
                        for (auto x : c->choices())
                            h = (h ^ x) * 0x9e3779b97f4a7c15ULL + (h >> 29);
                        totals.distinct.insert(h);
                    }
                    if (k < 2 && totals.samples.size() < 24)
                        totals.samples.push_back("[" + p.name + " #" + std::to_string(k) + "] " + c->description().substr(0, 600));
                }
                if (r.outcome == Outcome::Fail) {
                    if (known.matches(r.key)) {
                        ++totals.known;
                        continue;
                    }
                    save_failure(prefix + ".fail", FailureRecord{batch.prop, c->choices(), r.message, r.key, c->description(), false});
                    save_totals(prefix + ".totals", totals);
                    shared.stop = 1;
                    return 7;
                }
                if (++since_save >= 2000) {
                    since_save = 0;
                    save_totals(prefix + ".totals", totals);
                }
            }
            b = -1;
        }
        save_totals(prefix + ".totals", totals);
        return 0;
    }

    auto load_known(const string & path, const string & id) -> Known
    {
        // one finding per line: "known: property=<id> key=<key> <text>"
        Known k;
        std::ifstream i(path);
        string line;
        while (std::getline(i, line)) {
            std::istringstream s{line};
            string kind, prop, key;
            if (s >> kind >> prop >> key && kind == "known:" && prop == "property=" + id && key.starts_with("key="))
                k.keys.insert(key.substr(4));
        }
        return k;
    }

    auto write_replay(const string & path, const Suite & suite, const FailureRecord & f, const Options & opt) -> void
    {
        std::ofstream o(path);
        o << "pbt-replay 1\nproperty " << suite.id << "\nsub " << suite.properties[f.prop].name << "\nseed " << opt.seed << "\nchoices " << f.choices.size();
        for (auto c : f.choices)
            o << ' ' << c;
        o << "\n\nmessage:\n" << f.message << "\n\ncase:\n" << f.description << "\n";
    }
}

auto pbt::main(int argc, char ** argv, const Suite & suite_in) -> int
{
    Suite suite = suite_in;
    Options opt;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        auto val = [&]() -> string {
            if (i + 1 >= argc) {
                std::cerr << "missing value for " << a << "\n";
                std::exit(2);
            }
            return argv[++i];
        };
        if (a == "--seed")
            opt.seed = std::stoull(val());
        else if (a == "--tier")
            opt.tier = val();
        else if (a == "--out")
            opt.out = val();
        else if (a == "--replays")
            opt.replays = val();
        else if (a == "--known")
            opt.known = val();
        else if (a == "--replay")
            opt.replay = val();
        else if (a == "--only")
            opt.only = val();
        else if (a == "--cases")
            opt.cases = std::stoull(val());
        else if (a == "--deadline")
            opt.deadline = std::stod(val());
        else if (a == "--list") {
            for (auto & p : suite.properties)
                std::cout << p.name << "\n";
            return 0;
        }
        else if (a == "--workers")
            opt.workers = static_cast<unsigned>(std::stoul(val()));
        else {
            std::cerr << "unknown option " << a << "\n";
            return 2;
        }
    }
    if (opt.workers > 64)
        opt.workers = 64;
    std::ios::sync_with_stdio(false);
    char scratch[] = "/tmp/pbt.XXXXXX";
    if (! mkdtemp(scratch)) {
        std::perror("mkdtemp");
        return 2;
    }
    opt.scratch = scratch;
    auto cleanup = [&] { [[maybe_unused]] auto r = std::system(("rm -rf '" + opt.scratch + "'").c_str()); };
    setenv("PBT_SCRATCH", scratch, 1);
    auto known = load_known(opt.known, suite.id);

    if (! opt.replay.empty()) {
        std::ifstream in(opt.replay);
        string word, sub;
        vector<uint64_t> choices;
        while (in >> word) {
            if (word == "sub")
                in >> sub;
            else if (word == "choices") {
                std::size_t n;
                in >> n;
                choices.resize(n);
                for (auto & c : choices)
                    in >> c;
                break;
            }
        }
        for (std::size_t p = 0; p < suite.properties.size(); ++p)
            if (suite.properties[p].name == sub) {
                auto a = attempt(suite, p, choices, opt.scratch, suite.properties[p].cpu_seconds);
                std::cout << a.description << "\n" << (a.failed ? "FAILS: " + a.message : string{"passes"}) << std::endl;
                cleanup();
                return a.failed ? 1 : 0;
            }
        cleanup();
        std::cerr << "no sub-property " << sub << "\n";
        return 2;
    }

    // the schedule: every property in batches, interleaved
    vector<std::pair<double, Batch>> order;
    for (std::size_t p = 0; p < suite.properties.size(); ++p) {
        auto & prop = suite.properties[p];
        if (! opt.only.empty() && prop.name != opt.only)
            continue;
        std::size_t n = prop.quick_cases;
        if (opt.tier == "thorough")
            n = static_cast<std::size_t>(static_cast<double>(n) * prop.thorough_factor);
        if (opt.cases)
            n = opt.cases;
        std::size_t size = std::max<std::size_t>(1, n / 400);
        for (std::size_t k = 0; k < n; k += size)
            order.emplace_back(static_cast<double>(k) / static_cast<double>(n), Batch{p, k, std::min(n, k + size)});
    }
    std::stable_sort(order.begin(), order.end(), [](auto & a, auto & b) { return a.first < b.first; });
    vector<Batch> batches;
    for (auto & [_, b] : order)
        batches.push_back(b);

    auto * shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (shared) Shared{};
    for (auto & s : shared->slots) {
        s.index = -1;
        s.batch = -1;
    }

    struct Running
    {
        pid_t pid = 0;
        unsigned generation = 0;
        bool live = false;
    };
    vector<Running> running(opt.workers);
    vector<string> prefixes;
    auto prefix_of = [&](unsigned w, unsigned g) { return opt.scratch + "/w" + std::to_string(w) + "." + std::to_string(g); };
    auto start = [&](unsigned w, long long batch, std::size_t offset) {
        auto prefix = prefix_of(w, running[w].generation);
        prefixes.push_back(prefix);
        std::fflush(nullptr);
        auto pid = fork();
        if (pid == 0) {
            no_core();
            limit_memory(suite.memory_mb);
            redirect(prefix + ".log");
            setenv("PBT_SCRATCH", (opt.scratch + "/s" + std::to_string(w)).c_str(), 1);
            mkdir((opt.scratch + "/s" + std::to_string(w)).c_str(), 0755);
            int r = 9;
            try {
                r = worker(suite, opt, batches, *shared, w, batch, offset, prefix, known);
            }
            catch (...) {
            }
            std::fflush(nullptr);
            _exit(r);
        }
        running[w].pid = pid;
        running[w].live = true;
    };
    for (unsigned w = 0; w < opt.workers; ++w)
        start(w, -1, 0);

    auto begin = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - begin).count(); };
    double deadline = opt.deadline > 0 ? opt.deadline : (opt.tier == "thorough" ? 36000.0 : 420.0);
    bool hit_deadline = false;
    vector<FailureRecord> failures;
    vector<string> oddities;
    double stop_since = -1;
    while (true) {
        bool any = false;
        for (unsigned w = 0; w < opt.workers; ++w) {
            auto & r = running[w];
            if (! r.live)
                continue;
            any = true;
            int status = 0;
            auto & slot = shared->slots[w];
            auto rc = waitpid(r.pid, &status, WNOHANG);
            bool hang = false;
            if (rc == 0) {
                auto index = slot.index.load();
                if (index >= 0) {
                    auto limit = suite.properties[slot.prop.load()].cpu_seconds;
                    auto now = cpu_ns_of(r.pid);
                    if (now > 0 && now - slot.cpu_start_ns.load() > limit * 1e9)
                        hang = true;
                    // asleep for ever: no CPU time, but no progress either
                    else if (time(nullptr) - slot.wall_start_s.load() > 20 * limit + 240)
                        hang = true;
                    else if (stop_since >= 0 && elapsed() - stop_since > 20) {
                        // someone else already failed; do not wait for a slow case
                        kill(r.pid, SIGKILL);
                        waitpid(r.pid, &status, 0);
                        r.live = false;
                        slot.index = -1;
                        continue;
                    }
                    if (hang) {
                        kill(r.pid, SIGKILL);
                        waitpid(r.pid, &status, 0);
                        rc = r.pid;
                    }
                }
            }
            if (rc != r.pid)
                continue;
            r.live = false;
            auto prefix = prefix_of(w, r.generation);
            if (! hang && WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 7)) {
                FailureRecord f;
                if (WEXITSTATUS(status) == 7 && load_failure(prefix + ".fail", f))
                    failures.push_back(f);
                continue;
            }
            // crashed, or killed
            auto index = slot.index.load();
            if (index < 0) {
                oddities.push_back("worker ended outside a case: status " + std::to_string(status) + ": " + tail_of(prefix + ".log"));
                ++r.generation;
                if (r.generation < 5)
                    start(w, -1, 0);
                continue;
            }
            auto prop = static_cast<std::size_t>(slot.prop.load());
            FailureRecord f;
            f.prop = prop;
            f.hang = hang;
            f.key = hang ? "hang" : "crash";
            f.message = hang ? "did not finish within its CPU time limit"
                             : "crashed (" + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))) +
                    "): " + tail_of(prefix + ".log");
            // only the seed is known; the choices are re-recorded by running it again
            auto seed = case_seed(opt.seed, suite.id, suite.properties[prop].name, static_cast<std::size_t>(index));
            f.choices = {seed};
            f.description = "@seed";
            failures.push_back(f);
            shared->stop = 1;
        }
        if (! any)
            break;
        if (shared->stop.load() && stop_since < 0)
            stop_since = elapsed();
        if (elapsed() > deadline && ! shared->stop.load()) {
            hit_deadline = true;
            shared->stop = 1;
            stop_since = 1e18;
        }
        usleep(20000);
    }
    auto search_s = elapsed();

    Totals totals;
    for (auto & p : prefixes)
        load_totals(p + ".totals", totals);

    // turn seed-only failures (crashes) into choice sequences
    auto record_choices = [&](FailureRecord & f) {
        if (f.description != "@seed")
            return;
        auto seed = f.choices.at(0);
        // the child writes each choice to shared memory as it makes it, so that they survive the crash
        constexpr std::size_t cap = max_choices + 8;
        auto * buf = static_cast<uint64_t *>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::fflush(nullptr);
        auto pid = fork();
        if (pid == 0) {
            no_core();
            limit_memory(suite.memory_mb);
            redirect(opt.scratch + "/record.log");
            for (auto & [k, v] : suite.properties[f.prop].env)
                setenv(k.c_str(), v.c_str(), 1);
            auto c = std::make_unique<Case>(seed);
            c->mirror_to(buf);
            run_case(suite.properties[f.prop], *c);
            _exit(0);
        }
        int status;
        auto t0 = time(nullptr);
        while (waitpid(pid, &status, WNOHANG) == 0) {
            auto ns = cpu_ns_of(pid);
            if (ns > 5e9 || time(nullptr) - t0 > 200) {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                break;
            }
            usleep(2000);
        }
        f.choices.assign(buf + 1, buf + 1 + std::min<uint64_t>(buf[0], max_choices));
        f.description = "";
        munmap(buf, cap * 8);
    };

    bool violated = false;
    string replay_path, violation_message;
    std::size_t unconfirmed = 0;
    std::sort(failures.begin(), failures.end(), [](auto & a, auto & b) { return std::pair{a.hang, a.choices.size()} < std::pair{b.hang, b.choices.size()}; });
    for (auto & f : failures) {
        record_choices(f);
        auto & prop = suite.properties[f.prop];
        int confirmed = 0;
        Attempt last;
        for (int i = 0; i < (f.hang ? 2 : 3); ++i) {
            auto a = attempt(suite, f.prop, f.choices, opt.scratch, prop.cpu_seconds);
            if (! a.failed || known.matches(a.key))
                break;
            ++confirmed;
            last = a;
        }
        if (confirmed < (f.hang ? 2 : 3)) {
            ++unconfirmed;
            oddities.push_back("not reproducible: " + prop.name + ": " + f.message);
            std::ofstream(opt.replays + "/" + suite.id + "-" + prop.name + ".unconfirmed.txt") << f.message << "\n" << f.description << "\n";
            continue;
        }
        if (known.matches(last.key))
            continue;
        f.message = last.message;
        f.key = last.key;
        if (! last.description.empty())
            f.description = last.description;
        auto best = f;
        if (! last.hang) {
            best = shrink(suite, f, opt.scratch, known, 3000, 75.0);
            int again = 0;
            for (int i = 0; i < 3; ++i)
                again += attempt(suite, best.prop, best.choices, opt.scratch, prop.cpu_seconds).failed;
            if (again < 3)
                best = f;
        }
        replay_path = opt.replays + "/" + suite.id + "-" + prop.name + "-" + std::to_string(hash_string(best.message + best.description) % 1000000) + ".txt";
        write_replay(replay_path, suite, best, opt);
        violation_message = best.message;
        std::cout << "sub-property: " << prop.name << "\ncase:\n" << best.description << "\nfailure:\n" << best.message << "\n";
        std::cout << "VIOLATION property=" << suite.id << " replay=" << replay_path << std::endl;
        violated = true;
        break;
    }
    for (auto & o : oddities)
        std::cout << "note: " << o << std::endl;

    if (! opt.out.empty()) {
        std::ofstream o(opt.out);
        o << "{\"evaluations\": " << totals.evaluated << ", \"discarded\": " << totals.discarded << ", \"nontrivial\": " << totals.nontrivial
          << ", \"distinct_nontrivial\": " << totals.distinct.size() << ", \"known_hits\": " << totals.known << ", \"skipped_at_deadline\": " << shared->skipped.load()
          << ", \"hit_deadline\": " << (hit_deadline ? "true" : "false") << ", \"search_seconds\": " << search_s << ", \"unconfirmed\": " << unconfirmed
          << ", \"violations\": " << (violated ? 1 : 0) << ", \"replay\": " << json_string(replay_path) << ", \"message\": " << json_string(violation_message.substr(0, 2000))
          << ", \"rule\": " << json_string(suite.rule) << ", \"assumptions\": [";
        bool first = true;
        for (auto & a : suite.assumptions) {
            o << (first ? "" : ", ") << json_string(a);
            first = false;
        }
        o << "], \"labels\": {";
        first = true;
        for (auto & [k, v] : totals.labels) {
            o << (first ? "" : ", ") << json_string(k) << ": " << v;
            first = false;
        }
        o << "}, \"samples\": [";
        first = true;
        std::sort(totals.samples.begin(), totals.samples.end());
        for (std::size_t i = 0; i < totals.samples.size() && i < 24; ++i) {
            o << (first ? "" : ", ") << json_string(totals.samples[i]);
            first = false;
        }
        o << "]}\n";
    }
    std::cout << suite.id << ": " << totals.evaluated << " cases, " << totals.nontrivial << " non-trivial (" << totals.distinct.size() << " distinct), "
              << totals.discarded << " discarded, " << search_s << "s" << (hit_deadline ? ", DEADLINE" : "") << std::endl;
    cleanup();
    return violated ? 1 : 0;
}

// Choice-sequence property-based testing engine.
//
// A property is `void property(pbt::Choices& c)`. Every random decision is drawn from `c`;
// the recorded sequence of draws *is* the test case: it can be replayed, shrunk (delete /
// zero / minimise draws), or produced by libFuzzer from raw bytes (coverage-guided mode).
// One binary, several modes (see main() at the end); the Python driver run.py orchestrates.
#pragma once

#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define PBT_TSAN 1
#endif

namespace pbt {

struct Failure : std::exception
{
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};

struct Rng // splitmix64 / xoshiro-like, tiny and deterministic
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9e3779b97f4a7c15ull + b + 0x1234567);
    r.next();
    return r.next() ^ b * 0xd6e8feb86659fd93ull;
}

inline std::string quote(std::string_view s)
{
    std::string r = "\"";
    char buf[8];
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            r += '\\';
            r += static_cast<char>(ch);
        }
        else if (ch >= 0x20 && ch < 0x7f)
            r += static_cast<char>(ch);
        else
        {
            std::snprintf(buf, sizeof buf, "\\x%02x", ch);
            r += buf;
        }
    }
    return r + "\"";
}

inline std::string json_quote(std::string_view s)
{
    std::string r = "\"";
    char buf[8];
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            r += '\\';
            r += static_cast<char>(ch);
        }
        else if (ch == '\n')
            r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f)
        {
            std::snprintf(buf, sizeof buf, "\\u%04x", ch);
            r += buf;
        }
        else
            r += static_cast<char>(ch);
    }
    return r + "\"";
}

// Shared recording area: survives a crash of the process that draws.
struct SharedRec
{
    static constexpr size_t cap = 1u << 18;
    volatile uint64_t n;
    uint64_t val[cap];
    uint64_t bound[cap];
};

class Choices
{
public:
    enum class Mode
    {
        random,
        replay,
        bytes
    };

    explicit Choices(uint64_t seed) : mode_(Mode::random), rng_(seed) {}
    explicit Choices(const std::vector<uint64_t>* rep) : mode_(Mode::replay), rng_(0), rep_(rep) {}
    Choices(const uint8_t* d, size_t n) : mode_(Mode::bytes), rng_(0), data_(d), size_(n) {}

    void share(SharedRec* r)
    {
        shared_ = r;
        if (r)
            r->n = 0;
    }

    // Uniform in [0, n); n == 0 means any 64 bit value. 0 is the simplest value.
    uint64_t draw(uint64_t n)
    {
        uint64_t v = 0;
        switch (mode_)
        {
        case Mode::random:
            v = n ? rng_.next() % n : rng_.next();
            break;
        case Mode::replay:
            if (pos_ < rep_->size())
                v = (*rep_)[pos_];
            ++pos_;
            if (n)
                v %= n;
            break;
        case Mode::bytes: {
            size_t w = width(n);
            for (size_t i = 0; i < w && pos_ < size_; ++i)
                v |= static_cast<uint64_t>(data_[pos_++]) << (8 * i);
            if (n)
                v %= n;
            break;
        }
        }
        rec_.push_back(v);
        bounds_.push_back(n);
        if (shared_ && shared_->n < SharedRec::cap)
        {
            shared_->val[shared_->n] = v;
            shared_->bound[shared_->n] = n;
            shared_->n = shared_->n + 1;
        }
        if (rec_.size() > 4'000'000)
            throw std::runtime_error("pbt: runaway generator");
        return v;
    }

    static size_t width(uint64_t n) { return n == 0 || n > 65536 ? 8 : n > 256 ? 2 : 1; }

    bool exhausted() const
    {
        return mode_ == Mode::replay ? pos_ >= rep_->size()
                                     : mode_ == Mode::bytes ? pos_ >= size_ : false;
    }

    // True with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den)
    {
        return draw(den) >= den - num;
    }
    bool flip() { return draw(2) == 1; }

    // Inclusive integer range; shrinks towards lo.
    template <typename T>
    T range(T lo, T hi)
    {
        uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
        return static_cast<T>(static_cast<uint64_t>(lo) + draw(span));
    }
    size_t below(size_t n) { return static_cast<size_t>(draw(n)); }

    // Length in [0, max], biased to small values but reaching max.
    size_t len(size_t max)
    {
        switch (draw(8))
        {
        case 0:
        case 1:
        case 2:
            return below(std::min<size_t>(max, 3) + 1);
        case 3:
        case 4:
            return below(std::min<size_t>(max, 8) + 1);
        case 5:
        case 6:
            return below(std::min<size_t>(max, 24) + 1);
        default:
            return below(max + 1);
        }
    }

    // Continuation flag for sequences; expected length approx. avg.
    bool more(unsigned avg)
    {
        if (exhausted_guard_++ > 100000)
            return false;
        return draw(avg + 1) != 0;
    }

    // Any value of an integral type, biased to interesting spots.
    template <typename T>
    T integer()
    {
        using L = std::numeric_limits<T>;
        if constexpr (std::is_same_v<T, bool>)
            return flip();
        else
        {
            switch (draw(6))
            {
            case 0:
                return static_cast<T>(draw(17));
            case 1:
                return static_cast<T>(0 - draw(17));
            case 2:
                return static_cast<T>(draw(0));
            case 3:
                return static_cast<T>(static_cast<uint64_t>(L::max()) - draw(3));
            case 4:
                return static_cast<T>(static_cast<uint64_t>(L::min()) + draw(3));
            default: {
                uint64_t sh = draw(64);
                uint64_t v = (1ull << sh) + draw(3) - 1;
                return static_cast<T>(v);
            }
            }
        }
    }

    template <typename Vec>
    decltype(auto) pick(Vec&& v)
    {
        return v[below(std::size(v))];
    }

    // Choose an index by weights.
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned total = 0;
        for (auto x : w)
            total += x;
        uint64_t d = draw(total);
        size_t i = 0;
        for (auto x : w)
        {
            if (d < x)
                return i;
            d -= x;
            ++i;
        }
        return 0;
    }

    std::string bytes(size_t max)
    {
        size_t n = len(max);
        std::string s(n, '\0');
        for (auto& ch : s)
            ch = static_cast<char>(draw(256));
        return s;
    }
    // String over an alphabet.
    std::string over(std::string_view alphabet, size_t max)
    {
        size_t n = len(max);
        std::string s(n, alphabet[0]);
        for (auto& ch : s)
            ch = alphabet[below(alphabet.size())];
        return s;
    }

    // --- bookkeeping -----------------------------------------------------------------------
    void nontrivial() { nontrivial_ = true; }
    void label(const char* l) { labels_.insert(l); }
    void label_if(bool b, const char* l)
    {
        if (b)
            labels_.insert(l);
    }

    bool verbose = false;
    std::ostringstream out;
    struct Log
    {
        Choices& c;
        template <typename T>
        Log& operator<<(const T& t)
        {
            if (c.verbose)
                c.out << t;
            return *this;
        }
    };
    Log log() { return Log{*this}; }

    const std::vector<uint64_t>& recorded() const { return rec_; }
    const std::vector<uint64_t>& bounds() const { return bounds_; }
    bool is_nontrivial() const { return nontrivial_; }
    const std::set<const char*>& labels() const { return labels_; }

private:
    Mode mode_;
    Rng rng_;
    const std::vector<uint64_t>* rep_ = nullptr;
    const uint8_t* data_ = nullptr;
    size_t size_ = 0;
    size_t pos_ = 0;
    size_t exhausted_guard_ = 0;
    std::vector<uint64_t> rec_, bounds_;
    SharedRec* shared_ = nullptr;
    bool nontrivial_ = false;
    std::set<const char*> labels_;
};

template <typename A, typename B>
std::string eq_msg(const A& a, const B& b)
{
    std::ostringstream ss;
    ss << "got " << a << ", expected " << b;
    return ss.str();
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define PBT_FAIL(msg)                                                                            \
    do                                                                                           \
    {                                                                                            \
        std::ostringstream pbt_ss_;                                                              \
        pbt_ss_ << "line " PBT_STR(__LINE__) ": " << msg;                                        \
        throw ::pbt::Failure(pbt_ss_.str());                                                     \
    } while (0)
#define PBT_CHECK(cond, msg)                                                                     \
    do                                                                                           \
    {                                                                                            \
        if (!(cond))                                                                             \
            PBT_FAIL("[" #cond "] " << msg);                                                     \
    } while (0)
#define PBT_EQ(got, expected, msg)                                                               \
    do                                                                                           \
    {                                                                                            \
        auto&& pbt_a_ = (got);                                                                   \
        auto&& pbt_b_ = (expected);                                                              \
        if (!(pbt_a_ == pbt_b_))                                                                 \
            PBT_FAIL("[" #got " == " #expected "] " << ::pbt::eq_msg(pbt_a_, pbt_b_) << "; "     \
                                                    << msg);                                     \
    } while (0)

} // namespace pbt

#ifndef PBT_NO_MAIN // defined by additional translation units of a harness
// Provided by each harness.
void property(pbt::Choices& c);
// What makes a case non-trivial; goes in the evidence file.
extern const char* const property_rule;

namespace pbt {

inline bool run_one(Choices& c, std::string* msg)
{
    try
    {
        property(c);
        return true;
    }
    catch (const Failure& f)
    {
        *msg = f.msg;
    }
    catch (const std::exception& e)
    {
        *msg = std::string("unexpected exception escaped: ") + e.what();
    }
    catch (...)
    {
        *msg = "unexpected non-std exception escaped";
    }
    return false;
}

inline std::vector<uint64_t> read_choices(const std::string& path)
{
    std::ifstream f(path);
    std::vector<uint64_t> v;
    uint64_t x;
    while (f >> x)
        v.push_back(x);
    return v;
}

inline void write_choices(const std::string& path, const std::vector<uint64_t>& v)
{
    std::ofstream f(path);
    for (auto x : v)
        f << x << "\n";
}

template <typename T>
T* map_file(const char* path)
{
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(T)) != 0)
    {
        std::perror("map_file");
        std::exit(2);
    }
    void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    return p == MAP_FAILED ? nullptr : static_cast<T*>(p);
}

struct Progress
{
    volatile uint64_t index;
    volatile uint64_t seed;
    volatile uint64_t done;
};

// ---- isolated execution -----------------------------------------------------------------------
enum class Outcome
{
    pass,
    fail,
    crash,
    hang
};

inline Outcome run_isolated(const std::vector<uint64_t>* rep, uint64_t seed, SharedRec* rec,
                            double timeout, std::string* msg, bool keep_stderr)
{
    int pfd[2];
    if (pipe(pfd) != 0)
        std::exit(2);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(pfd[0]);
        if (!keep_stderr)
        {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 2);
            dup2(dn, 1);
        }
        std::string m;
        bool ok;
        if (rep)
        {
            Choices c(rep);
            c.share(rec);
            ok = run_one(c, &m);
        }
        else
        {
            Choices c(seed);
            c.share(rec);
            ok = run_one(c, &m);
        }
        if (!ok)
        {
            ssize_t r = write(pfd[1], m.data(), std::min<size_t>(m.size(), 60000));
            (void)r;
        }
        _exit(ok ? 0 : 11);
    }
    close(pfd[1]);
    auto t0 = std::chrono::steady_clock::now();
    std::string got;
    fcntl(pfd[0], F_SETFL, O_NONBLOCK);
    int st = 0;
    Outcome out;
    useconds_t nap = 200;
    for (;;)
    {
        char buf[4096];
        ssize_t r;
        while ((r = read(pfd[0], buf, sizeof buf)) > 0)
            got.append(buf, static_cast<size_t>(r));
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid)
        {
            while ((r = read(pfd[0], buf, sizeof buf)) > 0)
                got.append(buf, static_cast<size_t>(r));
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                out = Outcome::pass;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 11)
                out = Outcome::fail;
            else
                out = Outcome::crash;
            break;
        }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > timeout)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            out = Outcome::hang;
            break;
        }
        usleep(nap);
        if (nap < 5000)
            nap *= 2;
    }
    close(pfd[0]);
    if (msg)
    {
        if (out == Outcome::fail)
            *msg = got;
        else if (out == Outcome::crash)
            *msg = WIFSIGNALED(st)
                       ? "process killed by signal " + std::to_string(WTERMSIG(st))
                       : "process ended abnormally (sanitizer report), exit status " +
                             std::to_string(WEXITSTATUS(st));
        else if (out == Outcome::hang)
            *msg = "case did not terminate within " + std::to_string(timeout) + " s";
    }
    return out;
}

inline std::vector<uint64_t> rec_vals(SharedRec* r)
{
    return std::vector<uint64_t>(r->val, r->val + r->n);
}

struct Shrinker
{
    SharedRec* rec;
    double deadline_s;
    double case_timeout;
    size_t attempts = 0;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    std::vector<uint64_t> best;
    Outcome kind;
    std::set<std::vector<uint64_t>> seen;

    bool time_left() const
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() <
                   deadline_s &&
               attempts < 6000;
    }

    static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
    {
        return a.size() != b.size() ? a.size() < b.size() : a < b;
    }

    bool attempt(std::vector<uint64_t> cand)
    {
        if (!time_left() || !seen.insert(cand).second)
            return false;
        ++attempts;
        auto o = run_isolated(&cand, 0, rec, case_timeout, nullptr, false);
        if (o != kind)
            return false;
        auto v = rec_vals(rec);
        while (!v.empty() && v.back() == 0)
            v.pop_back();
        if (simpler(v, best))
        {
            best = v;
            return true;
        }
        return false;
    }

    void run()
    {
        bool progress = true;
        while (progress && time_left())
        {
            progress = false;
            for (size_t k = std::max<size_t>(best.size() / 2, 1);; k = k / 2)
            {
                if (k == 0)
                    break;
                for (size_t i = best.size(); i-- > 0 && time_left();)
                {
                    if (i + k > best.size())
                        continue;
                    auto c = best;
                    c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
                    if (attempt(c))
                        progress = true;
                    if (k > 8 && i >= k / 2)
                        i -= k / 2 - 1;
                }
            }
            for (size_t i = 0; i < best.size() && time_left(); ++i)
            {
                if (best[i] == 0)
                    continue;
                auto c = best;
                c[i] = 0;
                if (attempt(c))
                {
                    progress = true;
                    continue;
                }
                // binary search down
                uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
                int steps = 0;
                while (hi - lo > 1 && time_left() && steps++ < 64)
                {
                    uint64_t mid = lo + (hi - lo) / 2;
                    if (i >= best.size())
                        break;
                    c = best;
                    c[i] = mid;
                    if (attempt(c))
                    {
                        progress = true;
                        hi = mid;
                    }
                    else
                        lo = mid;
                }
                // decrement together with deleting something right after (length prefixes)
                for (size_t k = 1; k <= 4 && i < best.size() && best[i] > 0; ++k)
                    for (size_t j = i + 1; j + k <= best.size() && j < i + 40; ++j)
                    {
                        if (!time_left())
                            break;
                        c = best;
                        c[i] -= 1;
                        c.erase(c.begin() + static_cast<long>(j),
                                c.begin() + static_cast<long>(j + k));
                        if (attempt(c))
                        {
                            progress = true;
                            break;
                        }
                    }
            }
        }
    }
};

inline const char* name(Outcome o)
{
    switch (o)
    {
    case Outcome::pass: return "pass";
    case Outcome::fail: return "fail";
    case Outcome::crash: return "crash";
    default: return "hang";
    }
}

inline std::vector<uint8_t> encode(const Choices& c)
{
    std::vector<uint8_t> r;
    for (size_t i = 0; i < c.recorded().size(); ++i)
    {
        auto w = Choices::width(c.bounds()[i]);
        for (size_t k = 0; k < w; ++k)
            r.push_back(static_cast<uint8_t>(c.recorded()[i] >> (8 * k)));
    }
    return r;
}

} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv,
                                   int (*cb)(const uint8_t* data, size_t size));
namespace pbt {
struct FuzzState
{
    SharedRec* rec = nullptr;
    std::string dir;
    uint64_t evals = 0, nontrivial = 0;
    std::unordered_set<uint64_t> hashes;
    void flush()
    {
        std::ofstream f(dir + "/fuzz.json");
        f << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontrivial << "}\n";
        std::ofstream h(dir + "/hashes.bin", std::ios::binary);
        for (auto x : hashes)
            h.write(reinterpret_cast<const char*>(&x), 8);
    }
};
inline FuzzState& fuzz_state()
{
    static FuzzState* s = new FuzzState;
    return *s;
}
inline int fuzz_one(const uint8_t* data, size_t size)
{
    auto& s = fuzz_state();
    Choices c(data, size);
    c.share(s.rec);
    std::string msg;
    bool ok = run_one(c, &msg);
    ++s.evals;
    if (c.is_nontrivial())
    {
        ++s.nontrivial;
        uint64_t h = 0xcbf29ce484222325ull;
        for (auto v : c.recorded())
            h = mix(h, v);
        if (s.hashes.size() < 2'000'000)
            s.hashes.insert(h);
    }
    if (!ok)
    {
        s.flush();
        std::fprintf(stderr, "PBT failure: %s\n", msg.c_str());
        std::abort();
    }
    return 0;
}
} // namespace pbt
#endif

// modes:
//   run SEED WORKER CASES TIME_CAP DIR       random search, in-process
//   shrink (seed S | choices FILE) DIR SECS  isolate, shrink, write DIR/min.choices, min.json
//   replay FILE TIMEOUT                      one isolated run; exit 0 pass, 1 not
//   show FILE                                verbose in-process run
//   fuzz DIR <libFuzzer args...>
int main(int argc, char** argv)
{
    using namespace pbt;
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "run")
    {
        uint64_t seed = std::strtoull(argv[2], nullptr, 10);
        uint64_t worker = std::strtoull(argv[3], nullptr, 10);
        uint64_t cases = std::strtoull(argv[4], nullptr, 10);
        double cap = std::atof(argv[5]);
        std::string dir = argv[6];
        auto* prog = map_file<Progress>((dir + "/progress").c_str());
        auto t0 = std::chrono::steady_clock::now();
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> hashes;
        std::vector<std::string> samples;
        uint64_t evals = 0, nontriv = 0, draws = 0;
        uint64_t next_sample = 8;
        bool failed = false;
        std::string msg;
        size_t corpus = 0;
        for (uint64_t i = 0; i < cases; ++i)
        {
            if ((i & 63) == 0 &&
                std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cap)
                break;
            uint64_t cs = mix(mix(seed, worker + 1), i);
            prog->index = i;
            prog->seed = cs;
            Choices c(cs);
            bool ok = run_one(c, &msg);
            ++evals;
            draws += c.recorded().size();
            for (auto l : c.labels())
                ++labels[l];
            if (c.is_nontrivial())
            {
                ++nontriv;
                uint64_t h = 0xcbf29ce484222325ull;
                for (auto v : c.recorded())
                    h = mix(h, v);
                hashes.insert(h);
            }
            if (!ok)
            {
                failed = true;
                write_choices(dir + "/fail.choices", c.recorded());
                std::ofstream(dir + "/fail.msg") << msg;
                break;
            }
            if (c.is_nontrivial() && samples.size() < 4 && i >= next_sample)
            {
                next_sample = i * 3 + 1;
                auto copy = c.recorded();
                Choices v(&copy);
                v.verbose = true;
                std::string m2;
                run_one(v, &m2);
                samples.push_back(v.out.str().substr(0, 1500));
            }
            if (c.is_nontrivial() && corpus < 40 && c.recorded().size() < 2000)
            {
                auto b = encode(c);
                mkdir((dir + "/corpus").c_str(), 0755);
                std::ofstream f(dir + "/corpus/" + std::to_string(corpus++), std::ios::binary);
                f.write(reinterpret_cast<const char*>(b.data()), static_cast<long>(b.size()));
            }
        }
        prog->done = 1;
        std::ofstream f(dir + "/result.json");
        f << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"draws\":" << draws
          << ",\"rule\":" << json_quote(property_rule) << ",\"labels\":{";
        bool first = true;
        for (auto& [k, v] : labels)
        {
            f << (first ? "" : ",") << json_quote(k) << ":" << v;
            first = false;
        }
        f << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i)
            f << (i ? "," : "") << json_quote(samples[i]);
        f << "]}\n";
        f.close();
        std::ofstream h(dir + "/hashes.bin", std::ios::binary);
        for (auto x : hashes)
            h.write(reinterpret_cast<const char*>(&x), 8);
        h.close();
        std::fflush(nullptr);
        _exit(failed ? 11 : 0);
    }
    if (mode == "shrink")
    {
        std::string what = argv[2], arg = argv[3], dir = argv[4];
        double secs = std::atof(argv[5]);
        double case_timeout = argc > 6 ? std::atof(argv[6]) : 30;
        auto* rec = map_file<SharedRec>((dir + "/rec").c_str());
        std::vector<uint64_t> start;
        std::string msg;
        Outcome o;
        if (what == "seed")
            o = run_isolated(nullptr, std::strtoull(arg.c_str(), nullptr, 10), rec, case_timeout,
                             &msg, false);
        else
        {
            start = read_choices(arg);
            o = run_isolated(&start, 0, rec, case_timeout, &msg, false);
        }
        if (o == Outcome::pass)
        {
            std::printf("not-reproduced\n");
            return 3;
        }
        Shrinker s;
        s.rec = rec;
        s.deadline_s = secs;
        s.case_timeout = o == Outcome::hang ? 10 : case_timeout;
        s.kind = o;
        s.best = rec_vals(rec);
        if (o != Outcome::hang)
            s.run();
        else
        {
            s.deadline_s = std::min(secs, 60.0);
            s.case_timeout = 4;
            auto before = s.best;
            s.run();
            if (run_isolated(&s.best, 0, rec, case_timeout, nullptr, false) != Outcome::hang)
                s.best = before;
        }
        write_choices(dir + "/min.choices", s.best);
        std::string m2;
        run_isolated(&s.best, 0, rec, case_timeout, &m2, false);
        std::ofstream(dir + "/min.msg") << name(o) << ": " << m2;
        std::printf("shrunk to %zu choices in %zu attempts\n", s.best.size(), s.attempts);
        unlink((dir + "/rec").c_str());
        return 0;
    }
    if (mode == "replay")
    {
        auto v = read_choices(argv[2]);
        auto* rec = map_file<SharedRec>((std::string(argv[2]) + ".rec").c_str());
        std::string msg;
        auto o = run_isolated(&v, 0, rec, argc > 3 ? std::atof(argv[3]) : 30, &msg, true);
        unlink((std::string(argv[2]) + ".rec").c_str());
        std::printf("%s %s\n", name(o), msg.c_str());
        return o == Outcome::pass ? 0 : 1;
    }
    if (mode == "show")
    {
        auto v = read_choices(argv[2]);
        Choices c(&v);
        c.verbose = true;
        // Print progressively: the case may crash the process.
        struct Flusher
        {
            Choices& c;
            ~Flusher() { std::cout << c.out.str() << std::flush; }
        } fl{c};
        std::string msg;
        bool ok = run_one(c, &msg);
        c.out << "\n" << (ok ? "PASS" : "FAIL: " + msg) << "\n";
        return 0;
    }
    if (mode == "seedshow")
    {
        Choices c(std::strtoull(argv[2], nullptr, 10));
        c.verbose = true;
        std::string msg;
        bool ok = run_one(c, &msg);
        std::cout << c.out.str() << "\n" << (ok ? "PASS" : "FAIL: " + msg) << "\n";
        return 0;
    }
    if (mode == "dumprec") // convert a shared recording into a choices file
    {
        auto* rec = map_file<SharedRec>(argv[2]);
        write_choices(argv[3], rec_vals(rec));
        return 0;
    }
#ifdef PBT_FUZZ
    if (mode == "fuzz")
    {
        auto& s = fuzz_state();
        s.dir = argv[2];
        s.rec = map_file<SharedRec>((s.dir + "/rec").c_str());
        std::vector<char*> args{argv[0]};
        for (int i = 3; i < argc; ++i)
            args.push_back(argv[i]);
        int ac = static_cast<int>(args.size());
        args.push_back(nullptr);
        char** av = args.data();
        std::atexit([] { fuzz_state().flush(); });
        int rc = LLVMFuzzerRunDriver(&ac, &av, &fuzz_one);
        fuzz_state().flush();
        return rc;
    }
#endif
    std::fprintf(stderr, "usage: %s run|shrink|replay|show|fuzz ...\n", argv[0]);
    return 2;
}
#endif // PBT_NO_MAIN

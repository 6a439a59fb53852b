// Harness core: deterministic per-case PRNG, violation recording, coverage counters, crash/hang attribution.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include <novatel_edie/common/logger.hpp>

namespace vt {

inline uint64_t Mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
inline uint64_t HashBytes(const void* d, size_t n, uint64_t h = 0xcbf29ce484222325ULL)
{
    const auto* p = static_cast<const unsigned char*>(d);
    for (size_t i = 0; i < n; ++i) { h = (h ^ p[i]) * 0x100000001b3ULL; }
    return Mix(h ^ n);
}
inline uint64_t HashStr(std::string_view s) { return HashBytes(s.data(), s.size()); }

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t Next() { return Mix(s += 0x9E3779B97F4A7C15ULL); }
    uint64_t Below(uint64_t n) { return n == 0 ? 0 : Next() % n; }                        // [0,n)
    int64_t Range(int64_t a, int64_t b) { return a + static_cast<int64_t>(Below(static_cast<uint64_t>(b - a) + 1)); } // [a,b]
    bool Chance(double p) { return static_cast<double>(Next() >> 11) * 0x1.0p-53 < p; }
    double Unit() { return static_cast<double>(Next() >> 11) * 0x1.0p-53; }
    template <typename C> auto& Pick(C& c) { return c[Below(c.size())]; }
    template <typename T> T PickOf(std::initializer_list<T> l) { return *(l.begin() + Below(l.size())); }
    // Sizes biased to small and to boundary values.
    uint64_t Size(uint64_t max)
    {
        switch (Below(4))
        {
        case 0: return Below(max + 1);
        case 1: return Below(std::min<uint64_t>(max, 8) + 1);
        case 2: return Below(std::min<uint64_t>(max, 64) + 1);
        default: return max - Below(std::min<uint64_t>(max, 8) + 1);
        }
    }
    std::string Bytes(size_t n)
    {
        std::string r(n, '\0');
        for (auto& c : r) { c = static_cast<char>(Next()); }
        return r;
    }
};

struct Violation : std::exception
{
    std::string key, msg;
    Violation(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};

struct State
{
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, std::vector<std::pair<uint64_t, std::string>>> violations; // key -> (case, msg)
    uint64_t evaluations = 0;
    std::string suite;
    uint64_t seed = 1, caseId = 0;
    bool verbose = false;
    volatile uint64_t* mark = nullptr;
    uint64_t maxDistinct = 4000000;
};
inline State& S()
{
    static State s;
    return s;
}

inline std::string Hex(std::string_view b, size_t max = 400)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < b.size() && i < max; ++i)
    {
        r += d[static_cast<unsigned char>(b[i]) >> 4];
        r += d[b[i] & 15];
    }
    if (b.size() > max) { r += "...(" + std::to_string(b.size()) + " bytes)"; }
    return r;
}
inline std::string Esc(std::string_view b, size_t max = 600)
{
    std::string r;
    char t[8];
    for (size_t i = 0; i < b.size() && i < max; ++i)
    {
        auto c = static_cast<unsigned char>(b[i]);
        if (c == '\\') { r += "\\\\"; }
        else if (c == '\n') { r += "\\n"; }
        else if (c == '\r') { r += "\\r"; }
        else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\x%02x", c); r += t; }
        else { r += static_cast<char>(c); }
    }
    if (b.size() > max) { r += "...(" + std::to_string(b.size()) + " bytes)"; }
    return r;
}

inline void Count(const std::string& name, uint64_t n = 1) { S().counters[name] += n; }
//! One evaluation of the oracle on a non-trivial, content-hashed case.
inline void Eval(uint64_t n = 1) { S().evaluations += n; }
inline void Distinct(uint64_t h)
{
    if (S().distinct.size() < S().maxDistinct) { S().distinct.insert(h); }
}
inline void Sample(const std::string& s)
{
    if (S().samples.size() < 5) { S().samples.push_back(s.substr(0, 900)); }
}
[[noreturn]] inline void Fail(const std::string& key, const std::string& msg) { throw Violation(key, msg); }
inline void Record(const std::string& key, const std::string& msg)
{
    auto& v = S().violations[key];
    if (v.size() < 3) { v.emplace_back(S().caseId, msg); }
    if (S().verbose) { fprintf(stderr, "violation %s (case %llu): %s\n", key.c_str(), static_cast<unsigned long long>(S().caseId), msg.c_str()); }
}

struct MsgStream
{
    std::ostringstream o;
    template <typename T> MsgStream& operator<<(const T& t) { o << t; return *this; }
    operator std::string() const { return o.str(); }
};
#define VT_CHECK(cond, key, msg)                                                                                                                     \
    do {                                                                                                                                             \
        if (!(cond)) { ::vt::Fail(key, (::vt::MsgStream() << msg << "  [" #cond "]").o.str()); }                                                     \
    } while (0)

using SuiteFn = std::function<void(Rng&)>;
struct Suite { SuiteFn fn; };
inline std::map<std::string, Suite>& Suites()
{
    static std::map<std::string, Suite> m;
    return m;
}
struct Reg { Reg(const char* n, SuiteFn f) { Suites()[n] = Suite{std::move(f)}; } };
#define VT_SUITE(name)                                                                                                                               \
    static void Suite_##name(::vt::Rng& rng);                                                                                                        \
    static ::vt::Reg reg_##name(#name, Suite_##name);                                                                                                \
    static void Suite_##name(::vt::Rng& rng)

inline void JStr(FILE* f, std::string_view s)
{
    fputc('"', f);
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { fprintf(f, "\\%c", c); }
        else if (c < 32 || c > 126) { fprintf(f, "\\u%04x", c); }
        else { fputc(c, f); }
    }
    fputc('"', f);
}
inline void Dump(const char* path)
{
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); _exit(3); }
    fprintf(f, "{\"evaluations\":%llu,\"counters\":{", static_cast<unsigned long long>(S().evaluations));
    bool first = true;
    for (auto& [k, v] : S().counters) { fprintf(f, first ? "" : ","); first = false; JStr(f, k); fprintf(f, ":%llu", static_cast<unsigned long long>(v)); }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : S().samples) { fprintf(f, first ? "" : ","); first = false; JStr(f, s); }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& [k, l] : S().violations)
    {
        for (auto& [c, m] : l)
        {
            fprintf(f, first ? "" : ",");
            first = false;
            fprintf(f, "{\"key\":");
            JStr(f, k);
            fprintf(f, ",\"case\":%llu,\"msg\":", static_cast<unsigned long long>(c));
            JStr(f, m.substr(0, 4000));
            fprintf(f, "}");
        }
    }
    fprintf(f, "],\"distinct\":%llu}\n", static_cast<unsigned long long>(S().distinct.size()));
    fclose(f);
    // hashes go to a side file so that the driver can count distinct cases over all shards
    std::string hp = std::string(path) + ".hashes";
    f = fopen(hp.c_str(), "wb");
    if (f)
    {
        for (uint64_t h : S().distinct) { fwrite(&h, 8, 1, f); }
        fclose(f);
    }
}

inline void OnHang(int)
{
    static const char m[] = "VT-HANG: case exceeded its CPU budget\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(77);
}

inline int Main(int argc, char** argv)
{
    std::string suite, out, markPath;
    uint64_t from = 0, count = 1;
    unsigned cpu = 20;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--suite") { suite = argv[i + 1]; }
        else if (a == "--seed") { S().seed = strtoull(argv[i + 1], nullptr, 10); }
        else if (a == "--from") { from = strtoull(argv[i + 1], nullptr, 10); }
        else if (a == "--count") { count = strtoull(argv[i + 1], nullptr, 10); }
        else if (a == "--out") { out = argv[i + 1]; }
        else if (a == "--mark") { markPath = argv[i + 1]; }
        else if (a == "--cpu") { cpu = static_cast<unsigned>(atoi(argv[i + 1])); }
        else if (a == "--verbose") { S().verbose = atoi(argv[i + 1]) != 0; }
    }
    auto it = Suites().find(suite);
    if (it == Suites().end())
    {
        fprintf(stderr, "unknown suite '%s'; have:", suite.c_str());
        for (auto& [k, v] : Suites()) { fprintf(stderr, " %s", k.c_str()); }
        fprintf(stderr, "\n");
        return 3;
    }
    S().suite = suite;
    static uint64_t dummy;
    S().mark = &dummy;
    if (!markPath.empty())
    {
        int fd = open(markPath.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 8) != 0) { perror("mark"); return 3; }
        S().mark = static_cast<uint64_t*>(mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
    signal(SIGVTALRM, OnHang);
    // The library logs warnings on malformed input; keep the sinks quiet (the calls themselves still run).
    {
        auto sink = std::make_shared<spdlog::logger>("root");
        spdlog::register_logger(sink);
        sink->set_level(spdlog::level::off);
        spdlog::set_level(spdlog::level::off);
    }
    for (uint64_t c = from; c < from + count; ++c)
    {
        *S().mark = c;
        S().caseId = c;
        itimerval tv{};
        tv.it_value.tv_sec = cpu;
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        Rng rng(Mix(S().seed * 0x1000193ULL) ^ Mix(HashStr(suite) + c));
        try
        {
            it->second.fn(rng);
        }
        catch (const Violation& v)
        {
            Record(v.key, v.msg);
        }
        catch (const std::exception& e)
        {
            Record("escaped-exception:" + std::string(typeid(e).name()), e.what());
        }
        catch (...)
        {
            Record("escaped-exception:unknown", "non-std exception");
        }
        if (S().violations.size() > 40) { break; }
    }
    *S().mark = ~0ULL;
    itimerval tv{};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    if (!out.empty()) { Dump(out.c_str()); }
    if (S().verbose)
    {
        fprintf(stderr, "evals %llu distinct %zu violations %zu\n", static_cast<unsigned long long>(S().evaluations), S().distinct.size(), S().violations.size());
        for (auto& [k, v] : S().counters) { fprintf(stderr, "  %-50s %llu\n", k.c_str(), static_cast<unsigned long long>(v)); }
    }
    fflush(nullptr);
    // Skip static destruction: spdlog's registry teardown order is not what is under test here.
    _exit(0);
}
} // namespace vt

#ifdef VT_NO_MAIN
#define VT_MAIN()
#else
#define VT_MAIN()                                                                                                                                    \
    int main(int argc, char** argv) { return ::vt::Main(argc, argv); }
#endif

// Core of the monitors: deterministic randomness, the case loop, violation reports,
// counters of what was observed, and the hang watchdog.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vz {

enum Exit { kOk = 0, kViolation = 41, kHang = 42, kHarness = 43 };

// ---------------------------------------------------------------- randomness
inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    auto* b = static_cast<const uint8_t*>(p);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; std::memcpy(&w, b + i, 8); h = mix(h ^ w); }
    for (; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
    return mix(h ^ n);
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 1) { return hash_bytes(s.data(), s.size(), h); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned percent) { return below(100) < percent; }
    bool one_in(uint64_t n) { return below(n) == 0; }
    template<class C> auto& pick(C& c) { return c[below(std::size(c))]; }
    template<class T> T of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    uint64_t bits() { unsigned w = unsigned(range(1, 64)); uint64_t v = next(); return w == 64 ? v : v & ((1ull << w) - 1); }
};

// ---------------------------------------------------------------- run state
struct Counter { std::string name; std::atomic<uint64_t> v{0}; };
struct Shared { volatile uint64_t current; volatile char note[2040]; };

struct Run {
    uint64_t seed = 1, start = 0, step = 1, count = 0;
    bool thorough = false, single = false, verbose = false;
    std::string out, cur;
    Shared* sh = nullptr;
    std::atomic<uint64_t> current{~0ull};
    std::map<std::string, std::unique_ptr<Counter>, std::less<>> counters;
    std::unordered_set<uint64_t> distinct;
    uint64_t evaluations = 0;
    std::vector<std::string> samples;
    int hang_cpu_s = 20;
    double total_ms = 0, slow_ms = 0; uint64_t slow_case = 0;
};
inline Run& run() { static Run* r = new Run; return *r; }

inline std::atomic<uint64_t>& counter(std::string_view n) {
    static std::mutex* mu = new std::mutex; std::lock_guard<std::mutex> lock(*mu);
    auto& m = run().counters;
    auto it = m.find(n);
    if (it == m.end()) { auto c = std::make_unique<Counter>(); c->name = n; it = m.emplace(std::string(n), std::move(c)).first; }
    return it->second->v;
}
// Static counter at a call site. Not for names computed at run time.
#define CNT(name) (*[]{ static std::atomic<uint64_t>* c = &::vz::counter(name); return c; }())
// Counter with a computed name; only from the main thread.
inline void count(std::string_view n, uint64_t k = 1) { counter(n) += k; }

inline std::string fmt(const char* f, ...) {
    char b[2048]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return std::string(b, size_t(std::min<int>(n < 0 ? 0 : n, int(sizeof b) - 1)));
}
inline std::string show(std::string_view s, size_t max = 48) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') o += char(c); else o += fmt("\\x%02x", c);
    }
    o += '"';
    if (s.size() > max) o += fmt("...(%zu bytes)", s.size());
    return o;
}
inline std::string hex(std::span<const uint8_t> b, size_t max = 96) {
    std::string o; for (size_t i = 0; i < b.size() && i < max; ++i) o += fmt("%02x", b[i]);
    if (b.size() > max) o += fmt("...(%zu bytes)", b.size());
    return o;
}

inline void raw_write(const char* s, size_t n) { while (n) { ssize_t k = ::write(2, s, n); if (k <= 0) return; s += k; n -= size_t(k); } }

// A note kept in shared memory, so that a crash can be reported with what was going on.
inline void note(std::string_view s) {
    auto* sh = run().sh; if (!sh) return;
    size_t n = std::min(s.size(), sizeof(sh->note) - 1);
    for (size_t i = 0; i < n; ++i) sh->note[i] = s[i];
    sh->note[n] = 0;
}

// The oracle said no: report and stop this process at once (no unwinding through code
// under test, which could swallow it).
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) {
    std::string line = "VZ-VIOLATION case=" + std::to_string(run().current.load()) + " key=" + key + " :: " + msg + "\n";
    for (auto& c : line) if (c == '\n' && &c != &line.back()) c = ' ';
    raw_write(line.data(), line.size());
    _exit(kViolation);
}
[[noreturn]] inline void harness_error(const std::string& msg) {
    std::string line = "VZ-HARNESS case=" + std::to_string(run().current.load()) + " :: " + msg + "\n";
    raw_write(line.data(), line.size());
    _exit(kHarness);
}
#define REQUIRE(cond, key, ...) do { if (!(cond)) ::vz::fail(key, ::vz::fmt(__VA_ARGS__)); } while (0)

inline std::string what_of(std::exception_ptr e) {
    try { std::rethrow_exception(e); }
    catch (const std::exception& x) { return x.what(); }
    catch (...) { return "(not a std::exception)"; }
}

inline void sample(const std::string& s) {
    auto& v = run().samples; if (v.size() < 4) v.push_back(s.size() > 600 ? s.substr(0, 600) + "..." : s);
}
// Every case says what it was (a digest of its input) and whether it was non-trivial.
inline void covered(uint64_t digest, bool nontrivial) { if (nontrivial) run().distinct.insert(digest); }

// ---------------------------------------------------------------- hang watchdog
// CPU time, not wall time. The driver repeats a hung case alone with a larger limit.
inline std::atomic<uint64_t> g_wd_case{~0ull}; inline std::atomic<int> g_wd_ticks{0};
inline void wd_handler(int) {
    uint64_t c = run().current.load(std::memory_order_relaxed);
    if (c != g_wd_case.load(std::memory_order_relaxed)) { g_wd_case = c; g_wd_ticks = 0; return; }
    if (++g_wd_ticks >= run().hang_cpu_s) {
        static const char m[] = "VZ-HANG\n"; raw_write(m, sizeof m - 1); _exit(kHang);
    }
}

inline std::string jesc(std::string_view s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c); else o += char(c); }
    return o;
}

// ---------------------------------------------------------------- main loop
using CaseFn = void (*)(uint64_t index, Rng& rng);

inline int main_loop(int argc, char** argv, const char* part, CaseFn fn, void (*at_end)() = nullptr) {
    auto& r = run();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i]; const char* v = argv[i + 1];
        if (a == "--seed") r.seed = strtoull(v, nullptr, 10);
        else if (a == "--start") r.start = strtoull(v, nullptr, 10);
        else if (a == "--step") r.step = strtoull(v, nullptr, 10);
        else if (a == "--count") r.count = strtoull(v, nullptr, 10);
        else if (a == "--out") r.out = v;
        else if (a == "--cur") r.cur = v;
        else if (a == "--hang") r.hang_cpu_s = atoi(v);
        else if (a == "--tier") r.thorough = std::string(v) == "thorough";
        else if (a == "--verbose") r.verbose = atoi(v) != 0;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return kHarness; }
    }
    if (!r.cur.empty()) {
        int fd = open(r.cur.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return kHarness;
        r.sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
        if (r.sh == MAP_FAILED) return kHarness;
        r.sh->current = ~0ull;
    }
    struct sigaction sa{}; sa.sa_handler = wd_handler; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);

    for (uint64_t i = r.start; i < r.count; i += r.step) {
        r.current = i;
        if (r.sh) { r.sh->current = i; r.sh->note[0] = 0; }
        Rng rng(mix(r.seed) ^ mix(hash_str(part)) ^ mix(i * 0x2545F4914F6CDD1Dull + 7));
        if (r.verbose) fprintf(stderr, "case %llu\n", (unsigned long long)i);
        timespec t0; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
        try { fn(i, rng); }
        catch (...) { fail("escaped-exception", "exception escaped the case: " + what_of(std::current_exception())); }
        ++r.evaluations;
        timespec t1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
        double ms = double(t1.tv_sec - t0.tv_sec) * 1e3 + double(t1.tv_nsec - t0.tv_nsec) / 1e6;
        r.total_ms += ms; if (ms > r.slow_ms) { r.slow_ms = ms; r.slow_case = i; }
    }
    r.current = ~0ull;
    itimerval off{}; setitimer(ITIMER_PROF, &off, nullptr);
    if (at_end) at_end();
    if (!r.out.empty()) {
        FILE* f = fopen(r.out.c_str(), "w"); if (!f) return kHarness;
        fprintf(f, "{\"evaluations\": %llu, \"counters\": {", (unsigned long long)r.evaluations);
        bool first = true;
        for (auto& [k, c] : r.counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k).c_str(), (unsigned long long)c->v.load()); first = false; }
        fprintf(f, "}, \"samples\": [");
        first = true;
        for (auto& s : r.samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(s).c_str()); first = false; }
        fprintf(f, "], \"total_ms\": %.0f, \"slow_ms\": %.0f, \"slow_case\": %llu}\n", r.total_ms, r.slow_ms, (unsigned long long)r.slow_case);
        if (fclose(f) != 0) return kHarness;
        f = fopen((r.out + ".dig").c_str(), "wb"); if (!f) return kHarness;
        for (uint64_t d : r.distinct) fwrite(&d, 8, 1, f);
        if (fclose(f) != 0) return kHarness;
    }
    return kOk;
}

} // namespace vz

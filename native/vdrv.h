// replay / counterexample search support: small deterministic PRNG and reporting
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <chrono>
#include <functional>
#include <memory>
struct vdrv {
    std::uint64_t s; double secs; std::string mode; std::uint64_t evals{};
    std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};
    vdrv(int argc, char** argv) {
        mode = argc > 1 ? argv[1] : "search";
        s = argc > 2 ? strtoull(argv[2], nullptr, 10) * 0x9E3779B97F4A7C15ULL + 12345 : 1;
        secs = argc > 3 ? atof(argv[3]) : 4;
    }
    std::uint64_t next() { s += 0x9E3779B97F4A7C15ULL; std::uint64_t z = s; z = (z ^ (z >> 30U)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27U)) * 0x94D049BB133111EBULL; return z ^ (z >> 31U); }
    std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
    bool coin() { return (next() & 1U) != 0; }
    bool running() { ++evals; return (evals & 63U) != 0 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; }
    static std::string hex(std::string_view v) { std::string r; char b[4]; for (unsigned char c : v) { snprintf(b, 4, "%02x", c); r += b; } return r; }
    [[noreturn]] void fail(std::string const& what) { printf("FAIL %s\n", what.c_str()); fflush(stdout); _Exit(1); }
    void check(bool ok, std::string const& what) { if (!ok) fail(what); }
    // remembered for crash reports
    void input(std::string const& what) { last() = what; }
    static std::string& last() { static std::string l; return l; }
    int done() { printf("STAT evals=%llu\n", (unsigned long long)evals); return 0; }
    std::string bytes(std::size_t max, std::string_view alphabet = {}) {
        std::size_t n = below(max + 1); std::string r(n, '\0');
        for (auto& c : r) c = alphabet.empty() || below(8) == 0 ? static_cast<char>(next()) : alphabet[below(alphabet.size())];
        return r;
    }
    // value biased to boundaries
    std::uint64_t edge64() {
        switch (below(6)) {
            case 0: return next();
            case 1: return next() >> below(64);
            case 2: { std::uint64_t b = std::uint64_t{1} << below(64); return b + below(3) - 1; }
            case 3: return ~std::uint64_t{0} - below(40);
            case 4: return below(70);
            default: { std::uint64_t b = ~std::uint64_t{0} << below(64); return b + below(3) - 1; }
        }
    }
};
// exact-size heap copy so that the sanitizer sees out-of-bounds reads of a view
struct exact_view {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit exact_view(std::string_view v) : p(new char[v.size()]), n(v.size()) { if (n) std::memcpy(p.get(), v.data(), n); }
    std::string_view get() const { return {p.get(), n}; }
};
#include <csignal>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void vdrv_report() { std::string l = "FAIL crash/sanitizer input=" + vdrv::last() + "\n"; (void)!write(1, l.data(), l.size()); }
inline void vdrv_sig(int) { vdrv_report(); _exit(1); }
// abort/timeouts: report the last input
inline void vdrv_install() {
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vdrv_report);
    signal(SIGABRT, vdrv_sig); signal(SIGALRM, vdrv_sig);
}
inline void vdrv_watch(unsigned s) { alarm(s); }

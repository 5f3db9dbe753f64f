#include "vdrv.h"
#include <jogasaki/utils/utf8_utils.h>
using namespace jogasaki::utils;
static std::size_t step(std::string_view v, std::size_t i) {
    if (i >= v.size()) return 0;
    auto b = [&](std::size_t k) { return static_cast<unsigned char>(v[i + k]); };
    auto c = [&](std::size_t k) { return (b(k) >> 6) == 2; };
    std::size_t left = v.size() - i;
    if (b(0) < 0x80) return 1;
    if (b(0) >= 0xc2 && b(0) <= 0xdf) return left >= 2 && c(1) ? 2 : 0;
    if (b(0) >= 0xe0 && b(0) <= 0xef) return left >= 3 && c(1) && c(2) ? 3 : 0;
    if (b(0) >= 0xf0 && b(0) <= 0xf4) return left >= 4 && c(1) && c(2) && c(3) ? 4 : 0;
    return 0;
}
static void one(vdrv& d, std::string const& s) {
    d.input(vdrv::hex(s));
    vdrv_watch(20);
    exact_view x(s); auto v = x.get();
    bool ok = true;
    for (std::size_t i = 0; i < v.size();) { auto k = step(v, i); if (k == 0) { ok = false; break; } i += k; }
    d.check(is_valid_utf8(v) == ok, "is_valid_utf8(" + vdrv::hex(s) + ") != " + (ok ? "true" : "false"));
    for (std::size_t i = 0; i <= v.size() + 1; ++i) {
        auto e = detect_next_encoding(v, i);
        auto k = step(v, i);
        d.check(get_byte(e) == k, "detect_next_encoding(" + vdrv::hex(s) + "," + std::to_string(i) + ") length " + std::to_string(get_byte(e)) + " expected " + std::to_string(k));
    }
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    static const unsigned char B[] = {0, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xd0, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff};
    const int K = sizeof B;
    for (int a = 0; a < 256; ++a) { one(d, std::string(1, char(a))); for (int b = 0; b < 256; ++b) one(d, std::string{char(a), char(b)}); }
    for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int c = 0; c < K; ++c) one(d, std::string{char(B[a]), char(B[b]), char(B[c])});
    std::string alpha(reinterpret_cast<char const*>(B), K);
    while (d.running()) {
        std::string s;
        std::size_t n = d.below(d.below(20) == 0 ? 300 : 12);
        while (s.size() < n) {
            switch (d.below(5)) {
                case 0: s += char(d.below(128)); break;
                case 1: s += char(0xc2 + d.below(30)); s += char(0x80 + d.below(64)); break;
                case 2: s += char(0xe0 + d.below(16)); s += char(0x80 + d.below(64)); s += char(0x80 + d.below(64)); break;
                case 3: s += char(0xf0 + d.below(5)); for (int i = 0; i < 3; ++i) s += char(0x80 + d.below(64)); break;
                default: if (d.below(6) == 0) s += alpha[d.below(K)]; break;
            }
        }
        if (d.below(3) == 0 && !s.empty()) s.resize(d.below(s.size()) + 1);
        if (d.below(3) == 0 && !s.empty()) s[d.below(s.size())] = alpha[d.below(K)];
        one(d, s);
    }
    return d.done();
}

#include "vdrv.h"
#include <jogasaki/utils/sanitize_utf8.h>
#include <jogasaki/utils/convert_control_characters.h>
using namespace jogasaki::utils;
static std::size_t wf(std::string_view v, std::size_t i, std::uint32_t& cp) {
    auto u = [&](std::size_t k) { return static_cast<unsigned char>(v[i + k]); };
    std::size_t left = v.size() - i;
    std::uint32_t b = u(0);
    std::size_t len = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
    if (len == 0 || left < len) return 0;
    cp = len == 1 ? b : len == 2 ? (b & 31U) : len == 3 ? (b & 15U) : (b & 7U);
    for (std::size_t k = 1; k < len; ++k) { if ((u(k) >> 6) != 2) return 0; cp = (cp << 6U) | (u(k) & 63U); }
    static const std::uint32_t lo[] = {0, 0, 0x80, 0x800, 0x10000};
    if (cp < lo[len] || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) return 0;
    return len;
}
static std::string oracle(std::string_view v) {
    std::string r;
    auto esc = [&](unsigned char c) { char b[8]; snprintf(b, 8, "\\x{%02x}", c); r += b; };
    for (std::size_t i = 0; i < v.size();) {
        std::uint32_t cp{}; auto k = wf(v, i, cp);
        if (k == 0) { esc(v[i]); ++i; continue; }
        bool ctl = cp < 0x20 || cp == 0x7f || (cp >= 0x80 && cp < 0xa0);
        for (std::size_t j = 0; j < k; ++j) { if (ctl) esc(v[i + j]); else r += v[i + j]; }
        i += k;
    }
    return r;
}
static std::string oracle2(std::string_view v) {
    std::string r;
    for (unsigned char c : v) { if (c >= 0x80) continue; r += c < 0x20 ? '!' : char(c); }
    return r;
}
static void one(vdrv& d, std::string const& s) {
    d.input(vdrv::hex(s)); vdrv_watch(20);
    exact_view x(s);
    auto a = sanitize_utf8(x.get());
    d.check(a == oracle(s), "sanitize_utf8(" + vdrv::hex(s) + ") = \"" + a + "\" expected \"" + oracle(s) + "\"");
    auto b = convert_control_characters(x.get());
    d.check(b == oracle2(s), "convert_control_characters(" + vdrv::hex(s) + ") = \"" + b + "\" expected \"" + oracle2(s) + "\"");
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    static const unsigned char B[] = {0, 0x1f, 0x20, 0x41, 0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xff};
    const int K = sizeof B;
    one(d, "");
    for (int a = 0; a < 256; ++a) { one(d, std::string(1, char(a))); for (int b = 0; b < 256; b += 1) if (a >= 0xc0 || b % 5 == 0) one(d, std::string{char(a), char(b)}); }
    for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int c = 0; c < K; ++c) one(d, std::string{char(B[a]), char(B[b]), char(B[c])});
    for (int c = 0; c < 4; ++c) for (int b = 0; b < 256; ++b) for (int a = 0xe0; a < 0xf8; ++a) one(d, std::string{char(a), char(b), char(B[c * 3 + 6]), char(0x80 + c * 21)});
    while (d.running()) {
        std::string s; std::size_t n = d.below(d.below(20) == 0 ? 400 : 16);
        while (s.size() < n) {
            switch (d.below(6)) {
                case 0: s += char(d.below(128)); break;
                case 1: s += char(0xc2 + d.below(30)); s += char(0x80 + d.below(64)); break;
                case 2: s += char(0xe0 + d.below(16)); s += char(0x80 + d.below(64)); s += char(0x80 + d.below(64)); break;
                case 3: s += char(0xf0 + d.below(5)); for (int i = 0; i < 3; ++i) s += char(0x80 + d.below(64)); break;
                default: if (d.below(6) == 0) s += char(B[d.below(K)]); break;
            }
        }
        if (d.below(3) == 0 && !s.empty()) s.resize(d.below(s.size()) + 1);
        if (d.below(3) == 0 && !s.empty()) s[d.below(s.size())] = char(B[d.below(K)]);
        one(d, s);
    }
    return d.done();
}

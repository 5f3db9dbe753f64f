#include "vdrv.h"
#include <jogasaki/utils/base64_utils.h>
using namespace jogasaki::utils;
static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(std::string const& s) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); i += 3) {
        unsigned a = (unsigned char)s[i], b = i + 1 < s.size() ? (unsigned char)s[i + 1] : 0, c = i + 2 < s.size() ? (unsigned char)s[i + 2] : 0;
        r += T[a >> 2]; r += T[((a & 3) << 4) | (b >> 4)];
        r += i + 1 < s.size() ? T[((b & 15) << 2) | (c >> 6)] : '=';
        r += i + 2 < s.size() ? T[c & 63] : '=';
    }
    return r;
}
static bool wf(std::string const& s) {
    if (s.empty() || s.size() % 4) return false;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (std::strchr(T, s[i]) && s[i]) continue;
        if (s[i] == '=' && (i + 1 == s.size() || (i + 2 == s.size() && s.back() == '='))) continue;
        return false;
    }
    return true;
}
static std::string dec(std::string const& s) {
    std::string r; unsigned long long acc = 0; int bits = 0;
    for (char c : s) { if (c == '=') break; acc = (acc << 6) | (std::strchr(T, c) - T); bits += 6; if (bits >= 8) { bits -= 8; r += char(acc >> bits); acc &= (1ULL << bits) - 1; } }
    return r;
}
static void one(vdrv& d, std::string const& s) {
    d.input(vdrv::hex(s)); vdrv_watch(20);
    exact_view x(s);
    auto e = encode_base64(x.get());
    d.check(e == enc(s), "encode_base64(" + vdrv::hex(s) + ") = " + e + " expected " + enc(s));
    exact_view y(e);
    d.check(is_base64(y.get()) == !s.empty(), "is_base64(" + e + ")");
    auto b = decode_base64(y.get());
    d.check(b == s, "decode_base64(" + e + ") = " + vdrv::hex(b) + " expected " + vdrv::hex(s));
    d.check(is_base64(x.get()) == wf(s), "is_base64(" + vdrv::hex(s) + ") expected " + std::to_string(wf(s)));
    if (s.substr(0, s.find('=')).find_first_not_of(T) == std::string::npos) d.check(decode_base64(x.get()) == dec(s), "decode_base64(" + s + ")");
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    one(d, "");
    for (int a = 0; a < 256; ++a) { one(d, std::string(1, char(a))); for (int b = 0; b < 256; ++b) one(d, std::string{char(a), char(b)}); }
    for (int a = 0; a < 256; ++a) for (int p = 0; p < 3; ++p) for (int q = 0; q < 8; ++q) { std::string s(3 + q % 4, char(0x5a + q)); s[p] = char(a); one(d, s); }
    for (int a = 0; a < 256; ++a) for (int p = 0; p < 8; ++p) for (int e = 0; e < 3; ++e) { std::string s("QUJDREVG"); if (e) s[7] = '='; if (e > 1) s[6] = '='; s[p] = char(a); one(d, s); }
    std::string al = std::string(T) + "===";
    while (d.running()) {
        one(d, d.bytes(d.below(10) == 0 ? 600 : 20));
        std::string s = d.bytes(0); std::size_t n = 4 * (1 + d.below(6));
        while (s.size() < n) s += al[d.below(al.size() - 3)];
        for (int k = d.below(4); k-- > 0;) s[d.below(6) ? n - 1 - d.below(3) : d.below(n)] = '=';
        if (d.below(4) == 0) s[d.below(n)] = char(d.next());
        if (d.below(4) == 0) s[d.below(n)] = '=';
        if (d.below(6) == 0) s.resize(d.below(n));
        one(d, s);
    }
    return d.done();
}

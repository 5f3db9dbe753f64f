#include "vdrv.h"
#include <jogasaki/utils/hex_to_octet.h>
using namespace jogasaki::utils;
static int dv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void one(vdrv& d, std::string const& s, std::string const& init) {
    d.input(s + " / initial out " + vdrv::hex(init)); vdrv_watch(20);
    bool ok = s.size() % 2 == 0; std::string r;
    for (std::size_t i = 0; ok && i + 1 < s.size(); i += 2) { if (dv(s[i]) < 0 || dv(s[i + 1]) < 0) ok = false; else r += char(dv(s[i]) * 16 + dv(s[i + 1])); }
    exact_view x(s); std::string out = init;
    bool a = hex_to_octet(x.get(), out);
    d.check(a == ok, "hex_to_octet(bytes " + vdrv::hex(s) + ") accepted=" + std::to_string(a) + " expected " + std::to_string(ok));
    if (ok) d.check(out == r, "hex_to_octet(" + s + ") = " + vdrv::hex(out) + " expected " + vdrv::hex(r));
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    one(d, "", "x");
    for (int a = 0; a < 256; ++a) { one(d, std::string(1, char(a)), ""); for (int b = 0; b < 256; ++b) one(d, std::string{char(a), char(b)}, "zzz"); }
    static const std::string H = "0123456789abcdefABCDEF";
    while (d.running()) {
        std::string s; std::size_t n = d.below(d.below(10) == 0 ? 400 : 20);
        while (s.size() < n) s += H[d.below(H.size())];
        if (d.below(3) == 0 && n) s[d.below(n)] = char(d.next());
        if (d.below(3) == 0 && n) s[d.below(2) ? n - 1 : 0] = "/:@G`g"[d.below(6)];
        one(d, s, d.bytes(30));
    }
    return d.done();
}

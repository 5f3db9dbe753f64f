// result set serialization: encode and decode every entry kind; oracle written from docs/data-serde-ja.md
#include <stdexcept>
#include "vdrv.h"
#include "../contracts/clients/stubs.inc"
#include "../contracts/clients/value_io.cpp"
using s128 = __int128; using u128 = unsigned __int128;
static char const* names[] = {"type", "end", "null", "int", "float4", "float8", "decimal", "character", "octet", "date", "tod", "todo", "tp", "tpo", "array", "row", "blob", "clob", "uint", "sint"};
using rfn = void (*)(r_out*, char const*, std::size_t);
static rfn const readers[] = {r_type, r_end, r_null, r_int, r_float4, r_float8, r_decimal, r_character, r_octet, r_date, r_tod, r_todo, r_tp, r_tpo, r_array, r_row, r_blob, r_clob};
static std::string be(u128 v, int n) { std::string r; for (int i = n - 1; i >= 0; --i) r += i > 15 ? '\0' : char(v >> (8 * i)); return r; }
static std::string enc_u(std::uint64_t v) { std::string r; for (int i = 0; i < 8; ++i) { if (v < 0x80) return r + char(v); r += char(0x80 | (v & 0x7f)); v >>= 7; } return r + char(v); }
static std::string enc_s(std::int64_t v) { return enc_u(v < 0 ? ~((std::uint64_t)v << 1) : (std::uint64_t)v << 1); }
static std::string ch(unsigned v) { return std::string(1, (char)v); }
struct val { int kind{}; std::uint64_t a{}, b{}, c{}; int sign{}, exp{}; std::string s; bool nan17{};
    std::string str() const { return std::string(names[kind]) + " a=" + std::to_string(a) + " b=" + std::to_string(b) + " c=" + std::to_string(c) + " sign=" + std::to_string(sign) + " exp=" + std::to_string(exp) + " s=" + vdrv::hex(s); } };
static std::string enc_int(std::int64_t v) { if (v >= 0 && v <= 63) return ch(v); if (v < 0 && v >= -16) return ch(0xd0 + v); return ch(0xe9) + enc_s(v); }
static std::string enc_decimal(val const& x) {
    u128 m = (u128)x.a << 64 | x.b; bool neg = x.sign < 0 && m; u128 lo = neg ? -m : m; unsigned char top = neg ? 0xff : 0;
    std::string full = ch(top) + be(lo, 16); std::size_t k = 0;
    while (k < 16 && (unsigned char)full[k] == ((full[k + 1] & 0x80) ? 0xff : 0)) ++k;
    full = full.substr(k);
    if (full.size() <= 8) { std::int64_t c = (std::int64_t)(std::uint64_t)lo; return x.exp == 0 ? enc_int(c) : ch(0xec) + enc_s(x.exp) + enc_s(c); }
    return ch(0xed) + enc_s(x.exp) + enc_u(full.size()) + full;
}
static std::string expect(val const& x) {
    auto n = x.s.size();
    switch (x.kind) {
        case 1: return ch(0xfe); case 2: return ch(0xe8); case 3: return enc_int((std::int64_t)x.a); case 4: return ch(0xea) + be((std::uint32_t)x.a, 4); case 5: return ch(0xeb) + be(x.a, 8);
        case 6: return enc_decimal(x); case 7: return (n >= 1 && n <= 64 ? ch(0x40 + n - 1) : ch(0xf0) + enc_u(n)) + x.s; case 8: return (n >= 1 && n <= 16 ? ch(0xd0 + n - 1) : ch(0xf1) + enc_u(n)) + x.s;
        case 9: return ch(0xf3) + enc_s((std::int64_t)x.a); case 10: return ch(0xf4) + enc_u(x.a); case 11: return ch(0xee) + enc_u(x.a) + enc_s(x.exp);
        case 12: return ch(0xf5) + enc_s((std::int64_t)x.a) + enc_u(x.b); case 13: return ch(0xef) + enc_s((std::int64_t)x.a) + enc_u(x.b) + enc_s(x.exp);
        case 14: return x.a >= 1 && x.a <= 32 ? ch(0xa0 + x.a - 1) : ch(0xf9) + enc_u(x.a); case 15: return x.a >= 1 && x.a <= 32 ? ch(0x80 + x.a - 1) : ch(0xf8) + enc_u(x.a);
        case 16: return ch(0xfb) + be(x.a, 8) + be(x.b, 8) + be(x.c, 8); case 17: return ch(0xfa) + be(x.a, 8) + be(x.b, 8) + be(x.c, 8);
        case 18: return enc_u(x.a); default: return enc_s((std::int64_t)x.a);
    }
}
static void put(val const& x, w_out& o, char* p, std::size_t n) {
    auto i = (std::int64_t)x.a; exact_view e(x.s); auto d = e.get();
    switch (x.kind) {
        case 1: return w_end(&o, p, n); case 2: return w_null(&o, p, n); case 3: return w_int(&o, i, p, n); case 4: return w_float4(&o, x.a, p, n); case 5: return w_float8(&o, x.a, p, n);
        case 6: return w_decimal(&o, x.sign, x.a, x.b, x.exp, p, n); case 7: return w_character(&o, d.data(), d.size(), p, n); case 8: return w_octet(&o, d.data(), d.size(), p, n);
        case 9: return w_date(&o, i, p, n); case 10: return w_tod(&o, x.a, p, n); case 11: return w_todo(&o, x.a, x.exp, p, n); case 12: return w_tp(&o, i, x.b, p, n); case 13: return w_tpo(&o, i, x.b, x.exp, p, n);
        case 14: return w_array(&o, x.a, p, n); case 15: return w_row(&o, x.a, p, n); case 16: return w_blob(&o, x.a, x.b, x.c, p, n); case 17: return w_clob(&o, x.a, x.b, x.c, p, n);
        case 18: return w_uint(&o, x.a, p, n); default: return w_sint(&o, i, p, n);
    }
}
// the documented way to read an entry: false when it is malformed
struct rdr { std::string const& b; std::size_t p; bool bad{};
    unsigned char u8() { if (p >= b.size()) { bad = true; return 0; } return (unsigned char)b[p++]; }
    std::uint64_t enc_u() { std::uint64_t r = 0; for (int i = 0; i < 9; ++i) { auto c = u8(); if (bad) return 0; r |= (std::uint64_t)(i == 8 ? c : c & 0x7f) << (7 * i); if (i == 8 || c < 0x80) { if (i > 0 && c == 0) bad = true; return r; } } return r; }
    std::int64_t enc_s() { auto u = enc_u(); return (std::int64_t)((u >> 1) ^ -(u & 1)); }
    std::int64_t i32() { auto r = enc_s(); if (r != (std::int32_t)r) bad = true; return r; }
    std::uint64_t size() { auto r = enc_u(); if (r > 0x7fffffff) bad = true; return r; }
    std::uint64_t fix(int n) { std::uint64_t r = 0; if (b.size() - p < (std::size_t)n) { bad = true; return 0; } while (n--) r = r << 8 | u8(); return r; }
};
static bool parse(int kind, std::string const& in, std::size_t& len, std::uint64_t* v) {
    rdr r{in, 0}; unsigned h = r.u8(); if (r.bad) return false;
    auto integer = [&] { if (h < 0x40) { v[0] = h; return true; } if (h >= 0xc0 && h < 0xd0) { v[0] = (std::uint64_t)(std::int64_t)((int)h - 0xd0); return true; } if (h == 0xe9) { v[0] = (std::uint64_t)r.enc_s(); return true; } return false; };
    auto str = [&](unsigned lo, unsigned n, unsigned full) { std::uint64_t k; if (h >= lo && h < lo + n) k = h - lo + 1; else if (h == full) k = r.size(); else return false; if (r.bad || in.size() - r.p < k) return false; v[0] = r.p; v[1] = k; r.p += k; return true; };
    auto cnt = [&](unsigned lo, unsigned full) { if (h >= lo && h < lo + 32) v[0] = h - lo + 1; else if (h == full) v[0] = r.size(); else return false; return true; };
    auto hd = [&](unsigned x) { return h == x; };
    auto trip = [&](bool neg, u128 m, std::int64_t e) { v[0] = m >> 64; v[1] = (std::uint64_t)m; v[2] = m == 0 ? 0 : (std::uint64_t)(std::int64_t)(neg ? -1 : 1); v[3] = (std::uint64_t)e; };
    bool ok = false;
    switch (kind) {
        case 0: { int t = h < 0x40 ? 3 : h < 0x80 ? 7 : h < 0xa0 ? 16 : h < 0xc0 ? 17 : h < 0xd0 ? 3 : h < 0xe0 ? 8 : h < 0xe8 ? 9 : 0;
            if (!t) switch (h) { case 0xe8: t = 2; break; case 0xe9: t = 3; break; case 0xea: t = 4; break; case 0xeb: t = 5; break; case 0xec: case 0xed: t = 6; break; case 0xee: t = 12; break; case 0xef: t = 14; break; case 0xf0: t = 7; break; case 0xf1: t = 8; break; case 0xf2: t = 9; break;
                case 0xf3: t = 10; break; case 0xf4: t = 11; break; case 0xf5: t = 13; break; case 0xf6: t = 15; break; case 0xf8: t = 16; break; case 0xf9: t = 17; break; case 0xfa: t = 18; break; case 0xfb: t = 19; break; case 0xfe: t = 1; break; default: return false; }
            v[0] = t; len = 0; return true; }
        case 1: ok = hd(0xfe); break; case 2: ok = hd(0xe8); break; case 3: ok = integer(); break;
        case 4: ok = hd(0xea); v[0] = r.fix(4); break; case 5: ok = hd(0xeb); v[0] = r.fix(8); break;
        case 6: if (hd(0xec)) { ok = true; auto e = r.i32(); auto c = r.enc_s(); trip(c < 0, c < 0 ? -(u128)(s128)c : (u128)c, e); }
            else if (hd(0xed)) { ok = true; auto e = r.i32(); auto n = r.enc_u(); if (r.bad || n < 1 || n > 17 || in.size() - r.p < n) return false; unsigned char top = in[r.p]; bool neg = top & 0x80; u128 x = neg ? ~(u128)0 : 0; for (std::uint64_t i = 0; i < n; ++i) x = x << 8 | r.u8();
                if (n == 17 && top != 0 && (top != 0xff || x == 0)) return false; trip(neg, neg ? -x : x, e); }
            else { ok = integer(); if (!r.bad) { auto c = (std::int64_t)v[0]; trip(c < 0, c < 0 ? -(u128)(s128)c : (u128)c, 0); } } break;
        case 7: ok = str(0x40, 64, 0xf0); break; case 8: ok = str(0xd0, 16, 0xf1); break;
        case 9: ok = hd(0xf3); v[0] = (std::uint64_t)r.enc_s(); break; case 10: ok = hd(0xf4); v[0] = r.enc_u(); break;
        case 11: ok = hd(0xee); v[0] = r.enc_u(); v[1] = (std::uint64_t)r.i32(); break; case 12: ok = hd(0xf5); v[0] = (std::uint64_t)r.enc_s(); v[1] = r.enc_u(); break;
        case 13: ok = hd(0xef); v[0] = (std::uint64_t)r.enc_s(); v[1] = r.enc_u(); v[2] = (std::uint64_t)r.i32(); break;
        case 14: ok = cnt(0xa0, 0xf9); break; case 15: ok = cnt(0x80, 0xf8); break;
        default: ok = hd(kind == 16 ? 0xfb : 0xfa); v[0] = r.fix(8); v[1] = r.bad ? 0 : r.fix(8); v[2] = r.bad ? 0 : r.fix(8);
    }
    len = r.p; return ok && !r.bad;
}
static val gen(vdrv& d) {
    val x; x.kind = 1 + (int)d.below(19); x.a = d.edge64(); x.b = d.edge64(); x.c = d.edge64(); x.sign = d.coin() ? 1 : -1; x.exp = d.below(3) ? (int)d.below(2000) - 1000 : d.below(4) ? (int)d.edge64() : 0;
    if (d.below(3) == 0) x.a = (std::uint64_t)(std::int64_t)((int)d.below(160) - 40);
    if (x.kind == 4) x.a &= 0xffffffff; if (x.kind == 12 || x.kind == 13) x.b = d.below(1000000000);
    if (x.kind == 6) { u128 c = ((u128)d.edge64() << 64 | d.edge64()) >> d.below(128); if (d.coin()) { c = (u128)1 << d.below(128); c += (int)d.below(3) - 1; } x.a = c >> 64; x.b = (std::uint64_t)c; if (d.coin()) x.exp = 0; }
    if (x.kind == 7 || x.kind == 8) x.s = d.bytes(d.below(4) ? 70 : 300);
    return x;
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    while (d.running()) {
        val x = gen(d); std::string e = expect(x); std::size_t cap = d.coin() ? e.size() + d.below(3) : d.below(e.size() + 1);
        std::string h = "write " + x.str() + " capacity=" + std::to_string(cap); d.input(h);
        { std::unique_ptr<char[]> b(new char[cap]); w_out o{}; bool thrown = false;
            try { put(x, o, b.get(), cap); } catch (std::exception const&) { thrown = true; }
            d.check(!thrown, "exception: " + h); bool fits = e.size() <= cap;
            d.check(o.ok == (fits ? 1 : 0), "returned " + std::to_string(o.ok) + ", entry of " + std::to_string(e.size()) + " bytes: " + h);
            d.check((std::size_t)o.len == (fits ? e.size() : 0), "advanced by " + std::to_string(o.len) + " expected " + std::to_string(fits ? e.size() : 0) + ": " + h);
            if (fits) d.check(std::string(b.get(), o.len) == e, "bytes " + vdrv::hex({b.get(), (std::size_t)o.len}) + " expected " + vdrv::hex(e) + ": " + h); }
        std::string in = x.kind < 18 ? e : d.bytes(30);
        if (d.below(3) == 0 && x.kind != 18) switch (d.below(4)) { case 0: in.resize(d.below(in.size() + 1)); break; case 1: in += d.bytes(4); break; case 2: in[d.below(in.size())] = (char)d.next(); break; default: in[0] = (char)d.next(); in += d.bytes(24); }
        if (d.below(40) == 0) { in = ch(0xed) + enc_s(d.below(2) ? (std::int64_t)d.edge64() : (int)d.below(50)) + enc_u(d.below(20)) + d.bytes(20, std::string_view("\x00\xff\x80\x7f\x01", 5)); }
        if (d.below(20) == 0) in = ch(0xe0 + d.below(32)) + enc_u(d.edge64()) + enc_u(d.edge64()) + enc_u(d.edge64());
        int k = x.kind < 18 && d.below(4) ? x.kind : (int)d.below(18); if (d.below(6) == 0) k = 0;
        h = std::string("read ") + names[k] + " from " + vdrv::hex(in); d.input(h);
        exact_view ev(in); r_out o{}; std::uint64_t v[4]{}; std::size_t len = 0; bool ok = parse(k, in, len, v);
        readers[k](&o, ev.get().data(), in.size());
        d.check(o.failed == (ok ? 0 : 1), (o.failed == 0 ? "read without error" : o.failed == 1 ? "reported as malformed" : "unexpected exception") + std::string(", expected ") + (ok ? "success: " : "malformed input: ") + h);
        d.check((std::size_t)o.len == (ok ? len : 0), "consumed " + std::to_string(o.len) + " expected " + std::to_string(ok ? len : 0) + ": " + h);
        static int const nv[] = {1, 0, 0, 1, 1, 1, 4, 2, 2, 1, 1, 2, 2, 3, 1, 1, 3, 3};
        if (ok) for (int i = 0; i < nv[k]; ++i) d.check(o.v[i] == v[i], "value " + std::to_string(i) + " " + std::to_string(o.v[i]) + " expected " + std::to_string(v[i]) + ": " + h);
    }
    return d.done();
}

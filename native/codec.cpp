// key/value codec: encode (C08) or, with -DDECODE, decode (C09); oracle written from docs/dataformat-ja.md
#include "vdrv.h"
#include "../contracts/clients/stubs.inc"
#include "../contracts/clients/decimal_native.inc"
#include "../contracts/clients/kvs_codec.cpp"
#include <jogasaki/utils/coder.h>
#include <cmath>
#include <limits>
using u128 = unsigned __int128;
using namespace std::string_literals;
struct field {
    int kind{};            // 0 bool 1 int1 2 int2 3 int4 4 int8 5 f4 6 f8 7 date 8 tod 9 tp 10 blob 11 clob 12 text 13 octet 14 decimal
    std::int64_t a{}, b{}; bool null{}, nullable{}; std::string s; bool has{}, var{}, fw{}, key{}; std::size_t len{};
    int sign{}; u128 c{}; int prec{}, scale{};
    std::string str() const { return "kind=" + std::to_string(kind) + " a=" + std::to_string(a) + " b=" + std::to_string(b) + (nullable ? null ? " null" : " nullable" : "") + " s=" + vdrv::hex(s) +
        " has_len=" + std::to_string(has) + " len=" + std::to_string(len) + " varying=" + std::to_string(var) + " for_write=" + std::to_string(fw) + " key=" + std::to_string(key) +
        " sign=" + std::to_string(sign) + " hi=" + std::to_string((std::uint64_t)(c >> 64)) + " lo=" + std::to_string((std::uint64_t)c) + " prec=" + std::to_string(prec) + " scale=" + std::to_string(scale); }
};
typedef void (*sfn)(rec_out*, std::int64_t, std::int64_t, int, bool, char*, std::size_t, bool);
#define ROW(K) {enc_any_##K, enc_rec_##K, encn_any_##K, encn_rec_##K}
static sfn const senc[12][4] = {ROW(boolean), ROW(int1), ROW(int2), ROW(int4), ROW(int8), ROW(float4), ROW(float8), ROW(date), ROW(time_of_day), ROW(time_point), ROW(blob), ROW(clob)};
typedef void (*dfn)(dec_out*, int, char const*, std::size_t);
#define DROW(K) {dec_any_##K, dec_rec_##K, decn_any_##K, decn_rec_##K}
static dfn const sdec[12][4] = {DROW(boolean), DROW(int1), DROW(int2), DROW(int4), DROW(int8), DROW(float4), DROW(float8), DROW(date), DROW(time_of_day), DROW(time_point), DROW(blob), DROW(clob)};
typedef void (*cfn)(rec_out*, int, char const*, std::size_t);
#define CROW(K) {cons_##K, consn_##K}
static cfn const scons[12][2] = {CROW(boolean), CROW(int1), CROW(int2), CROW(int4), CROW(int8), CROW(float4), CROW(float8), CROW(date), CROW(time_of_day), CROW(time_point), CROW(blob), CROW(clob)};
static std::string be(std::uint64_t v, int n) { std::string r; for (int i = n - 1; i >= 0; --i) r += char(v >> (8 * i)); return r; }
static std::uint64_t fbits(std::uint64_t x, int w) {
    std::uint64_t sign = std::uint64_t{1} << (w - 1); int mant = w == 32 ? 23 : 52; std::uint64_t mag = x & (sign - 1), inf = ((std::uint64_t{1} << (w - 1 - mant)) - 1) << mant;
    if (mag > inf) x = inf | (std::uint64_t{1} << (mant - 1)); else if (mag == 0) x = 0;
    return (x & sign) ? ~x & (sign | (sign - 1)) : x | sign;
}
static int nbytes(int p) { int n = 1; for (;; ++n) { if (n == 17) return n; u128 lim = (u128)1 << (8 * n - 1), t = 1; int i = 0; for (; i < p; ++i) { if (t > ~(u128)0 / 10) break; t *= 10; } if (i == p && t <= lim) return n; } }
// expected status and ascending bytes
static int expect(field const& f, std::string& out) {
    out.clear();
    if (f.nullable) { out += f.null ? '\x80' : '\x81'; if (f.null) return 0; }
    switch (f.kind) {
        case 0: out += char(f.a ^ 0x80); break;
        case 1: case 2: case 3: out += be((std::uint32_t)f.a ^ 0x80000000U, 4); break;
        case 4: case 7: case 8: out += be((std::uint64_t)f.a ^ (std::uint64_t{1} << 63), 8); break;
        case 5: out += be(fbits((std::uint32_t)f.a, 32), 4); break;
        case 6: out += be(fbits((std::uint64_t)f.a, 64), 8); break;
        case 9: out += be((std::uint64_t)f.a ^ (std::uint64_t{1} << 63), 8) + be((std::uint32_t)f.b ^ 0x80000000U, 4); break;
        case 10: case 11: out += be((std::uint64_t)f.a, 8); break;
        case 12: case 13: {
            std::size_t mx = f.has ? f.len : f.var ? f.key ? 30716 : 2097132 : 1;
            if (f.fw && f.s.size() > mx) return -32;
            if (f.kind == 12 && f.s.find('\0') != std::string::npos) return -33;
            if (f.kind == 13 && f.var) out += be(f.s.size(), 4);
            out += f.s;
            if (f.fw && !f.var && f.s.size() < mx) out += std::string(mx - f.s.size(), f.kind == 12 ? ' ' : '\0');
            if (f.kind == 12) out += std::string(4, '\0');
            break;
        }
        default: {
            u128 lim = 1; for (int i = 0; i < f.prec; ++i) lim *= 10;
            if (f.c >= lim) return -17;
            u128 x = f.sign < 0 ? -f.c : f.c; int n = nbytes(f.prec);
            for (int i = n - 1; i >= 0; --i) { char ch = char(i == 16 ? (f.sign < 0 && f.c ? 0xff : 0) : (unsigned char)(x >> (8 * i))); if (i == n - 1) ch ^= char(0x80); out += ch; }
        }
    }
    return 0;
}
// 0 ok, -1 exception
static int encode(field const& f, int form, int ord, char* buf, std::size_t cap, bool ign, rec_out& o) {
    o = {};
    try {
        if (f.kind < 12) senc[f.kind][form](&o, f.a, f.b, ord, f.null, buf, cap, ign);
        else if (f.kind == 14) { (form == 0 ? enc_any_decimal : form == 1 ? enc_rec_decimal : form == 2 ? encn_any_decimal : encn_rec_decimal)(&o, f.sign, (std::uint64_t)(f.c >> 64), (std::uint64_t)f.c, -f.scale, f.prec, f.scale, ord, buf, cap, ign); }
        else { exact_view e(f.s); auto sv = e.get();
            auto fn = f.kind == 12 ? (form == 0 ? enc_any_text : form == 1 ? enc_rec_text : form == 2 ? encn_any_text : encn_rec_text) : (form == 0 ? enc_any_octet : form == 1 ? enc_rec_octet : form == 2 ? encn_any_octet : encn_rec_octet);
            fn(&o, sv.data(), sv.size(), f.has, f.len, f.var, f.fw, f.key, ord, buf, cap, ign); }
    } catch (std::exception const&) { return -1; }
    return 0;
}
static field gen(vdrv& d, int kind) {
    field f; f.kind = kind; f.nullable = d.coin(); f.null = f.nullable && kind < 12 && d.below(4) == 0;
    f.a = (std::int64_t)d.edge64(); f.b = 0;
    if (kind == 0) f.a = (std::int8_t)f.a; if (kind >= 1 && kind <= 3) f.a = (std::int32_t)f.a;
    if (kind == 5 || kind == 6) { int w = kind == 5 ? 32 : 64; std::uint64_t sp[] = {0, std::uint64_t{1} << (w - 1), w == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL, w == 32 ? 0xff800000ULL : 0xfff0000000000000ULL, w == 32 ? 0x7fc00001ULL : 0x7ff8000000000001ULL, w == 32 ? 0xff800001ULL : 0xfff0000000000001ULL, 1};
        if (d.coin()) f.a = (std::int64_t)sp[d.below(7)]; if (w == 32) f.a &= 0xffffffff; }
    if (kind == 8) f.a = (std::int64_t)d.below(86400000000000ULL);
    if (kind == 9) f.b = (std::int64_t)d.below(1000000000);
    if (kind == 12 || kind == 13) { f.s = kind == 12 && d.below(8) ? d.bytes(40, "ab\x01\xff z\x7f") : d.bytes(40); f.has = d.coin(); f.len = d.below(45); f.var = d.coin(); f.fw = d.coin(); f.key = d.coin();
        if (kind == 12 && d.below(6)) for (auto& c : f.s) if (c == 0) c = 'q'; if (d.below(4000) == 0) { f.s.assign(30700 + d.below(30), 'k'); f.has = f.has && d.coin(); } }
    if (kind == 14) { f.prec = 1 + d.below(38); f.scale = d.below(f.prec + 1); f.c = ((u128)d.edge64() << 64 | d.edge64()) >> d.below(128); u128 lim = 1; for (int i = 0; i < f.prec; ++i) lim *= 10; if (d.below(8)) f.c %= lim; if (d.below(10) == 0) f.c = lim - 1; f.sign = d.coin() ? 1 : -1; }
    return f;
}
static std::string mask(std::string s, int ord) { if (ord != 1) for (auto& c : s) c = ~c; return s; }
#ifndef DECODE
// logical order of two fields of one column: nulls first, NaN greatest, numbers by value, strings bytewise
static int cmp(field const& x, field const& y) {
    if (x.null || y.null) return int(y.null) - int(x.null);
    auto three = [](auto p, auto q) { return p < q ? -1 : q < p ? 1 : 0; };
    if (x.kind == 5 || x.kind == 6) { double p = x.kind == 5 ? f4c::make(x.a, 0) : f8c::make(x.a, 0), q = x.kind == 5 ? f4c::make(y.a, 0) : f8c::make(y.a, 0);
        if (std::isnan(p) || std::isnan(q)) return int(std::isnan(p)) - int(std::isnan(q)); return three(p, q); }
    if (x.kind == 10 || x.kind == 11) return three((std::uint64_t)x.a, (std::uint64_t)y.a);
    if (x.kind == 12 || x.kind == 13) { auto p = [](field const& f) { auto s = f.s; if (!f.var && s.size() < f.len) s.resize(f.len, f.kind == 12 ? ' ' : '\0'); return s; }; return three(p(x), p(y)); }
    if (x.kind == 14) { bool p = x.sign < 0 && x.c, q = y.sign < 0 && y.c; if (p != q) return p ? -1 : 1; return p ? three(y.c, x.c) : three(x.c, y.c); }
    return x.a != y.a ? three(x.a, y.a) : three(x.b, y.b);
}
static void order_check(vdrv& d) {
    // two composite keys of up to three columns
    std::string k[2], h; int want = 0, nf = 1 + (int)d.below(3);
    for (int i = 0; i < nf; ++i) {
        int kind = (int)d.below(15); field x = gen(d, kind), y = d.below(4) == 0 ? x : gen(d, kind); int ord = 1 + (int)d.below(2);
        x.fw = y.fw = true; x.key = y.key = true; y.nullable = x.nullable; if (!x.nullable) x.null = y.null = false; y.prec = x.prec; y.scale = x.scale; y.has = x.has = true; y.len = x.len = 40; y.var = x.var;
        if (kind == 13) x.var = y.var = false;
        if (d.coin() && kind >= 12) { y.s = x.s; if (!y.s.empty()) y.s.back() ^= 1; }
        std::string e; if (expect(x, e) != 0 || expect(y, e) != 0) return;
        char b[200]; rec_out o; int form = (x.nullable ? 2 : 0) + (int)d.below(2);
        h += " | " + x.str() + " / " + y.str() + " ord=" + std::to_string(ord); d.input("order" + h);
        if (encode(x, form, ord, b, sizeof b, false, o) != 0) d.fail("exception" + h); k[0] += std::string(b, o.len);
        if (encode(y, form, ord, b, sizeof b, false, o) != 0) d.fail("exception" + h); k[1] += std::string(b, o.len);
        int c = cmp(x, y); if (want == 0) want = ord == 1 ? c : -c;
    }
    int got = k[0].compare(k[1]); got = got < 0 ? -1 : got > 0;
    d.check(got == want, "key order " + std::to_string(got) + " expected " + std::to_string(want) + h + " keys " + vdrv::hex(k[0]) + " " + vdrv::hex(k[1]));
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    for (int p = 0; p < 40; ++p) d.check((int)jogasaki::utils::bytes_required_for_digits(p) == (p ? nbytes(p) : 0), "bytes_required_for_digits(" + std::to_string(p) + ")=" + std::to_string(jogasaki::utils::bytes_required_for_digits(p)));
    while (d.running()) {
        field f = gen(d, (int)d.below(15)); int form = (f.nullable ? 2 : 0) + (int)d.below(2), ord = (int)d.below(3); bool ign = d.coin();
        std::string e; int st = expect(f, e); std::size_t cap = d.below(3) ? e.size() + d.below(3) : d.below(e.size() + 1); if (st) cap = 100000;
        if (f.kind == 14 && d.below(4) == 0) decimal::flags_ = 0x3ff;
        std::unique_ptr<char[]> b(new char[cap]); rec_out o;
        std::string h = f.str() + " form=" + std::to_string(form) + " ord=" + std::to_string(ord) + " cap=" + std::to_string(cap) + " ign=" + std::to_string(ign); d.input(h);
        int rc = encode(f, form, ord, b.get(), cap, ign, o);
        if (rc) d.check(cap < e.size() && !ign, "exception: " + h);
        else {
            d.check(o.status == st, "status " + std::to_string(o.status) + " expected " + std::to_string(st) + ": " + h);
            if (st == 0) { d.check(e.size() <= cap || ign, "overflow not reported: " + h); d.check(o.len == e.size(), "length " + std::to_string(o.len) + " expected " + std::to_string(e.size()) + ": " + h);
                if (e.size() <= cap) d.check(std::string(b.get(), o.len) == mask(e, ord), "bytes " + vdrv::hex({b.get(), o.len}) + " expected " + vdrv::hex(mask(e, ord)) + ": " + h); }
        }
        order_check(d);
    }
    return d.done();
}
#else
static std::int64_t fnorm(std::int64_t a, int w) { std::uint64_t sign = std::uint64_t{1} << (w - 1), mag = (std::uint64_t)a & (sign - 1); return mag == 0 ? 0 : a; }
static bool isnanbits(std::int64_t a, int w) { std::uint64_t mag = (std::uint64_t)a & ((std::uint64_t{1} << (w - 1)) - 1); return mag > (w == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL); }
static int decode(field const& f, int form, int ord, std::string const& in, dec_out& o, std::string& val) {
    o = {}; o.null = (in.size() * 57 + (in.empty() ? 0 : (unsigned char)in.back()) * 31) & 0xff; exact_view e(in); std::unique_ptr<char[]> buf(new char[in.size() + 64]);
    try {
        if (f.kind < 12) sdec[f.kind][form](&o, ord, e.get().data(), in.size());
        else if (f.kind == 14) { (form == 0 ? dec_any_decimal : form == 1 ? dec_rec_decimal : form == 2 ? decn_any_decimal : decn_rec_decimal)(&o, f.prec, f.scale, ord, e.get().data(), in.size(), buf.get()); val.assign(buf.get(), 32); }
        else { auto fn = f.kind == 12 ? (form == 0 ? dec_any_text : form == 1 ? dec_rec_text : form == 2 ? decn_any_text : decn_rec_text) : (form == 0 ? dec_any_octet : form == 1 ? dec_rec_octet : form == 2 ? decn_any_octet : decn_rec_octet);
            fn(&o, f.var, f.len, ord, e.get().data(), in.size(), buf.get()); val.assign(buf.get(), o.status == 0 && !o.null ? (std::size_t)o.a : 0); }
    } catch (std::exception const&) { return -1; }
    return 0;
}
static int consume_(field const& f, bool nul, int ord, std::string const& in, rec_out& o) {
    o = {}; exact_view e(in);
    try {
        if (f.kind < 12) scons[f.kind][nul](&o, ord, e.get().data(), in.size());
        else if (f.kind == 14) (nul ? consn_decimal : cons_decimal)(&o, f.prec, f.scale, ord, e.get().data(), in.size());
        else if (f.kind == 12) (nul ? consn_text : cons_text)(&o, f.var, f.len, ord, e.get().data(), in.size());
        else (nul ? consn_octet : cons_octet)(&o, f.var, f.len, ord, e.get().data(), in.size());
    } catch (std::exception const&) { return -1; }
    return 0;
}
// length of the encoded value at the start of in, or -1 (corrupt); in is given ascending
static long span(field const& f, std::string const& in) {
    std::size_t p = 0;
    if (f.nullable) { if (in.empty()) return -1; unsigned char c = in[0]; if (c == 0x80) return 1; if (c != 0x81) return -1; p = 1; }
    static int const w[] = {1, 4, 4, 4, 8, 4, 8, 8, 8, 12, 8, 8};
    if (f.kind < 12) return in.size() >= p + w[f.kind] ? (long)p + w[f.kind] : -1;
    if (f.kind == 12) { auto q = in.find("\0\0\0\0"s, p); return q == std::string::npos ? -1 : (long)q + 4; }
    if (f.kind == 13) { std::size_t n = f.len; if (f.var) { if (in.size() < p + 4) return -1; n = 0; for (int i = 0; i < 4; ++i) n = n << 8 | (unsigned char)in[p + i]; p += 4; } return n <= in.size() - p ? (long)(p + n) : -1; }
    int n = nbytes(f.prec); if (in.size() < p + n) return -1;
    return (long)p + n;
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    while (d.running()) {
        field f = gen(d, (int)d.below(15)); f.fw = true; f.key = d.coin(); if (f.kind >= 12) { f.has = true; if (f.s.size() > 40) f.s.resize(40); f.len = std::max<std::size_t>(f.len, f.s.size()); }
        int form = (f.nullable ? 2 : 0) + (int)d.below(2), ord = (int)d.below(3); std::string e; if (expect(f, e) != 0) continue;
        std::string in = mask(e, ord);
        std::string h = f.str() + " form=" + std::to_string(form) + " ord=" + std::to_string(ord); dec_out o; rec_out c; std::string val;
        // decoding what the encoder wrote
        std::unique_ptr<char[]> b(new char[e.size()]); rec_out eo; d.input(h); if (encode(f, form, ord, b.get(), e.size(), false, eo) != 0 || eo.status != 0) d.fail("encode failed: " + h);
        std::string enc(b.get(), eo.len); std::string rest = d.bytes(8);
        d.check(decode(f, form, ord, enc + rest, o, val) == 0, "exception: " + h);
        d.check(o.status == 0 && o.len == enc.size() && o.null == (f.null ? 1 : 0), "decode(encode) status " + std::to_string(o.status) + " length " + std::to_string(o.len) + ": " + h);
        if (!f.null) {
            if (f.kind == 5 || f.kind == 6) { int w = f.kind == 5 ? 32 : 64; d.check(isnanbits(f.a, w) ? isnanbits(o.a, w) : o.a == fnorm(f.a, w), "decode(encode) float " + std::to_string(o.a) + ": " + h); }
            else if (f.kind < 12) d.check(o.a == f.a && (f.kind != 9 || o.b == f.b), "decode(encode) value " + std::to_string(o.a) + "," + std::to_string(o.b) + ": " + h);
            else if (f.kind == 14) { triple_out t; std::memcpy(&t, val.data(), sizeof t); d.check((((u128)t.hi << 64) | t.lo) == f.c && t.sign == (f.c == 0 ? 0 : f.sign) && t.exponent == -f.scale, "decode(encode) decimal: " + h); }
            else { auto s = f.s; if (!f.var && s.size() < f.len) s.resize(f.len, f.kind == 12 ? ' ' : '\0'); d.check(val == s, "decode(encode) text " + vdrv::hex(val) + ": " + h); }
        }
        // arbitrary bytes
        switch (d.below(4)) { case 0: in.resize(d.below(in.size() + 1)); break; case 1: in = d.bytes(24); break; case 2: if (!in.empty()) in[d.below(in.size())] ^= char(1 << d.below(8)); break; default: in = d.bytes(24, "\x80\x81\x7f\x7e"s + "\0\xff"s); }
        h = f.str() + " form=" + std::to_string(form) + " ord=" + std::to_string(ord) + " bytes=" + vdrv::hex(in); d.input(h);
        long n = span(f, mask(in, ord));
        bool nodec = f.kind == 14;
        d.check(decode(f, form, ord, in, o, val) == 0, "exception: " + h);
        d.check(o.status == (n < 0 ? -26 : 0) || (nodec && nbytes(f.prec) == 17), "status " + std::to_string(o.status) + " expected " + (n < 0 ? "corruption: " : "ok: ") + h);
        if (n >= 0) d.check(o.len == (std::size_t)n, "consumed " + std::to_string(o.len) + " expected " + std::to_string(n) + ": " + h);
        d.check(consume_(f, f.nullable, ord, in, c) == 0, "exception in consume: " + h);
        d.check(c.status == o.status && (n < 0 || c.len == o.len), "consume " + std::to_string(c.status) + "/" + std::to_string(c.len) + " decode " + std::to_string(o.status) + "/" + std::to_string(o.len) + ": " + h);
    }
    return d.done();
}
#endif

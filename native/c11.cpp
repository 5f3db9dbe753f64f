// comparing, hashing and partitioning records of random layouts
#include <memory>
#include <stdexcept>
#include <cmath>
#include "vdrv.h"
#include "../contracts/clients/stubs.inc"
#include "../contracts/clients/decimal_native.inc"
#include "../contracts/clients/compare.cpp"
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/meta/field_type.h>
using k = meta::field_type_kind;
using meta::field_type;
static k const kinds[] = {k::boolean, k::int1, k::int2, k::int4, k::int8, k::float4, k::float8, k::decimal, k::character, k::octet, k::date, k::time_of_day, k::time_point, k::blob, k::clob, k::pointer};
static field_type type_of(k x) {
    switch (x) {
        case k::boolean: return field_type{meta::field_enum_tag<k::boolean>}; case k::int1: return field_type{meta::field_enum_tag<k::int1>}; case k::int2: return field_type{meta::field_enum_tag<k::int2>};
        case k::int4: return field_type{meta::field_enum_tag<k::int4>}; case k::int8: return field_type{meta::field_enum_tag<k::int8>}; case k::float4: return field_type{meta::field_enum_tag<k::float4>};
        case k::float8: return field_type{meta::field_enum_tag<k::float8>}; case k::decimal: return field_type{std::make_shared<meta::decimal_field_option>()}; case k::character: return field_type{std::make_shared<meta::character_field_option>()};
        case k::octet: return field_type{std::make_shared<meta::octet_field_option>()}; case k::date: return field_type{meta::field_enum_tag<k::date>}; case k::time_of_day: return field_type{std::make_shared<meta::time_of_day_field_option>()};
        case k::time_point: return field_type{std::make_shared<meta::time_point_field_option>()}; case k::blob: return field_type{meta::field_enum_tag<k::blob>}; case k::clob: return field_type{meta::field_enum_tag<k::clob>};
        default: return field_type{meta::field_enum_tag<k::pointer>};
    }
}
struct val { bool null{}; std::uint64_t a{}, b{}; std::string s; };
static int sgn(int x) { return (x > 0) - (x < 0); }
template <class T> static int c3(T a, T b) { return a < b ? -1 : b < a ? 1 : 0; }
template <class T> static T as(std::uint64_t b) { T v; std::memcpy(&v, &b, sizeof v); return v; }
template <class T> static int fcmp(T a, T b) { if (std::isnan(a) || std::isnan(b)) return (int)std::isnan(a) - (int)std::isnan(b); return c3(a, b); }
// mathematical order of the values, nulls first
static int order(k x, val const& p, val const& q) {
    if (x == k::pointer) return 0;
    if (p.null || q.null) return (int)q.null - (int)p.null;
    switch (x) {
        case k::boolean: return c3((std::int8_t)p.a, (std::int8_t)q.a); case k::int1: case k::int2: case k::int4: return c3((std::int32_t)p.a, (std::int32_t)q.a); case k::int8: case k::date: return c3((std::int64_t)p.a, (std::int64_t)q.a);
        case k::float4: return fcmp(as<float>(p.a), as<float>(q.a)); case k::float8: return fcmp(as<double>(p.a), as<double>(q.a));
        case k::decimal: case k::time_of_day: return c3(p.a, q.a); case k::time_point: return (std::int64_t)p.a != (std::int64_t)q.a ? c3((std::int64_t)p.a, (std::int64_t)q.a) : c3(p.b, q.b);
        case k::character: case k::octet: { int r = p.s.compare(q.s); return (r > 0) - (r < 0); }
        default: return c3(p.a, q.a);
    }
}
static void put_value(accessor::record_ref r, k x, std::size_t o, val const& v) {
    switch (x) {
        case k::boolean: r.set_value<std::int8_t>(o, (std::int8_t)v.a); break; case k::int1: case k::int2: case k::int4: r.set_value<std::int32_t>(o, (std::int32_t)v.a); break; case k::int8: r.set_value<std::int64_t>(o, (std::int64_t)v.a); break;
        case k::float4: r.set_value<float>(o, as<float>(v.a)); break; case k::float8: r.set_value<double>(o, as<double>(v.a)); break;
        case k::decimal: r.set_value<takatori::decimal::triple>(o, takatori::decimal::triple{1, 0, v.a, 0}); break;
        case k::character: r.set_value<accessor::text>(o, accessor::text{v.s.data(), v.s.size()}); break; case k::octet: r.set_value<accessor::binary>(o, accessor::binary{v.s.data(), v.s.size()}); break;
        case k::date: r.set_value<takatori::datetime::date>(o, takatori::datetime::date{(std::int64_t)v.a}); break; case k::time_of_day: r.set_value<takatori::datetime::time_of_day>(o, tod(v.a)); break;
        case k::time_point: r.set_value<takatori::datetime::time_point>(o, tp((std::int64_t)v.a, (std::int64_t)v.b)); break;
        case k::blob: r.set_value<lob::blob_reference>(o, lob::blob_reference{v.a, lob::lob_data_provider::datastore}); break; case k::clob: r.set_value<lob::clob_reference>(o, lob::clob_reference{v.a, lob::lob_data_provider::datastore}); break;
        default: r.set_value<void*>(o, nullptr);
    }
}
static val random(vdrv& d, k x) {
    val v; v.a = d.edge64();
    switch (x) {
        case k::boolean: v.a &= 1; break; case k::int1: case k::int2: case k::int4: v.a = (std::uint32_t)v.a; break;
        case k::float4: { static std::uint32_t const t[] = {0, 0x80000000U, 0x7f800000U, 0xff800000U, 0x7fc00000U, 0xffc00000U, 0x7f800001U, 0x7fffffffU, 1, 0x80000001U}; v.a = d.coin() ? t[d.below(10)] : (std::uint32_t)v.a; break; }
        case k::float8: { static std::uint64_t const t[] = {0, 1ULL << 63, 0x7ffULL << 52, 0xfffULL << 52, 0x7ff8ULL << 48, 0xfff8ULL << 48, (0x7ffULL << 52) + 1, ~0ULL, 1, (1ULL << 63) + 1}; v.a = d.coin() ? t[d.below(10)] : v.a; break; }
        case k::time_of_day: v.a %= 86400000000000ULL; break; case k::time_point: v.b = d.coin() ? d.below(3) : d.below(1000000000); if (d.coin()) v.a = d.below(5) - 2; break;
        case k::character: case k::octet: v.s = d.bytes(d.coin() ? 3 : 20, d.coin() ? std::string_view{"a\x80\0", 3} : std::string_view{}); break;
        default: break;
    }
    if (d.below(3) == 0) v.a = x == k::float4 || x == k::float8 ? v.a : d.below(3) % (x == k::boolean ? 2 : 3);
    return v;
}
// another representation of an equal value, or a near one
static val vary(vdrv& d, k x, val v) {
    if (x == k::float8 && std::isnan(as<double>(v.a)) && d.coin()) v.a = (0x7ffULL << 52) | (d.next() & ~(0x7ffULL << 52)) | 1;
    if (x == k::float4 && std::isnan(as<float>(v.a)) && d.coin()) v.a = (std::uint32_t)(0x7f800000U | (d.next() & 0x807fffffU) | 1);
    if (x == k::float8 && as<double>(v.a) == 0) v.a = d.coin() ? 0 : 1ULL << 63;
    if (x == k::float4 && as<float>(v.a) == 0) v.a = d.coin() ? 0 : 0x80000000U;
    return v;
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    while (d.running()) {
        std::size_t n = d.below(5) == 0 ? d.below(20) : d.below(4);
        if (d.below(8) != 0) ++n;
        std::vector<k> ks; std::vector<ordering> os; std::vector<field_type> f; boost::dynamic_bitset<std::uint64_t> nl, nr;
        std::string desc;
        for (std::size_t i = 0; i < n; ++i) {
            ks.push_back(kinds[d.below(sizeof kinds / sizeof *kinds)]); f.push_back(type_of(ks.back())); nl.push_back(d.coin()); nr.push_back(d.coin());
            os.push_back(static_cast<ordering>(d.below(3)));
            desc += " kind" + std::to_string((int)ks.back()) + (nl[i] ? "?" : "") + (nr[i] ? "/?" : "") + (os.back() == ordering::descending ? "-" : "");
        }
        meta::record_meta L{f, nl}, R{f, nr};
        auto mk = [&](meta::record_meta const& m, std::vector<val> const& v, bool nulls) {
            auto p = std::unique_ptr<char, void(*)(void*)>(static_cast<char*>(std::aligned_alloc(16, (m.record_size() + 31) / 16 * 16)), std::free);
            std::memset(p.get(), (int)d.next(), (m.record_size() + 31) / 16 * 16);
            accessor::record_ref r{p.get(), m.record_size()};
            for (std::size_t i = 0; i < n; ++i) { put_value(r, ks[i], m.value_offset(i), v[i]); if (m.nullable(i)) r.set_null(m.nullity_offset(i), v[i].null); }
            (void)nulls;
            return p;
        };
        std::vector<val> a, b;
        for (std::size_t i = 0; i < n; ++i) {
            a.push_back(random(d, ks[i])); a[i].null = nl[i] && d.below(4) == 0;
            b.push_back(d.below(4) == 0 ? random(d, ks[i]) : vary(d, ks[i], a[i])); b[i].null = nr[i] && (a[i].null ? d.below(8) != 0 : d.below(8) == 0);
            auto s = [](val const& v) { return v.null ? std::string("null") : std::to_string(v.a) + "/" + std::to_string(v.b) + "/" + vdrv::hex(v.s); };
            desc += " [" + s(a[i]) + " , " + s(b[i]) + "]";
        }
        d.input(desc); vdrv_watch(20);
        auto pa = mk(L, a, true), pb = mk(R, b, true);
        int plain = 0, ord = 0; bool comparable = true;
        for (std::size_t i = 0; i < n; ++i) { int c = order(ks[i], a[i], b[i]); if (!plain) plain = c; if (!ord) ord = os[i] == ordering::descending ? -c : c; }
        compare_info i0{L, R}, i1{L, R, os};
        d.check(&i0.left() == &L && &i0.right() == &R, "metadata" + desc);
        d.check(sgn(cmp_records(&i0, pa.get(), L.record_size(), pb.get(), R.record_size())) == plain, "compare" + desc);
        d.check(sgn(cmp_records(&i1, pa.get(), L.record_size(), pb.get(), R.record_size())) == ord, "compare with orderings" + desc);
        for (std::size_t i = 0; i < n; ++i) d.check(opposite_at(&L, os.data(), n, i) == (os[i] == ordering::descending), "opposite" + desc);
        std::size_t parts = d.coin() ? 1 + d.below(9) : 1 + (d.edge64() >> 1);
        auto x = partition_record(&L, parts, pa.get(), L.record_size()), y = partition_record(&R, parts, pb.get(), R.record_size());
        d.check(x < parts && y < parts, "partition out of range" + desc);
        if (plain == 0 && comparable) {
            d.check(hash_record(&L, pa.get(), L.record_size()) == hash_record(&R, pb.get(), R.record_size()), "equal records hash differently:" + desc);
            d.check(x == y, "equal records go to different partitions:" + desc);
        }
        std::uint64_t u = d.coin() ? a.empty() ? 0 : a[0].a : d.edge64(), w = d.coin() ? u : d.edge64();
        if (d.coin()) { u = random(d, k::float8).a; w = random(d, k::float8).a; }
        std::string q = std::to_string(u) + " and " + std::to_string(w);
        d.check(eq_f8(u, w) == (fcmp(as<double>(u), as<double>(w)) == 0) && cmp_f8(u, w) == fcmp(as<double>(u), as<double>(w)), "float8 " + q);
        d.check(eq_f4((std::uint32_t)u, (std::uint32_t)w) == (fcmp(as<float>(u), as<float>(w)) == 0) && cmp_f4((std::uint32_t)u, (std::uint32_t)w) == fcmp(as<float>(u), as<float>(w)), "float4 " + q);
        d.check(eq_i8((std::int64_t)u, (std::int64_t)w) == (u == w) && cmp_i8((std::int64_t)u, (std::int64_t)w) == c3((std::int64_t)u, (std::int64_t)w), "int8 " + q);
        d.check(eq_i4((std::int32_t)u, (std::int32_t)w) == ((std::int32_t)u == (std::int32_t)w) && cmp_i4((std::int32_t)u, (std::int32_t)w) == c3((std::int32_t)u, (std::int32_t)w), "int4 " + q);
        d.check(eq_i1((std::int8_t)u, (std::int8_t)w) == ((std::int8_t)u == (std::int8_t)w) && cmp_i1((std::int8_t)u, (std::int8_t)w) == c3((std::int8_t)u, (std::int8_t)w), "boolean " + q);
        d.check(eq_date((std::int64_t)u, (std::int64_t)w) == (u == w) && cmp_date((std::int64_t)u, (std::int64_t)w) == c3((std::int64_t)u, (std::int64_t)w), "date " + q);
        u %= 86400000000000ULL; w %= 86400000000000ULL;
        d.check(eq_tod(u, w) == (u == w) && cmp_tod(u, w) == c3(u, w), "time of day " + q);
        std::uint64_t m = d.below(3), z = d.below(3);
        d.check(eq_tp((std::int64_t)u, m, (std::int64_t)w, z) == (u == w && m == z) && cmp_tp((std::int64_t)u, m, (std::int64_t)w, z) == (u != w ? c3(u, w) : c3(m, z)), "time point " + q);
    }
    return d.done();
}

// client of the key/value codec: builds every field kind through the public API and runs the real encoder / decoder
#include <cstdint>
#include <cstring>
#include <memory>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/accessor/const_record_ref.h>
#include <jogasaki/data/any.h>
#include <jogasaki/kvs/coder.h>
#include <jogasaki/kvs/readable_stream.h>
#include <jogasaki/kvs/writable_stream.h>
#include <jogasaki/meta/field_type.h>
using namespace jogasaki;
using kind = meta::field_type_kind;
using kvs::order;
namespace tt = takatori::datetime;

struct rec_out { std::int64_t status; std::size_t len; };

struct date_conv { static tt::date make(std::int64_t a, std::int64_t) { return tt::date{a}; } static std::int64_t a(tt::date v) { return v.days_since_epoch(); } static std::int64_t b(tt::date) { return 0; } };
struct tod_conv { static tt::time_of_day make(std::int64_t a, std::int64_t) { return tt::time_of_day{tt::time_of_day::time_unit{static_cast<std::uint64_t>(a)}}; } static std::int64_t a(tt::time_of_day v) { return static_cast<std::int64_t>(v.time_since_epoch().count()); } static std::int64_t b(tt::time_of_day) { return 0; } };
struct tp_conv { static tt::time_point make(std::int64_t a, std::int64_t b) { return tt::time_point{std::chrono::duration<std::int64_t>{a}, std::chrono::nanoseconds{b}}; } static std::int64_t a(tt::time_point v) { return v.seconds_since_epoch().count(); } static std::int64_t b(tt::time_point v) { return v.subsecond().count(); } };
template<class T> struct int_conv { static T make(std::int64_t a, std::int64_t) { return static_cast<T>(a); } static std::int64_t a(T v) { return v; } static std::int64_t b(T) { return 0; } };
template<class T, class U> struct fp_conv {
    static T make(std::int64_t a, std::int64_t) { U u = static_cast<U>(a); T t; std::memcpy(&t, &u, sizeof t); return t; }
    static std::int64_t a(T v) { U u; std::memcpy(&u, &v, sizeof u); return static_cast<std::int64_t>(u); }
    static std::int64_t b(T) { return 0; }
};
template<class T> struct lob_conv { static T make(std::int64_t a, std::int64_t b) { return b == 0 ? T{static_cast<std::uint64_t>(a), lob::lob_data_provider::datastore} : T{static_cast<std::uint64_t>(a)}; } static std::int64_t a(T v) { return static_cast<std::int64_t>(v.object_id()); } static std::int64_t b(T) { return 0; } };

template<class T> struct alignas(16) record { T v; unsigned char nulls; };
constexpr std::size_t nul_bit(std::size_t off) { return off * 8; }

template<kind K> meta::field_type simple() { return meta::field_type{meta::field_enum_tag<K>}; }
template<kind K> meta::field_type ft();
template<> meta::field_type ft<kind::time_of_day>() { return meta::field_type{std::make_shared<meta::time_of_day_field_option>(false)}; }
template<> meta::field_type ft<kind::time_point>() { return meta::field_type{std::make_shared<meta::time_point_field_option>(false)}; }
#define SIMPLE(K) template<> meta::field_type ft<kind::K>() { return simple<kind::K>(); }
SIMPLE(boolean) SIMPLE(int1) SIMPLE(int2) SIMPLE(int4) SIMPLE(int8) SIMPLE(float4) SIMPLE(float8) SIMPLE(date) SIMPLE(blob) SIMPLE(clob)

template<class T, class C, kind K, bool Rec, bool Nul>
static void enc(rec_out* o, std::int64_t a, std::int64_t b, int ord, bool null, char* buf, std::size_t cap, bool ign) {
    kvs::coding_context ctx{};
    ctx.coding_for_write(true);
    kvs::coding_spec spec{ord != 0, static_cast<order>(ord)};
    kvs::writable_stream s{buf, cap, ign};
    auto t = ft<K>();
    status st{};
    if constexpr (Rec) {
        record<T> r{C::make(a, b), static_cast<unsigned char>(null ? 1 : 0)};
        accessor::const_record_ref ref{&r, sizeof r};
        if constexpr (Nul) st = kvs::encode_nullable(ref, offsetof(record<T>, v), nul_bit(offsetof(record<T>, nulls)), t, spec, ctx, s);
        else st = kvs::encode(ref, offsetof(record<T>, v), t, spec, ctx, s);
    } else {
        data::any v{};
        if (!null) v = data::any{std::in_place_type<T>, C::make(a, b)};
        if constexpr (Nul) st = kvs::encode_nullable(v, t, spec, ctx, s);
        else st = kvs::encode(v, t, spec, ctx, s);
    }
    o->status = static_cast<std::int64_t>(st);
    o->len = s.size();
}

struct opt_in { std::size_t length; bool has_len; bool varying; bool for_write; bool is_key; };

template<class T, bool Rec, bool Nul>
static void enc_var(rec_out* o, T v, meta::field_type const& t, bool for_write, bool is_key, int ord, char* buf, std::size_t cap, bool ign) {
    kvs::coding_context ctx{};
    ctx.coding_for_write(for_write);
    kvs::coding_spec spec{is_key, static_cast<order>(ord)};
    kvs::writable_stream s{buf, cap, ign};
    status st{};
    if constexpr (Rec) {
        record<T> r{v, 0};
        accessor::const_record_ref ref{&r, sizeof r};
        if constexpr (Nul) st = kvs::encode_nullable(ref, offsetof(record<T>, v), nul_bit(offsetof(record<T>, nulls)), t, spec, ctx, s);
        else st = kvs::encode(ref, offsetof(record<T>, v), t, spec, ctx, s);
    } else {
        data::any a{std::in_place_type<T>, v};
        if constexpr (Nul) st = kvs::encode_nullable(a, t, spec, ctx, s);
        else st = kvs::encode(a, t, spec, ctx, s);
    }
    o->status = static_cast<std::int64_t>(st);
    o->len = s.size();
}
static std::optional<std::size_t> opt_len(std::size_t length, bool has) { return has ? std::optional<std::size_t>{length} : std::nullopt; }
template<bool Rec, bool Nul>
static void enc_text(rec_out* o, char const* d, std::size_t n, bool has_len, std::size_t length, bool varying, bool for_write, bool is_key, int ord, char* buf, std::size_t cap, bool ign) {
    meta::field_type t{std::make_shared<meta::character_field_option>(varying, opt_len(length, has_len))};
    enc_var<accessor::text, Rec, Nul>(o, accessor::text{d, n}, t, for_write, is_key, ord, buf, cap, ign);
}
template<bool Rec, bool Nul>
static void enc_octet(rec_out* o, char const* d, std::size_t n, bool has_len, std::size_t length, bool varying, bool for_write, bool is_key, int ord, char* buf, std::size_t cap, bool ign) {
    meta::field_type t{std::make_shared<meta::octet_field_option>(varying, opt_len(length, has_len))};
    enc_var<accessor::binary, Rec, Nul>(o, accessor::binary{d, n}, t, for_write, is_key, ord, buf, cap, ign);
}
template<bool Rec, bool Nul>
static void enc_decimal(rec_out* o, int sign, std::uint64_t hi, std::uint64_t lo, int exponent, std::size_t precision, std::size_t scale, int ord, char* buf, std::size_t cap, bool ign) {
    meta::field_type t{std::make_shared<meta::decimal_field_option>(precision, scale)};
    enc_var<takatori::decimal::triple, Rec, Nul>(o, takatori::decimal::triple{sign, hi, lo, exponent}, t, true, ord != 0, ord, buf, cap, ign);
}
extern "C" {
#define VAR(S, R, N) \
void enc##S##_text(rec_out* o, char const* d, std::size_t n, bool has_len, std::size_t length, bool varying, bool for_write, bool is_key, int ord, char* buf, std::size_t cap, bool ign) { enc_text<R, N>(o, d, n, has_len, length, varying, for_write, is_key, ord, buf, cap, ign); } \
void enc##S##_octet(rec_out* o, char const* d, std::size_t n, bool has_len, std::size_t length, bool varying, bool for_write, bool is_key, int ord, char* buf, std::size_t cap, bool ign) { enc_octet<R, N>(o, d, n, has_len, length, varying, for_write, is_key, ord, buf, cap, ign); } \
void enc##S##_decimal(rec_out* o, int sign, std::uint64_t hi, std::uint64_t lo, int exponent, std::size_t precision, std::size_t scale, int ord, char* buf, std::size_t cap, bool ign) { enc_decimal<R, N>(o, sign, hi, lo, exponent, precision, scale, ord, buf, cap, ign); }
VAR(_any, false, false) VAR(n_any, false, true) VAR(_rec, true, false) VAR(n_rec, true, true)
}

struct dec_out { std::int64_t status; std::size_t len; std::int64_t a; std::int64_t b; std::int64_t null; };

template<class T, class C, kind K, bool Rec, bool Nul>
static void dec(dec_out* o, int ord, char const* buf, std::size_t n) {
    kvs::coding_context ctx{};
    kvs::coding_spec spec{ord != 0, static_cast<order>(ord)};
    kvs::readable_stream s{buf, n};
    auto t = ft<K>();
    status st{};
    if constexpr (Rec) {
        auto init = static_cast<unsigned char>(Nul ? o->null : o->null & 0xfe);   // whatever the record held before
        record<T> r{C::make(0, 0), init};
        accessor::record_ref ref{&r, sizeof r};
        if constexpr (Nul) st = kvs::decode_nullable(s, t, spec, ctx, ref, offsetof(record<T>, v), nul_bit(offsetof(record<T>, nulls)));
        else st = kvs::decode(s, t, spec, ctx, ref, offsetof(record<T>, v));
        o->null = (r.nulls & 1) | ((r.nulls ^ init) & 0xfe);   // the null bits of other fields stay
        o->a = C::a(r.v);
        o->b = C::b(r.v);
    } else {
        data::any v{std::in_place_type<std::int64_t>, std::int64_t{1}};   // a variable in use: its old value must not show through
        if constexpr (Nul) st = kvs::decode_nullable(s, t, spec, ctx, v);
        else st = kvs::decode(s, t, spec, ctx, v);
        o->null = v.empty() ? 1 : 0;
        if (st == status::ok && !v.empty()) {
            o->a = C::a(v.to<T>());
            o->b = C::b(v.to<T>());
        }
    }
    o->status = static_cast<std::int64_t>(st);
    o->len = s.size();
}

// variable length values: the decoded text goes to out, which has room for every byte of the input
struct heap_resource : memory::paged_memory_resource {
    void end_current_page() override {}
    std::size_t do_page_remaining(std::size_t) const noexcept override { return 0; }
    void* do_allocate(std::size_t bytes, std::size_t) override { return ::operator new(bytes); }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(boost::container::pmr::memory_resource const& o) const noexcept override { return this == std::addressof(o); }
};
template<class T> static void take(dec_out* o, T const& v, char* out) {
    std::string_view sv{v};
    o->a = static_cast<std::int64_t>(sv.size());
    if (!sv.empty()) std::memcpy(out, sv.data(), sv.size());
}
struct triple_out { std::uint64_t hi; std::uint64_t lo; std::int64_t sign; std::int64_t exponent; };
template<> void take<takatori::decimal::triple>(dec_out*, takatori::decimal::triple const& v, char* out) {
    triple_out t{v.coefficient_high(), v.coefficient_low(), v.sign(), v.exponent()};
    std::memcpy(out, &t, sizeof t);
}

template<class T, bool Rec, bool Nul>
static void dec_var(dec_out* o, meta::field_type const& t, int ord, char const* buf, std::size_t n, char* out) {
    kvs::coding_context ctx{};
    kvs::coding_spec spec{ord != 0, static_cast<order>(ord)};
    kvs::readable_stream s{buf, n};
    heap_resource res{};
    status st{};
    if constexpr (Rec) {
        auto init = static_cast<unsigned char>(Nul ? o->null : o->null & 0xfe);
        record<T> r{T{}, init};
        accessor::record_ref ref{&r, sizeof r};
        if constexpr (Nul) st = kvs::decode_nullable(s, t, spec, ctx, ref, offsetof(record<T>, v), nul_bit(offsetof(record<T>, nulls)), &res);
        else st = kvs::decode(s, t, spec, ctx, ref, offsetof(record<T>, v), &res);
        o->null = (r.nulls & 1) | ((r.nulls ^ init) & 0xfe);   // the null bits of other fields stay
        take(o, r.v, out);
    } else {
        data::any v{std::in_place_type<std::int64_t>, std::int64_t{1}};   // a variable in use: its old value must not show through
        if constexpr (Nul) st = kvs::decode_nullable(s, t, spec, ctx, v, &res);
        else st = kvs::decode(s, t, spec, ctx, v, &res);
        o->null = v.empty() ? 1 : 0;
        if (st == status::ok && !v.empty()) take(o, v.to<T>(), out);
    }
    o->status = static_cast<std::int64_t>(st);
    o->len = s.size();
}
template<bool Nul>
static void cons_var(rec_out* o, meta::field_type const& t, int ord, char const* buf, std::size_t n) {
    kvs::coding_context ctx{};
    kvs::coding_spec spec{ord != 0, static_cast<order>(ord)};
    kvs::readable_stream s{buf, n};
    status st = Nul ? kvs::consume_stream_nullable(s, t, spec, ctx) : kvs::consume_stream(s, t, spec, ctx);
    o->status = static_cast<std::int64_t>(st);
    o->len = s.size();
}
static meta::field_type text_type(bool varying, std::size_t length) { return meta::field_type{std::make_shared<meta::character_field_option>(varying, length)}; }
static meta::field_type octet_type(bool varying, std::size_t length) { return meta::field_type{std::make_shared<meta::octet_field_option>(varying, length)}; }
static meta::field_type decimal_type(std::size_t p, std::size_t s) { return meta::field_type{std::make_shared<meta::decimal_field_option>(p, s)}; }
extern "C" {
#define DVAR(S, R, N) \
void dec##S##_text(dec_out* o, bool varying, std::size_t length, int ord, char const* buf, std::size_t n, char* out) { dec_var<accessor::text, R, N>(o, text_type(varying, length), ord, buf, n, out); } \
void dec##S##_octet(dec_out* o, bool varying, std::size_t length, int ord, char const* buf, std::size_t n, char* out) { dec_var<accessor::binary, R, N>(o, octet_type(varying, length), ord, buf, n, out); } \
void dec##S##_decimal(dec_out* o, std::size_t p, std::size_t sc, int ord, char const* buf, std::size_t n, char* out) { dec_var<takatori::decimal::triple, R, N>(o, decimal_type(p, sc), ord, buf, n, out); }
DVAR(_any, false, false) DVAR(n_any, false, true) DVAR(_rec, true, false) DVAR(n_rec, true, true)
#define CVAR(S, N) \
void cons##S##_text(rec_out* o, bool varying, std::size_t length, int ord, char const* buf, std::size_t n) { cons_var<N>(o, text_type(varying, length), ord, buf, n); } \
void cons##S##_octet(rec_out* o, bool varying, std::size_t length, int ord, char const* buf, std::size_t n) { cons_var<N>(o, octet_type(varying, length), ord, buf, n); } \
void cons##S##_decimal(rec_out* o, std::size_t p, std::size_t sc, int ord, char const* buf, std::size_t n) { cons_var<N>(o, decimal_type(p, sc), ord, buf, n); }
CVAR(, false) CVAR(n, true)
}

template<kind K, bool Nul>
static void consume(rec_out* o, int ord, char const* buf, std::size_t n) {
    kvs::coding_context ctx{};
    kvs::coding_spec spec{ord != 0, static_cast<order>(ord)};
    kvs::readable_stream s{buf, n};
    auto t = ft<K>();
    status st = Nul ? kvs::consume_stream_nullable(s, t, spec, ctx) : kvs::consume_stream(s, t, spec, ctx);
    o->status = static_cast<std::int64_t>(st);
    o->len = s.size();
}

extern "C" {
#define KIND(K, T, C) \
void enc_any_##K(rec_out* o, std::int64_t a, std::int64_t b, int ord, bool null, char* buf, std::size_t cap, bool ign) { enc<T, C, kind::K, false, false>(o, a, b, ord, null, buf, cap, ign); } \
void enc_rec_##K(rec_out* o, std::int64_t a, std::int64_t b, int ord, bool null, char* buf, std::size_t cap, bool ign) { enc<T, C, kind::K, true, false>(o, a, b, ord, null, buf, cap, ign); } \
void encn_any_##K(rec_out* o, std::int64_t a, std::int64_t b, int ord, bool null, char* buf, std::size_t cap, bool ign) { enc<T, C, kind::K, false, true>(o, a, b, ord, null, buf, cap, ign); } \
void encn_rec_##K(rec_out* o, std::int64_t a, std::int64_t b, int ord, bool null, char* buf, std::size_t cap, bool ign) { enc<T, C, kind::K, true, true>(o, a, b, ord, null, buf, cap, ign); } \
void dec_any_##K(dec_out* o, int ord, char const* buf, std::size_t n) { dec<T, C, kind::K, false, false>(o, ord, buf, n); } \
void dec_rec_##K(dec_out* o, int ord, char const* buf, std::size_t n) { dec<T, C, kind::K, true, false>(o, ord, buf, n); } \
void decn_any_##K(dec_out* o, int ord, char const* buf, std::size_t n) { dec<T, C, kind::K, false, true>(o, ord, buf, n); } \
void decn_rec_##K(dec_out* o, int ord, char const* buf, std::size_t n) { dec<T, C, kind::K, true, true>(o, ord, buf, n); } \
void cons_##K(rec_out* o, int ord, char const* buf, std::size_t n) { consume<kind::K, false>(o, ord, buf, n); } \
void consn_##K(rec_out* o, int ord, char const* buf, std::size_t n) { consume<kind::K, true>(o, ord, buf, n); }
KIND(boolean, std::int8_t, int_conv<std::int8_t>)
KIND(int1, std::int32_t, int_conv<std::int32_t>)
KIND(int2, std::int32_t, int_conv<std::int32_t>)
KIND(int4, std::int32_t, int_conv<std::int32_t>)
KIND(int8, std::int64_t, int_conv<std::int64_t>)
typedef fp_conv<float, std::uint32_t> f4c;
typedef fp_conv<double, std::uint64_t> f8c;
KIND(float4, float, f4c)
KIND(float8, double, f8c)
KIND(date, tt::date, date_conv)
KIND(time_of_day, tt::time_of_day, tod_conv)
KIND(time_point, tt::time_point, tp_conv)
KIND(blob, lob::blob_reference, lob_conv<lob::blob_reference>)
KIND(clob, lob::clob_reference, lob_conv<lob::clob_reference>)
}

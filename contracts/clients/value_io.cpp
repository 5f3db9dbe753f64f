// client of the result set format: runs the real writer / reader on one entry
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <string_view>
#include <jogasaki/serializer/value_output.h>
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/serializer/base128v.h>
using namespace jogasaki::serializer;
namespace tt = takatori::datetime;
struct w_out { std::int64_t ok; std::int64_t len; };
struct r_out { std::int64_t failed; std::int64_t len; std::uint64_t v[4]; };
template<class F> static void wr(w_out* o, char* buf, std::size_t cap, F const& f) { char* it = buf; o->ok = f(it, static_cast<char const*>(buf + cap)) ? 1 : 0; o->len = it - buf; }
template<class F> static void rd(r_out* o, char const* buf, std::size_t n, F const& f) {
    char const* it = buf;
    o->failed = 0;
    try { f(it, buf + n, o->v); } catch (std::runtime_error const&) { o->failed = 1; } catch (...) { o->failed = 2; }
    o->len = it - buf;
}
static tt::time_point tp(std::int64_t s, std::int64_t ns) { return tt::time_point{tt::time_point::offset_type{s}, std::chrono::nanoseconds{ns}}; }
static tt::time_of_day tod(std::uint64_t v) { return tt::time_of_day{tt::time_of_day::time_unit{v}}; }
using it_t = char const*;
static std::uint64_t code(entry_type t) {
    switch (t) {
        case entry_type::end_of_contents: return 1; case entry_type::null: return 2; case entry_type::int_: return 3; case entry_type::float4: return 4;
        case entry_type::float8: return 5; case entry_type::decimal: return 6; case entry_type::character: return 7; case entry_type::octet: return 8;
        case entry_type::bit: return 9; case entry_type::date: return 10; case entry_type::time_of_day: return 11; case entry_type::time_of_day_with_offset: return 12;
        case entry_type::time_point: return 13; case entry_type::time_point_with_offset: return 14; case entry_type::datetime_interval: return 15;
        case entry_type::row: return 16; case entry_type::array: return 17; case entry_type::clob: return 18; case entry_type::blob: return 19;
    }
    return 0;
}
extern "C" {
void w_uint(w_out* o, std::uint64_t v, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return base128v::write_unsigned(v, p, e); }); }
void w_sint(w_out* o, std::int64_t v, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return base128v::write_signed(v, p, e); }); }
std::size_t s_uint(std::uint64_t v) { return base128v::size_unsigned(v); }
std::size_t s_sint(std::int64_t v) { return base128v::size_signed(v); }
void w_end(w_out* o, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_end_of_contents(p, e); }); }
void w_null(w_out* o, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_null(p, e); }); }
void w_int(w_out* o, std::int64_t v, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_int(v, p, e); }); }
void w_float4(w_out* o, std::uint32_t v, char* buf, std::size_t cap) { float f; std::memcpy(&f, &v, sizeof f); wr(o, buf, cap, [&](char*& p, it_t e) { return write_float4(f, p, e); }); }
void w_float8(w_out* o, std::uint64_t v, char* buf, std::size_t cap) { double f; std::memcpy(&f, &v, sizeof f); wr(o, buf, cap, [&](char*& p, it_t e) { return write_float8(f, p, e); }); }
void w_decimal(w_out* o, int sign, std::uint64_t hi, std::uint64_t lo, int exp, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_decimal(takatori::decimal::triple{sign, hi, lo, exp}, p, e); }); }
void w_character(w_out* o, char const* d, std::size_t n, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_character(std::string_view{d, n}, p, e); }); }
void w_octet(w_out* o, char const* d, std::size_t n, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_octet(std::string_view{d, n}, p, e); }); }
void w_date(w_out* o, std::int64_t v, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_date(tt::date{v}, p, e); }); }
void w_tod(w_out* o, std::uint64_t v, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_time_of_day(tod(v), p, e); }); }
void w_todo(w_out* o, std::uint64_t v, int off, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_time_of_day_with_offset(tod(v), off, p, e); }); }
void w_tp(w_out* o, std::int64_t s, std::int64_t ns, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_time_point(tp(s, ns), p, e); }); }
void w_tpo(w_out* o, std::int64_t s, std::int64_t ns, int off, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_time_point_with_offset(tp(s, ns), off, p, e); }); }
void w_interval(w_out* o, int y, int m, int d, std::int64_t t, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_datetime_interval(tt::datetime_interval{tt::date_interval{y, m, d}, tt::time_interval{tt::time_interval::time_unit{t}}}, p, e); }); }
void w_array(w_out* o, std::uint64_t n, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_array_begin(n, p, e); }); }
void w_row(w_out* o, std::uint64_t n, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_row_begin(n, p, e); }); }
void w_blob(w_out* o, std::uint64_t a, std::uint64_t b, std::uint64_t c, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_blob(a, b, c, p, e); }); }
void w_clob(w_out* o, std::uint64_t a, std::uint64_t b, std::uint64_t c, char* buf, std::size_t cap) { wr(o, buf, cap, [&](char*& p, it_t e) { return write_clob(a, b, c, p, e); }); }

void r_type(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { v[0] = code(peek_type(p, e)); }); }
void r_end(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t*) { read_end_of_contents(p, e); }); }
void r_null(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t*) { read_null(p, e); }); }
void r_int(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { v[0] = static_cast<std::uint64_t>(read_int(p, e)); }); }
void r_float4(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { float f = read_float4(p, e); std::uint32_t u; std::memcpy(&u, &f, 4); v[0] = u; }); }
void r_float8(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { double f = read_float8(p, e); std::memcpy(v, &f, 8); }); }
void r_decimal(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { auto t = read_decimal(p, e); v[0] = t.coefficient_high(); v[1] = t.coefficient_low(); v[2] = static_cast<std::uint64_t>(static_cast<std::int64_t>(t.sign())); v[3] = static_cast<std::uint64_t>(static_cast<std::int64_t>(t.exponent())); }); }
void r_character(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [b](it_t& p, it_t e, std::uint64_t* v) { auto s = read_character(p, e); v[0] = static_cast<std::uint64_t>(s.data() - b); v[1] = s.size(); }); }
void r_octet(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [b](it_t& p, it_t e, std::uint64_t* v) { auto s = read_octet(p, e); v[0] = static_cast<std::uint64_t>(s.data() - b); v[1] = s.size(); }); }
void r_date(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { v[0] = static_cast<std::uint64_t>(read_date(p, e).days_since_epoch()); }); }
void r_tod(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { v[0] = read_time_of_day(p, e).time_since_epoch().count(); }); }
void r_todo(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { auto r = read_time_of_day_with_offset(p, e); v[0] = r.first.time_since_epoch().count(); v[1] = static_cast<std::uint64_t>(static_cast<std::int64_t>(r.second)); }); }
void r_tp(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { auto r = read_time_point(p, e); v[0] = static_cast<std::uint64_t>(r.seconds_since_epoch().count()); v[1] = static_cast<std::uint64_t>(r.subsecond().count()); }); }
void r_tpo(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { auto r = read_time_point_with_offset(p, e); v[0] = static_cast<std::uint64_t>(r.first.seconds_since_epoch().count()); v[1] = static_cast<std::uint64_t>(r.first.subsecond().count()); v[2] = static_cast<std::uint64_t>(static_cast<std::int64_t>(r.second)); }); }
void r_interval(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { auto r = read_datetime_interval(p, e); v[0] = static_cast<std::uint64_t>(static_cast<std::int64_t>(r.date().year())); v[1] = static_cast<std::uint64_t>(static_cast<std::int64_t>(r.date().month())); v[2] = static_cast<std::uint64_t>(static_cast<std::int64_t>(r.date().day())); v[3] = static_cast<std::uint64_t>(r.time().offset().count()); }); }
void r_array(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { v[0] = read_array_begin(p, e); }); }
void r_row(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { v[0] = read_row_begin(p, e); }); }
void r_blob(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { auto [x, y, z] = read_blob(p, e); v[0] = x; v[1] = y; v[2] = z; }); }
void r_clob(r_out* o, char const* b, std::size_t n) { rd(o, b, n, [](it_t& p, it_t e, std::uint64_t* v) { auto [x, y, z] = read_clob(p, e); v[0] = x; v[1] = y; v[2] = z; }); }
}

// client of record comparison, hashing and partitioning
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <jogasaki/executor/comparator.h>
#include <jogasaki/executor/compare_info.h>
#include <jogasaki/executor/equal_to.h>
#include <jogasaki/executor/hash.h>
#include <jogasaki/executor/partitioner.h>
using namespace jogasaki;
using namespace jogasaki::executor;
template<class T, class B> static T from_bits(B b) { T v; std::memcpy(&v, &b, sizeof v); return v; }
template<class T> static int three(T const& x, T const& y) { return less{}(x, y) ? -1 : less{}(y, x) ? 1 : 0; }
extern "C" {
int cmp_records(compare_info const* info, char const* a, std::size_t an, char const* b, std::size_t bn) { comparator c{*info}; return c(accessor::const_record_ref{a, an}, accessor::const_record_ref{b, bn}); }
std::size_t hash_record(meta::record_meta const* m, char const* a, std::size_t an) { class hash h{m}; return h(accessor::const_record_ref{a, an}); }
std::size_t partition_record(meta::record_meta* m, std::size_t parts, char const* a, std::size_t an) { partitioner p{parts, maybe_shared_ptr<meta::record_meta>{m}}; return p(accessor::const_record_ref{a, an}); }
bool opposite_at(meta::record_meta const* m, ordering const* o, std::size_t n, std::size_t i) { compare_info c{*m, std::vector<ordering>(o, o + n)}; return c.opposite(i); }
bool left_right(meta::record_meta const* l, meta::record_meta const* r) { compare_info c{*l, *r}; return std::addressof(c.left()) == l && std::addressof(c.right()) == r; }
bool eq_f4(std::uint32_t x, std::uint32_t y) { return equal_to(from_bits<float>(x), from_bits<float>(y)); }
bool eq_f8(std::uint64_t x, std::uint64_t y) { return equal_to(from_bits<double>(x), from_bits<double>(y)); }
int cmp_f4(std::uint32_t x, std::uint32_t y) { return three(from_bits<float>(x), from_bits<float>(y)); }
int cmp_f8(std::uint64_t x, std::uint64_t y) { return three(from_bits<double>(x), from_bits<double>(y)); }
bool eq_i1(std::int8_t x, std::int8_t y) { return equal_to(x, y); }
bool eq_i4(std::int32_t x, std::int32_t y) { return equal_to(x, y); }
bool eq_i8(std::int64_t x, std::int64_t y) { return equal_to(x, y); }
int cmp_i1(std::int8_t x, std::int8_t y) { return three(x, y); }
int cmp_i4(std::int32_t x, std::int32_t y) { return three(x, y); }
int cmp_i8(std::int64_t x, std::int64_t y) { return three(x, y); }
bool eq_date(std::int64_t x, std::int64_t y) { using takatori::datetime::date; return equal_to(date{x}, date{y}); }
int cmp_date(std::int64_t x, std::int64_t y) { using takatori::datetime::date; return three(date{x}, date{y}); }
static takatori::datetime::time_of_day tod(std::uint64_t v) { return takatori::datetime::time_of_day{takatori::datetime::time_of_day::time_unit{v}}; }
static takatori::datetime::time_point tp(std::int64_t s, std::int64_t n) { return takatori::datetime::time_point{takatori::datetime::time_point::offset_type{s}, std::chrono::nanoseconds{n}}; }
bool eq_tod(std::uint64_t x, std::uint64_t y) { return equal_to(tod(x), tod(y)); }
int cmp_tod(std::uint64_t x, std::uint64_t y) { return three(tod(x), tod(y)); }
bool eq_tp(std::int64_t x, std::int64_t xn, std::int64_t y, std::int64_t yn) { return equal_to(tp(x, xn), tp(y, yn)); }
int cmp_tp(std::int64_t x, std::int64_t xn, std::int64_t y, std::int64_t yn) { return three(tp(x, xn), tp(y, yn)); }
}
template<meta::field_type_kind K> static void put(std::uint64_t* o) { o[2 * static_cast<std::size_t>(K)] = meta::field_type_traits<K>::size; o[2 * static_cast<std::size_t>(K) + 1] = meta::field_type_traits<K>::alignment; }
extern "C" std::size_t hash_text(accessor::text const& t) { return std::hash<accessor::text>{}(t); }
extern "C" std::size_t hash_binary(accessor::binary const& t) { return std::hash<accessor::binary>{}(t); }
extern "C" std::uint64_t lob_id(lob::lob_reference const& r) { return static_cast<std::uint64_t>(r.object_id()); }
extern "C" std::uint64_t lob_provider(lob::lob_reference const& r) { return static_cast<std::uint64_t>(r.provider()); }
extern "C" void value_sizes(std::uint64_t* o) {
    using k = meta::field_type_kind;
    put<k::boolean>(o); put<k::int1>(o); put<k::int2>(o); put<k::int4>(o); put<k::int8>(o); put<k::float4>(o); put<k::float8>(o); put<k::decimal>(o); put<k::character>(o); put<k::octet>(o);
    put<k::date>(o); put<k::time_of_day>(o); put<k::time_point>(o); put<k::blob>(o); put<k::clob>(o); put<k::pointer>(o); put<k::unknown>(o);
}

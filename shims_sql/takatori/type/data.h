#pragma once
// stand-in for the type descriptions: a kind, and the attributes the sources read
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <optional>
#include <ostream>
#include <string_view>
namespace takatori::type {
enum class type_kind { boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, unknown, row_reference, row_id, declared, extension, table, blob, clob };
inline std::ostream& operator<<(std::ostream& out, type_kind k) { return out << static_cast<int>(k); }
class data {
public:
    type_kind kind_{}; bool varying_{}; std::optional<std::size_t> length_{}; std::optional<std::size_t> precision_{}; std::optional<std::size_t> scale_{}; bool tz_{};
    explicit data(type_kind k = type_kind::unknown) noexcept : kind_(k) {}
    type_kind kind() const noexcept { return kind_; }
    friend bool operator==(data const& a, data const& b) noexcept { return a.kind_ == b.kind_ && a.varying_ == b.varying_ && a.length_ == b.length_ && a.precision_ == b.precision_ && a.scale_ == b.scale_ && a.tz_ == b.tz_; }
    friend bool operator!=(data const& a, data const& b) noexcept { return !(a == b); }
};
inline std::ostream& operator<<(std::ostream& out, data const& d) { return out << d.kind(); }
struct varying_t {}; inline constexpr varying_t varying{};
struct with_time_zone_t { bool v{}; explicit constexpr with_time_zone_t(bool x) : v(x) {} constexpr with_time_zone_t operator~() const { return with_time_zone_t{!v}; } };
inline constexpr with_time_zone_t with_time_zone{true};
class character : public data { public: character() : data(type_kind::character) {} explicit character(varying_t) : data(type_kind::character) { varying_ = true; }
    character(varying_t, std::optional<std::size_t> l) : data(type_kind::character) { varying_ = true; length_ = l; } explicit character(std::optional<std::size_t> l) : data(type_kind::character) { length_ = l; }
    bool varying() const noexcept { return varying_; } std::optional<std::size_t> length() const noexcept { return length_; } };
class octet : public data { public: octet() : data(type_kind::octet) {} explicit octet(varying_t) : data(type_kind::octet) { varying_ = true; }
    octet(varying_t, std::optional<std::size_t> l) : data(type_kind::octet) { varying_ = true; length_ = l; } explicit octet(std::optional<std::size_t> l) : data(type_kind::octet) { length_ = l; }
    bool varying() const noexcept { return varying_; } std::optional<std::size_t> length() const noexcept { return length_; } };
class decimal : public data { public: decimal() : data(type_kind::decimal) {} decimal(std::optional<std::size_t> p, std::optional<std::size_t> s) : data(type_kind::decimal) { precision_ = p; scale_ = s; }
    std::optional<std::size_t> precision() const noexcept { return precision_; } std::optional<std::size_t> scale() const noexcept { return scale_; } };
template <type_kind K> class simple_type : public data { public: simple_type() : data(K) {} };
using boolean = simple_type<type_kind::boolean>; using int1 = simple_type<type_kind::int1>; using int2 = simple_type<type_kind::int2>; using int4 = simple_type<type_kind::int4>; using int8 = simple_type<type_kind::int8>;
using float4 = simple_type<type_kind::float4>; using float8 = simple_type<type_kind::float8>; using date = simple_type<type_kind::date>; using blob = simple_type<type_kind::blob>; using clob = simple_type<type_kind::clob>; using unknown = simple_type<type_kind::unknown>;
class time_of_day : public data { public: time_of_day() : data(type_kind::time_of_day) {} explicit time_of_day(with_time_zone_t z) : data(type_kind::time_of_day) { tz_ = z.v; } bool with_time_zone() const noexcept { return tz_; } };
class time_point : public data { public: time_point() : data(type_kind::time_point) {} explicit time_point(with_time_zone_t z) : data(type_kind::time_point) { tz_ = z.v; } bool with_time_zone() const noexcept { return tz_; } };
}

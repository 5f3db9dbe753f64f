#pragma once
// stand-in: seconds since the epoch and a sub-second part in [0, 10^9) nanoseconds
#include <chrono>
#include <cstdint>
#include <functional>
#include <ostream>
#include "date.h"
#include "time_of_day.h"
namespace takatori::datetime {
class time_point {
public:
    using offset_type = std::chrono::duration<std::int64_t>;
    using difference_type = std::chrono::nanoseconds;
    using subsecond_unit = std::chrono::duration<std::uint64_t, std::nano>;
    constexpr time_point() noexcept = default;
    constexpr explicit time_point(offset_type s, difference_type ns = difference_type{0}) noexcept : s_(s), ns_(ns) {}
    [[nodiscard]] constexpr offset_type seconds_since_epoch() const noexcept { return s_; }
    [[nodiscard]] constexpr difference_type subsecond() const noexcept { return ns_; }
    friend constexpr bool operator==(time_point a, time_point b) noexcept { return a.s_ == b.s_ && a.ns_ == b.ns_; }
    friend constexpr bool operator!=(time_point a, time_point b) noexcept { return !(a == b); }
    friend constexpr bool operator<(time_point a, time_point b) noexcept { return a.s_ < b.s_ || (a.s_ == b.s_ && a.ns_ < b.ns_); }
    friend constexpr bool operator>(time_point a, time_point b) noexcept { return b < a; }
    friend constexpr bool operator<=(time_point a, time_point b) noexcept { return !(b < a); }
    friend constexpr bool operator>=(time_point a, time_point b) noexcept { return !(a < b); }
    friend std::ostream& operator<<(std::ostream& out, time_point v) { return out << v.s_.count() << "." << v.ns_.count(); }
private:
    offset_type s_{};
    difference_type ns_{};
};
}
template<>
struct std::hash<takatori::datetime::time_point> {
    // a function of the value only
    std::size_t operator()(takatori::datetime::time_point const& v) const noexcept { return static_cast<std::size_t>(v.seconds_since_epoch().count()) * 1000000007U + static_cast<std::size_t>(v.subsecond().count()); }
};

#pragma once
// stand-in: nanoseconds since midnight
#include <chrono>
#include <cstdint>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class time_of_day {
public:
    using time_unit = std::chrono::duration<std::uint64_t, std::nano>;
    constexpr time_of_day() noexcept = default;
    constexpr explicit time_of_day(time_unit t) noexcept : t_(t) {}
    [[nodiscard]] constexpr time_unit time_since_epoch() const noexcept { return t_; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) noexcept { return a.t_ == b.t_; }
    friend constexpr bool operator!=(time_of_day a, time_of_day b) noexcept { return a.t_ != b.t_; }
    friend constexpr bool operator<(time_of_day a, time_of_day b) noexcept { return a.t_ < b.t_; }
    friend constexpr bool operator>(time_of_day a, time_of_day b) noexcept { return a.t_ > b.t_; }
    friend constexpr bool operator<=(time_of_day a, time_of_day b) noexcept { return a.t_ <= b.t_; }
    friend constexpr bool operator>=(time_of_day a, time_of_day b) noexcept { return a.t_ >= b.t_; }
    friend std::ostream& operator<<(std::ostream& out, time_of_day v) { return out << v.t_.count(); }
private:
    time_unit t_{};
};
}
template<>
struct std::hash<takatori::datetime::time_of_day> {
    // a function of the value only
    std::size_t operator()(takatori::datetime::time_of_day const& v) const noexcept { return static_cast<std::size_t>(v.time_since_epoch().count()); }
};

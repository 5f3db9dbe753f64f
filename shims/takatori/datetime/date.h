#pragma once
// stand-in: days since 1970-01-01
#include <cstdint>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class date {
public:
    using difference_type = std::int64_t;
    constexpr date() noexcept = default;
    constexpr explicit date(difference_type d) noexcept : days_(d) {}
    [[nodiscard]] constexpr difference_type days_since_epoch() const noexcept { return days_; }
    friend constexpr bool operator==(date a, date b) noexcept { return a.days_ == b.days_; }
    friend constexpr bool operator!=(date a, date b) noexcept { return a.days_ != b.days_; }
    friend constexpr bool operator<(date a, date b) noexcept { return a.days_ < b.days_; }
    friend constexpr bool operator>(date a, date b) noexcept { return a.days_ > b.days_; }
    friend constexpr bool operator<=(date a, date b) noexcept { return a.days_ <= b.days_; }
    friend constexpr bool operator>=(date a, date b) noexcept { return a.days_ >= b.days_; }
    friend std::ostream& operator<<(std::ostream& out, date v) { return out << v.days_; }
private:
    difference_type days_{};
};
}
template<>
struct std::hash<takatori::datetime::date> {
    // a function of the value only
    std::size_t operator()(takatori::datetime::date const& v) const noexcept { return static_cast<std::size_t>(v.days_since_epoch()); }
};

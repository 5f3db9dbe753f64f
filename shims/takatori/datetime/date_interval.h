#pragma once
// stand-in: years, months and days
#include <cstdint>
namespace takatori::datetime {
class date_interval {
public:
    constexpr date_interval() noexcept = default;
    constexpr date_interval(std::int32_t y, std::int32_t m, std::int32_t d) noexcept : y_(y), m_(m), d_(d) {}
    [[nodiscard]] constexpr std::int32_t year() const noexcept { return y_; }
    [[nodiscard]] constexpr std::int32_t month() const noexcept { return m_; }
    [[nodiscard]] constexpr std::int32_t day() const noexcept { return d_; }
private:
    std::int32_t y_{}, m_{}, d_{};
};
}

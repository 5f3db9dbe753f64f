#pragma once
// stand-in: nanoseconds
#include <chrono>
#include <cstdint>
namespace takatori::datetime {
class time_interval {
public:
    using time_unit = std::chrono::duration<std::int64_t, std::nano>;
    constexpr time_interval() noexcept = default;
    constexpr explicit time_interval(time_unit v) noexcept : v_(v) {}
    [[nodiscard]] constexpr time_unit offset() const noexcept { return v_; }
private:
    time_unit v_{};
};
}

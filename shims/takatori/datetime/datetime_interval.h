#pragma once
#include "date_interval.h"
#include "time_interval.h"
namespace takatori::datetime {
class datetime_interval {
public:
    constexpr datetime_interval() noexcept = default;
    constexpr datetime_interval(date_interval d, time_interval t) noexcept : d_(d), t_(t) {}
    [[nodiscard]] constexpr date_interval date() const noexcept { return d_; }
    [[nodiscard]] constexpr time_interval time() const noexcept { return t_; }
private:
    date_interval d_{};
    time_interval t_{};
};
}

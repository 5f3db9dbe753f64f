#pragma once
// stand-in: sign, 128-bit coefficient, exponent
#include <cstdint>
#include <functional>
#include <ostream>
namespace decimal { class Decimal; }
namespace takatori::decimal {
class triple {
public:
    constexpr triple() noexcept = default;
    constexpr triple(std::int32_t sign, std::uint64_t hi, std::uint64_t lo, std::int32_t exponent) noexcept :
        hi_(hi), lo_(lo), exponent_(exponent), sign_((hi | lo) == 0 ? 0 : (sign < 0 ? -1 : 1)) {}
    constexpr triple(std::int64_t coefficient, std::int32_t exponent) noexcept :
        triple(coefficient < 0 ? -1 : 1, 0, coefficient < 0 ? ~static_cast<std::uint64_t>(coefficient) + 1 : static_cast<std::uint64_t>(coefficient), exponent) {}
    explicit triple(::decimal::Decimal const& v);
    explicit operator ::decimal::Decimal() const;
    [[nodiscard]] constexpr std::int32_t sign() const noexcept { return sign_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_high() const noexcept { return hi_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_low() const noexcept { return lo_; }
    [[nodiscard]] constexpr std::int32_t exponent() const noexcept { return exponent_; }
    friend constexpr bool operator==(triple a, triple b) noexcept { return a.hi_ == b.hi_ && a.lo_ == b.lo_ && a.exponent_ == b.exponent_ && a.sign_ == b.sign_; }
    friend constexpr bool operator!=(triple a, triple b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, triple v) { return out << v.sign_ << ":" << v.hi_ << ":" << v.lo_ << ":" << v.exponent_; }
private:
    std::uint64_t hi_{};
    std::uint64_t lo_{};
    std::int32_t exponent_{};
    std::int32_t sign_{};
};
}
template<>
struct std::hash<takatori::decimal::triple> {
    // a function of the value only
    std::size_t operator()(takatori::decimal::triple const& v) const noexcept { return ((static_cast<std::size_t>(v.coefficient_high()) * 31U + v.coefficient_low()) * 31U + static_cast<std::size_t>(v.exponent())) * 3U + static_cast<std::size_t>(v.sign() + 1); }
};

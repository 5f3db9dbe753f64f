#pragma once
// stand-in for mpdecimal's C++ interface: only what the sources name; bodies are assumed contracts
#include <cstdint>
#include <string>
#include <type_traits>
#include <takatori/decimal/triple.h>
inline constexpr std::uint32_t MPD_IEEE_Invalid_operation = 0x3baU;
inline constexpr std::uint32_t MPD_Inexact = 0x40U;
inline constexpr std::uint32_t MPD_Overflow = 0x800U;
inline constexpr std::uint32_t MPD_Division_by_zero = 0x4U;
struct mpd_t { std::int64_t digits; };
namespace decimal {
class Context {
public:
    std::uint32_t status() const noexcept;
    void clear_status() noexcept;
    std::string repr() const;
};
extern thread_local Context context;
class Decimal {
public:
    Decimal() = default;
    explicit Decimal(takatori::decimal::triple const& v);
    explicit Decimal(std::int64_t v);
    std::string to_eng() const;
    Decimal operator-() const;
    Decimal operator+(Decimal const& o) const;
    Decimal operator-(Decimal const& o) const;
    Decimal operator*(Decimal const& o) const;
    Decimal operator/(Decimal const& o) const;
    Decimal operator%(Decimal const& o) const;
    Decimal rescale(std::int64_t e) const;
    mpd_t const* get() const;
    bool operator<(Decimal const& o) const;
    bool operator==(Decimal const& o) const;
    takatori::decimal::triple const& value() const { return v_; }
private:
    takatori::decimal::triple v_{};
    mpd_t d_{};
};
}

// a working stand-in for the decimal library, native runs only: exact rescale of 128-bit coefficients
#include <algorithm>
#include <string>
#include <decimal.hh>
#include <jogasaki/configuration.h>
#include <takatori/util/maybe_shared_ptr.h>
namespace decimal {
static thread_local std::uint32_t flags_;
thread_local Context context;
std::uint32_t Context::status() const noexcept { return flags_; }
void Context::clear_status() noexcept { flags_ = 0; }
static std::int64_t ndigits(unsigned __int128 c) { std::int64_t n = 1; while (c >= 10) { c /= 10; ++n; } return n; }
Decimal::Decimal(takatori::decimal::triple const& v) : v_(v) { d_.digits = ndigits((static_cast<unsigned __int128>(v.coefficient_high()) << 64) | v.coefficient_low()); }
Decimal Decimal::rescale(std::int64_t e) const {
    unsigned __int128 c = (static_cast<unsigned __int128>(v_.coefficient_high()) << 64) | v_.coefficient_low();
    std::int64_t x = v_.exponent();
    for (; x < e; ++x) { if (c % 10 != 0) flags_ |= MPD_Inexact; c /= 10; }
    std::int64_t extra = 0;
    for (; x > e && c != 0; --x) { if (c > ~static_cast<unsigned __int128>(0) / 10) { extra += x - e; break; } c *= 10; }
    Decimal r{takatori::decimal::triple{v_.sign(), static_cast<std::uint64_t>(c >> 64), static_cast<std::uint64_t>(c), static_cast<std::int32_t>(e)}};
    r.d_.digits += extra;
    return r;
}
mpd_t const* Decimal::get() const { return &d_; }
// exact comparison: digits of the integer part and the rest, aligned
static std::string digits_of(takatori::decimal::triple const& v, std::int64_t down) {
    unsigned __int128 c = (static_cast<unsigned __int128>(v.coefficient_high()) << 64) | v.coefficient_low();
    std::string r;
    for (; c != 0; c /= 10) r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(c % 10)));
    return r.empty() ? r : r + std::string(static_cast<std::size_t>(v.exponent() - down), '0');
}
static int three_way(takatori::decimal::triple const& x, takatori::decimal::triple const& y) {
    if (x.sign() != y.sign()) return x.sign() < y.sign() ? -1 : 1;
    std::int64_t down = std::min(x.exponent(), y.exponent());
    auto a = digits_of(x, down), b = digits_of(y, down);
    int r = a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : a.compare(b) < 0 ? -1 : a == b ? 0 : 1;
    return x.sign() < 0 ? -r : r;
}
bool Decimal::operator<(Decimal const& o) const { return three_way(v_, o.v_) < 0; }
bool Decimal::operator==(Decimal const& o) const { return three_way(v_, o.v_) == 0; }
// exact arithmetic while coefficients stay small; anything else is an invalid operation
using i128_ = __int128;
static i128_ coefficient_of(takatori::decimal::triple const& v) { return static_cast<i128_>(v.coefficient_low()) * v.sign(); }
static bool big_(takatori::decimal::triple const& v) { return v.coefficient_high() != 0 || (v.coefficient_low() >> 40) != 0 || v.exponent() > 6 || v.exponent() < -6; }
static i128_ scaled_(takatori::decimal::triple const& v, int e) { i128_ c = coefficient_of(v); for (int x = v.exponent(); x > e; --x) c *= 10; return c; }
static Decimal of_(i128_ c, int e, bool neg = false) {
    int sg = c < 0 || (c == 0 && neg) ? -1 : 1; unsigned __int128 a = c < 0 ? static_cast<unsigned __int128>(-c) : static_cast<unsigned __int128>(c);
    return Decimal{takatori::decimal::triple{c == 0 ? 0 : sg, static_cast<std::uint64_t>(a >> 64), static_cast<std::uint64_t>(a), e}};
}
Decimal::Decimal(std::int64_t v) : Decimal(of_(v, 0)) {}
Decimal Decimal::operator-() const { return of_(-coefficient_of(v_), v_.exponent()); }
Decimal Decimal::operator+(Decimal const& o) const { int e = std::min(v_.exponent(), o.v_.exponent()); return of_(scaled_(v_, e) + scaled_(o.v_, e), e); }
Decimal Decimal::operator-(Decimal const& o) const { int e = std::min(v_.exponent(), o.v_.exponent()); return of_(scaled_(v_, e) - scaled_(o.v_, e), e); }
Decimal Decimal::operator*(Decimal const& o) const { if (big_(v_) || big_(o.v_)) flags_ |= MPD_IEEE_Invalid_operation; return of_(coefficient_of(v_) * coefficient_of(o.v_), v_.exponent() + o.v_.exponent()); }
Decimal Decimal::operator/(Decimal const& o) const {
    i128_ d = coefficient_of(o.v_), c = coefficient_of(v_);
    if (d == 0) { flags_ |= MPD_Division_by_zero; return of_(0, 0); }
    for (int e = 0; ; ++e) { if (c % d == 0 || e == 9) { if (c % d != 0) flags_ |= MPD_Inexact; return of_(c / d, v_.exponent() - o.v_.exponent() - e); } c *= 10; }
}
Decimal Decimal::operator%(Decimal const& o) const {
    if (coefficient_of(o.v_) == 0) { flags_ |= 0x80U; return of_(0, 0); }
    int e = std::min(v_.exponent(), o.v_.exponent()); return of_(scaled_(v_, e) % scaled_(o.v_, e), e);
}
std::string Decimal::to_eng() const { return std::string(v_.sign() < 0 ? "-" : "") + std::to_string(v_.coefficient_low()) + "E" + std::to_string(v_.exponent()); }
std::string Context::repr() const { return {}; }
}
namespace takatori::decimal {
triple::triple(::decimal::Decimal const& v) : triple(v.value()) {}
}
namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) {
    static configuration c{};
    static takatori::util::maybe_shared_ptr<configuration> p{&c};
    return p;
}
}

#pragma once
// stand-in: set of enum constants First..Last, one bit each
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <ostream>
namespace takatori::util {
template<class E, E First, E Last> class enum_set {
    static_assert(static_cast<std::size_t>(Last) - static_cast<std::size_t>(First) < 64);
public:
    using value_type = E;
    constexpr enum_set() noexcept = default;
    constexpr enum_set(std::initializer_list<E> l) noexcept { for (auto e : l) insert(e); }
    template<class... T> constexpr explicit enum_set(E e, T... r) noexcept : enum_set{std::initializer_list<E>{e, r...}} {}
    static constexpr std::uint64_t bit(E e) noexcept { return 1ULL << (static_cast<std::size_t>(e) - static_cast<std::size_t>(First)); }
    [[nodiscard]] constexpr bool contains(E e) const noexcept { return (bits_ & bit(e)) != 0; }
    [[nodiscard]] constexpr bool empty() const noexcept { return bits_ == 0; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { std::size_t n = 0; for (auto b = bits_; b != 0; b &= b - 1) ++n; return n; }
    constexpr bool insert(E e) noexcept { bool r = !contains(e); bits_ |= bit(e); return r; }
    constexpr bool erase(E e) noexcept { bool r = contains(e); bits_ &= ~bit(e); return r; }
    constexpr bool remove(E e) noexcept { return erase(e); }
    constexpr void clear() noexcept { bits_ = 0; }
    class iterator {
    public:
        using iterator_category = std::input_iterator_tag;
        using value_type = E;
        using difference_type = std::ptrdiff_t;
        using pointer = E const*;
        using reference = E;
        constexpr iterator(std::uint64_t rest, std::size_t i) noexcept : rest_(rest), i_(i) { skip(); }
        constexpr E operator*() const noexcept { return static_cast<E>(static_cast<std::size_t>(First) + i_); }
        constexpr iterator& operator++() noexcept { rest_ >>= 1; ++i_; skip(); return *this; }
        constexpr iterator operator++(int) noexcept { auto r = *this; ++*this; return r; }
        constexpr bool operator==(iterator const& o) const noexcept { return rest_ == o.rest_; }
        constexpr bool operator!=(iterator const& o) const noexcept { return rest_ != o.rest_; }
    private:
        constexpr void skip() noexcept { while (rest_ != 0 && (rest_ & 1) == 0) { rest_ >>= 1; ++i_; } }
        std::uint64_t rest_;
        std::size_t i_;
    };
    [[nodiscard]] constexpr iterator begin() const noexcept { return {bits_, 0}; }
    [[nodiscard]] constexpr iterator end() const noexcept { return {0, 0}; }
    friend constexpr bool operator==(enum_set const& a, enum_set const& b) noexcept { return a.bits_ == b.bits_; }
    friend constexpr bool operator!=(enum_set const& a, enum_set const& b) noexcept { return a.bits_ != b.bits_; }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& s) {
        out << "{";
        bool first = true;
        for (auto e : s) { if (!first) out << ", "; first = false; out << e; }
        return out << "}";
    }
private:
    std::uint64_t bits_{};
};
}

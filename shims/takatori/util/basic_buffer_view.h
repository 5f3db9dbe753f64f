#pragma once
// stand-in: a mutable view of a byte buffer; its iterators are pointers
#include <cstddef>
#include <string>
namespace takatori::util {
template<class T>
class basic_buffer_view {
public:
    using value_type = T;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using const_pointer = T const*;
    using reference = T&;
    using iterator = T*;
    using const_iterator = T const*;
    constexpr basic_buffer_view() noexcept = default;
    constexpr basic_buffer_view(pointer data, size_type size) noexcept : data_(data), size_(size) {}
    [[nodiscard]] constexpr pointer data() const noexcept { return data_; }
    [[nodiscard]] constexpr size_type size() const noexcept { return size_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return size_ == 0; }
    [[nodiscard]] constexpr reference operator[](size_type i) const { return data_[i]; }
    [[nodiscard]] constexpr iterator begin() const noexcept { return data_; }
    [[nodiscard]] constexpr iterator end() const noexcept { return data_ + size_; }
    [[nodiscard]] constexpr const_iterator cbegin() const noexcept { return data_; }
    [[nodiscard]] constexpr const_iterator cend() const noexcept { return data_ + size_; }
private:
    pointer data_{};
    size_type size_{};
};
}

#pragma once
// stand-in: a view of a bit string in 8-bit blocks, least significant bit first; its iterators run over the blocks (assumed; bit strings are not under contract)
#include <cstddef>
namespace takatori::util {
template<class Block>
class basic_bitset_view {
public:
    using size_type = std::size_t;
    using block_type = Block;
    constexpr basic_bitset_view() noexcept = default;
    constexpr basic_bitset_view(Block* data, size_type bits) noexcept : data_(data), bits_(bits) {}
    [[nodiscard]] constexpr size_type size() const noexcept { return bits_; }
    [[nodiscard]] constexpr size_type block_size() const noexcept { return (bits_ + 7) / 8; }
    [[nodiscard]] constexpr Block* block_data() const noexcept { return data_; }
    [[nodiscard]] constexpr bool operator[](size_type i) const { return ((static_cast<unsigned char>(data_[i / 8]) >> (i % 8)) & 1) != 0; }
    struct iterator {
        Block* p;
        constexpr Block& operator*() const noexcept { return *p; }
        constexpr iterator& operator++() noexcept { ++p; return *this; }
        constexpr iterator& operator--() noexcept { --p; return *this; }
    };
    [[nodiscard]] constexpr iterator begin() const noexcept { return {data_}; }
    [[nodiscard]] constexpr iterator end() const noexcept { return {data_ + block_size()}; }
private:
    Block* data_{};
    size_type bits_{};
};
}

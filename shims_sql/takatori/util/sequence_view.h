#pragma once
#include <cstddef>
#include <type_traits>
#include <ostream>
#include <vector>
namespace takatori::util {
template <class T>
class sequence_view {
public:
    sequence_view() noexcept : p_(nullptr), n_(0) {}
    sequence_view(T* p, std::size_t n) noexcept : p_(p), n_(n) {}
    using element = std::remove_const_t<T>;
    sequence_view(std::conditional_t<std::is_const_v<T>, std::vector<element> const, std::vector<element>>& v) noexcept : p_(v.data()), n_(v.size()) {}
    T& operator[](std::size_t i) const noexcept { return p_[i]; }
    T& at(std::size_t i) const noexcept { return p_[i]; }
    std::size_t size() const noexcept { return n_; }
    bool empty() const noexcept { return n_ == 0; }
    T* begin() const noexcept { return p_; }
    T* end() const noexcept { return p_ + n_; }
    T& front() const noexcept { return *p_; }
private:
    T* p_; std::size_t n_;
};
template <class T> std::ostream& operator<<(std::ostream& out, sequence_view<T> const& v) { for (auto&& e : v) out << e << ","; return out; }
}

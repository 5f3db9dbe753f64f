#pragma once
// stand-in: owning or non-owning pointer; every use here is through get/*/->/bool
#include <memory>
#include <utility>
namespace takatori::util {
template<class T> class maybe_shared_ptr {
public:
    using element_type = T;
    constexpr maybe_shared_ptr() noexcept = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {}
    maybe_shared_ptr(T* p) noexcept : p_(p) {}
    template<class U> maybe_shared_ptr(std::shared_ptr<U> p) noexcept : s_(std::move(p)), p_(s_.get()) {}
    template<class U> maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : s_(o.s_), p_(o.p_) {}
    template<class U> maybe_shared_ptr(std::unique_ptr<U> p) noexcept : s_(std::move(p)), p_(s_.get()) {}
    T* get() const noexcept { return p_; }
    T& operator*() const noexcept { return *p_; }
    T* operator->() const noexcept { return p_; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    bool ownership() const noexcept { return static_cast<bool>(s_); }
    void reset() noexcept { s_.reset(); p_ = nullptr; }
    friend bool operator==(maybe_shared_ptr const& a, maybe_shared_ptr const& b) noexcept { return a.p_ == b.p_; }
    friend bool operator!=(maybe_shared_ptr const& a, maybe_shared_ptr const& b) noexcept { return a.p_ != b.p_; }
    friend bool operator==(maybe_shared_ptr const& a, std::nullptr_t) noexcept { return a.p_ == nullptr; }
    friend bool operator!=(maybe_shared_ptr const& a, std::nullptr_t) noexcept { return a.p_ != nullptr; }
private:
    std::shared_ptr<T> s_{};
    T* p_{};
    template<class U> friend class maybe_shared_ptr;
};
}

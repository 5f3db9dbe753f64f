#pragma once
#include <yugawara/function/declaration.h>
namespace yugawara::binding {
template <class T> class optional_ptr_ { public: T const* p_{}; bool has_value() const noexcept { return p_ != nullptr; } explicit operator bool() const noexcept { return p_ != nullptr; } T const* operator->() const noexcept { return p_; } T const& operator*() const noexcept { return *p_; } };
template <class T, class D> optional_ptr_<T> extract_if(D const& d) noexcept { return {static_cast<T const*>(d.declaration)}; }
}

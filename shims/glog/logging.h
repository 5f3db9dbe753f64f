#pragma once
// stand-in: log output is dropped (arguments are still evaluated)
#include <ostream>
namespace irvc_shim {
struct nulllog {};
template<class T> inline nulllog const& operator<<(nulllog const& l, T const&) noexcept { return l; }
inline nulllog const& operator<<(nulllog const& l, std::ostream& (*)(std::ostream&)) noexcept { return l; }
}
#define LOG(x) ::irvc_shim::nulllog{}
#define VLOG(x) ::irvc_shim::nulllog{}
#define DVLOG(x) ::irvc_shim::nulllog{}
#define LOG_IF(x, c) ::irvc_shim::nulllog{}
#define VLOG_IS_ON(x) (false)
#define CHECK(c) ::irvc_shim::nulllog{}

#pragma once
#include <ostream>
namespace takatori::util { template<class T> inline void print_trace(std::ostream&, T const&) {} template<class T> inline int const* find_trace(T const&) { return nullptr; } }

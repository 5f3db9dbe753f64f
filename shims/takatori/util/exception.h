#pragma once
// stand-in for a dependency that is not installed: throw_exception(e) throws e (the original also attaches a stack trace)
#include <stdexcept>
#include <utility>
namespace takatori::util {
template<class T> [[noreturn]] inline void throw_exception(T const& e) { throw e; }
}

#pragma once
// stand-in: builds exception texts only; the text itself is dropped
#include <string>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t {};
    static constexpr to_string_t to_string{};
};
template<class T> inline string_builder& operator<<(string_builder& b, T const&) { return b; }
template<class T> inline string_builder& operator<<(string_builder&& b, T const&) { return static_cast<string_builder&>(b); }
inline std::string operator<<(string_builder&, string_builder::to_string_t const&) { return {}; }
inline std::string operator<<(string_builder&&, string_builder::to_string_t const&) { return {}; }
}

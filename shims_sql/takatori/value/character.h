#pragma once
#include <cstddef>
#include <string_view>
#include <takatori/value/data.h>
namespace takatori::value { std::string_view truncate_utf8(std::string_view s, std::size_t n); }

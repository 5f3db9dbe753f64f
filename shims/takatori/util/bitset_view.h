#pragma once
#include "basic_bitset_view.h"
namespace takatori::util {
using bitset_view = basic_bitset_view<char>;
using const_bitset_view = basic_bitset_view<char const>;
}

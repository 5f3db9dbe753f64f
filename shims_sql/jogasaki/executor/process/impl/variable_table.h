#pragma once
// stand-in: looks a variable up in a table of (null flag, value) records
#include <cstddef>
#include <takatori/scalar/scalar_.h>
#include <jogasaki/accessor/record_ref.h>
namespace jogasaki::executor::process::impl {
class value_info { public: std::size_t value_offset_{}; std::size_t nullity_offset_{}; std::size_t region_{}; std::size_t value_offset() const noexcept { return value_offset_; } std::size_t nullity_offset() const noexcept { return nullity_offset_; } std::size_t region() const noexcept { return region_; } };
class variable_table_info { public: bool exists(takatori::descriptor::variable const& v) const; value_info const& at(takatori::descriptor::variable const& v) const; };
class record_store_ { public: accessor::record_ref ref() const noexcept; };
class variable_table { public: explicit operator bool() const noexcept; variable_table_info const& info() const noexcept; record_store_ const& store() const; };
}

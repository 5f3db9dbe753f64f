#pragma once
#include <jogasaki/executor/process/impl/variable_table.h>
namespace jogasaki::executor::process::impl {
class variables_view { public: void const* p_{}; bool exists(takatori::descriptor::variable const& v) const; value_info const& at(takatori::descriptor::variable const& v) const; accessor::record_ref ref(std::size_t region) const; };
}

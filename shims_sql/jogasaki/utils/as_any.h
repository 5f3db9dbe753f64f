#pragma once
#include <takatori/type/data.h>
#include <takatori/value/data.h>
#include <jogasaki/data/any.h>
#include <jogasaki/memory/paged_memory_resource.h>
namespace jogasaki::utils { data::any as_any(takatori::value::data const& arg, takatori::type::data const& type, memory::paged_memory_resource* resource); }

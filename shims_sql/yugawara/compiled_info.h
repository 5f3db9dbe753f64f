#pragma once
#include <takatori/scalar/scalar_.h>
namespace yugawara {
class compiled_info {
public:
    takatori::type::data const& type_of(takatori::scalar::expression const& e) const;
};
}

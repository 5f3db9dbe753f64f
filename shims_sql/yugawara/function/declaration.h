#pragma once
#include <cstddef>
#include <vector>
#include <takatori/type/data.h>
namespace yugawara::function {
class declaration {
public:
    class parameter_list { public: takatori::type::data const* const* items_{}; std::size_t size_{}; takatori::type::data const& at(std::size_t i) const; std::size_t size() const noexcept { return size_; } };
    std::size_t definition_id_{}; parameter_list parameters_{};
    std::size_t definition_id() const noexcept { return definition_id_; }
    parameter_list const& parameter_types() const noexcept { return parameters_; }
};
}

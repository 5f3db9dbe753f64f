#pragma once
#include <cstddef>
#include <functional>
#include <vector>
#include <jogasaki/data/any.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <takatori/util/sequence_view.h>
namespace jogasaki::executor::function {
class scalar_function_body_ { public: data::any operator()(expr::evaluator_context& ctx, takatori::util::sequence_view<data::any> args) const; };
class scalar_function_info { public: scalar_function_body_ const& function_body() const noexcept; };
class scalar_function_repository { public: scalar_function_info const* find(std::size_t id) const noexcept; };
}
namespace jogasaki::global { executor::function::scalar_function_repository& scalar_function_repository(); }

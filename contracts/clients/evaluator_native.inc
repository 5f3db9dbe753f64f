// never called by the drivers: what is outside the units under contract
#include <cstdlib>
#include <jogasaki/datastore/assign_lob_id.h>
#include <jogasaki/executor/conv/parameter_apply.h>
#include <jogasaki/executor/expr/lob_processing.h>
#include <jogasaki/executor/function/scalar_function_repository.h>
#include <jogasaki/utils/as_any.h>
#include <yugawara/function/declaration.h>
namespace jogasaki {
status datastore::assign_lob_id(lob::lob_reference const&, transaction_context*, lob::lob_id_type&, std::shared_ptr<error::error_info>&) { std::abort(); }
data::any executor::expr::post_process_if_lob(data::any a, evaluator_context&) { return a; }
data::any executor::expr::pre_process_if_lob(data::any a, evaluator_context&) { return a; }
status executor::conv::conduct_parameter_application_conversion(takatori::type::data const&, takatori::type::data const&, data::any const&, data::any&, memory::lifo_paged_memory_resource*) { std::abort(); }
data::any executor::function::scalar_function_body_::operator()(expr::evaluator_context&, takatori::util::sequence_view<data::any>) const { std::abort(); }
executor::function::scalar_function_body_ const& executor::function::scalar_function_info::function_body() const noexcept { std::abort(); }
executor::function::scalar_function_info const* executor::function::scalar_function_repository::find(std::size_t) const noexcept { std::abort(); }
executor::function::scalar_function_repository& global::scalar_function_repository() { std::abort(); }
data::any utils::as_any(takatori::value::data const&, takatori::type::data const&, memory::paged_memory_resource*) { std::abort(); }
}
takatori::type::data const& yugawara::function::declaration::parameter_list::at(std::size_t) const { std::abort(); }

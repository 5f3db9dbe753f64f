// client of the expression evaluator: one node over arbitrary operands
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <jogasaki/executor/expr/evaluator.h>
using namespace jogasaki;
using namespace jogasaki::executor::expr;
using data::any;
namespace sc = takatori::scalar;
using ty = takatori::type::data;
namespace {
details::engine make(evaluator_context& ctx, yugawara::compiled_info const& info, void* vars, executor::process::impl::variable_table const* host) {
    executor::process::impl::variables_view v{}; v.p_ = vars;
    return details::engine{ctx, v, info, host, nullptr};
}
}
extern "C" {
#define ENGINE evaluator_context& ctx, yugawara::compiled_info const& info, void* vars, executor::process::impl::variable_table const* host
void ev_binary(any* out, ENGINE, std::int32_t op, sc::expression const& l, sc::expression const& r) {
    sc::binary e{}; e.op_ = static_cast<sc::binary_operator>(op); e.left_ = &l; e.right_ = &r;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
void ev_compare(any* out, ENGINE, std::int32_t op, sc::expression const& l, sc::expression const& r) {
    sc::compare e{}; e.op_ = static_cast<sc::comparison_operator>(op); e.left_ = &l; e.right_ = &r;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
void ev_unary(any* out, ENGINE, std::int32_t op, sc::expression const& l) {
    sc::unary e{}; e.op_ = static_cast<sc::unary_operator>(op); e.operand_ = &l;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
void ev_cast(any* out, ENGINE, std::int32_t policy, ty const& t, sc::expression const& l) {
    sc::cast e{}; e.policy_ = static_cast<sc::cast_loss_policy>(policy); e.operand_ = &l; e.type_ = &t;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
void ev_conditional(any* out, ENGINE, sc::conditional_alternative const* const* items, std::size_t n, sc::expression const* def) {
    sc::conditional e{}; e.alternatives_.items_ = items; e.alternatives_.size_ = n; e.default_.p_ = def;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
void ev_coalesce(any* out, ENGINE, sc::expression const* const* items, std::size_t n) {
    sc::coalesce e{}; e.alternatives_.items_ = items; e.alternatives_.size_ = n;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
void ev_immediate(any* out, ENGINE, takatori::value::data const& v) {
    sc::immediate e{}; e.value_ = &v;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
void ev_variable(any* out, ENGINE, std::size_t id) {
    sc::variable_reference e{}; e.variable_.id = id;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
void ev_top(any* out, ENGINE, sc::expression const& e) {
    executor::process::impl::variables_view v{}; v.p_ = vars;
    evaluator ev{e, info, host}; *out = ev(ctx, v, nullptr);
}
void ev_bool(any* out, evaluator_context& ctx, evaluator& e, memory::lifo_paged_memory_resource* r) {
    executor::process::impl::variables_view v{}; *out = evaluate_bool(ctx, e, v, r);
}
void ev_match(any* out, ENGINE, std::int32_t op, sc::expression const& input, sc::expression const& pattern, sc::expression const& escape) {
    sc::match e{}; e.op_ = static_cast<sc::match_operator>(op); e.input_ = &input; e.pattern_ = &pattern; e.escape_ = &escape;
    auto en = make(ctx, info, vars, host); *out = en(e);
}
std::size_t kinds(std::size_t* o) {
    *o++ = any::index<class executor::expr::error>; *o++ = any::index<bool>; *o++ = any::index<std::int16_t>; *o++ = any::index<std::int32_t>; *o++ = any::index<std::int64_t>; *o++ = any::index<float>; *o++ = any::index<double>;
    *o++ = any::index<accessor::text>; *o++ = any::index<accessor::binary>; *o++ = any::index<takatori::decimal::triple>; *o++ = any::index<takatori::datetime::date>; *o++ = any::index<takatori::datetime::time_of_day>;
    *o++ = any::index<takatori::datetime::time_point>; *o++ = any::index<lob::blob_reference>; *o++ = any::index<lob::clob_reference>; *o++ = any::index<std::size_t>;
    return sizeof(any);
}
}

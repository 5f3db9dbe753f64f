#pragma once
// stand-in for the scalar expression tree: the accessors the evaluator uses, and dispatch by kind
#include <cstddef>
#include <cstdlib>
#include <functional>
#include <optional>
#include <type_traits>
#include <vector>
#include <takatori/type/data.h>
#include <takatori/value/data.h>
namespace takatori::descriptor { struct variable { std::size_t id{}; }; struct function { void const* declaration{}; }; }
namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
class expression {
public:
    expression_kind kind_{};
    explicit expression(expression_kind k) noexcept : kind_(k) {}
    expression_kind kind() const noexcept { return kind_; }
};
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal, is_not_distinct_from, is_distinct_from };
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error };
enum class match_operator { like, similar };
class immediate : public expression {
public:
    takatori::value::data const* value_{}; takatori::type::data const* type_{};
    immediate() noexcept : expression(expression_kind::immediate) {}
    takatori::value::data const& value() const noexcept { return *value_; }
    takatori::type::data const& type() const noexcept { return *type_; }
};
class variable_reference : public expression {
public:
    takatori::descriptor::variable variable_{};
    variable_reference() noexcept : expression(expression_kind::variable_reference) {}
    takatori::descriptor::variable const& variable() const noexcept { return variable_; }
};
class unary : public expression {
public:
    using operator_kind_type = unary_operator;
    unary_operator op_{}; expression const* operand_{};
    unary() noexcept : expression(expression_kind::unary) {}
    unary_operator operator_kind() const noexcept { return op_; }
    expression const& operand() const noexcept { return *operand_; }
};
class cast : public expression {
public:
    takatori::type::data const* type_{}; cast_loss_policy policy_{}; expression const* operand_{};
    cast() noexcept : expression(expression_kind::cast) {}
    takatori::type::data const& type() const noexcept { return *type_; }
    cast_loss_policy loss_policy() const noexcept { return policy_; }
    expression const& operand() const noexcept { return *operand_; }
};
class binary : public expression {
public:
    using operator_kind_type = binary_operator;
    binary_operator op_{}; expression const* left_{}; expression const* right_{};
    binary() noexcept : expression(expression_kind::binary) {}
    binary_operator operator_kind() const noexcept { return op_; }
    expression const& left() const noexcept { return *left_; }
    expression const& right() const noexcept { return *right_; }
};
class compare : public expression {
public:
    using operator_kind_type = comparison_operator;
    comparison_operator op_{}; expression const* left_{}; expression const* right_{};
    compare() noexcept : expression(expression_kind::compare) {}
    comparison_operator operator_kind() const noexcept { return op_; }
    expression const& left() const noexcept { return *left_; }
    expression const& right() const noexcept { return *right_; }
};
class match : public expression {
public:
    using operator_kind_type = match_operator;
    match_operator op_{}; expression const* input_{}; expression const* pattern_{}; expression const* escape_{};
    match() noexcept : expression(expression_kind::match) {}
    match_operator operator_kind() const noexcept { return op_; }
    expression const& input() const noexcept { return *input_; }
    expression const& pattern() const noexcept { return *pattern_; }
    expression const& escape() const noexcept { return *escape_; }
};
template <class T>
class reference_list {     // a list of elements owned elsewhere, iterated by reference
public:
    T const* const* items_{}; std::size_t size_{};
    class iterator {
    public:
        reference_list const* l_; std::size_t i_;
        T const& operator*() const noexcept { return l_->get(i_); }
        iterator& operator++() noexcept { ++i_; return *this; }
        bool operator!=(iterator const& o) const noexcept { return i_ != o.i_; }
        bool operator==(iterator const& o) const noexcept { return i_ == o.i_; }
    };
    T const& get(std::size_t i) const noexcept { return *items_[i]; }
    iterator begin() const noexcept { return {this, 0}; }
    iterator end() const noexcept { return {this, size_}; }
    std::size_t size() const noexcept { return size_; }
    bool empty() const noexcept { return size_ == 0; }
    T const& operator[](std::size_t i) const noexcept { return get(i); }
};
class conditional_alternative {
public:
    expression const* condition_{}; expression const* body_{};
    expression const& condition() const noexcept { return *condition_; }
    expression const& body() const noexcept { return *body_; }
};
class optional_expression {
public:
    expression const* p_{};
    bool has_value() const noexcept { return p_ != nullptr; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    expression const& value() const { return *p_; }
    expression const& operator*() const noexcept { return *p_; }
};
class conditional : public expression {
public:
    reference_list<conditional_alternative> alternatives_{}; optional_expression default_{};
    conditional() noexcept : expression(expression_kind::conditional) {}
    reference_list<conditional_alternative> const& alternatives() const noexcept { return alternatives_; }
    optional_expression default_expression() const noexcept { return default_; }
};
class coalesce : public expression {
public:
    reference_list<expression> alternatives_{};
    coalesce() noexcept : expression(expression_kind::coalesce) {}
    reference_list<expression> const& alternatives() const noexcept { return alternatives_; }
};
class let : public expression { public: let() noexcept : expression(expression_kind::let) {} };
class function_call : public expression {
public:
    takatori::descriptor::function function_{}; reference_list<expression> arguments_{};
    function_call() noexcept : expression(expression_kind::function_call) {}
    takatori::descriptor::function const& function() const noexcept { return function_; }
    reference_list<expression> const& arguments() const noexcept { return arguments_; }
};
class extension : public expression { public: extension() noexcept : expression(expression_kind::extension) {} };
template <class F>
auto dispatch(F&& f, expression const& e) -> decltype(f(std::declval<immediate const&>())) {
    switch (e.kind()) {
        case expression_kind::immediate: return f(static_cast<immediate const&>(e));
        case expression_kind::variable_reference: return f(static_cast<variable_reference const&>(e));
        case expression_kind::unary: return f(static_cast<unary const&>(e));
        case expression_kind::cast: return f(static_cast<cast const&>(e));
        case expression_kind::binary: return f(static_cast<binary const&>(e));
        case expression_kind::compare: return f(static_cast<compare const&>(e));
        case expression_kind::match: return f(static_cast<match const&>(e));
        case expression_kind::conditional: return f(static_cast<conditional const&>(e));
        case expression_kind::coalesce: return f(static_cast<coalesce const&>(e));
        case expression_kind::let: return f(static_cast<let const&>(e));
        case expression_kind::function_call: return f(static_cast<function_call const&>(e));
        case expression_kind::extension: return f(static_cast<extension const&>(e));
    }
    std::abort();
}
}

// random expression trees, evaluated by the real evaluator and by the rules of SQL; decimals are small
#include <memory>
#include <stdexcept>
#include <cmath>
#include <deque>
#include <unordered_map>
#include "vdrv.h"
#include "../contracts/clients/stubs.inc"
#include "../contracts/clients/decimal_native.inc"
#include "../contracts/clients/evaluator_native.inc"
#include "../contracts/clients/evaluator.cpp"
#include <jogasaki/executor/conv/unify.h>
#include <jogasaki/memory/page_pool.h>
using tk = takatori::type::type_kind;
enum K { N, E, B, I4, I8, F4, F8, T, O, D, TD, TP, DC };
static tk const types[] = {tk::unknown, tk::unknown, tk::boolean, tk::int4, tk::int8, tk::float4, tk::float8, tk::character, tk::octet, tk::date, tk::time_of_day, tk::time_point, tk::decimal};
struct val { K k{N}; std::int64_t i{}; double f{}; std::string s; std::uint64_t n{}; int x{}; };     // decimal: i * 10^x
static std::deque<std::shared_ptr<void>> keep;
template <class X> static X* hold(X x) { auto p = std::make_shared<X>(std::move(x)); keep.push_back(p); return p.get(); }
// variables: one record, a null bit and 32 bytes each
static executor::process::impl::value_info infos[256];
alignas(16) static char record[32 + 256 * 32];
static std::unordered_map<void const*, ty> expr_types;
takatori::type::data const& yugawara::compiled_info::type_of(sc::expression const& e) const { return expr_types.at(&e); }
namespace jogasaki::executor::process::impl {
bool variables_view::exists(takatori::descriptor::variable const& v) const { return v.id < 128; }
value_info const& variables_view::at(takatori::descriptor::variable const& v) const { return infos[v.id]; }
accessor::record_ref variables_view::ref(std::size_t) const { return {record, sizeof record}; }
variable_table::operator bool() const noexcept { return true; }
variable_table_info const& variable_table::info() const noexcept { static variable_table_info i; return i; }
record_store_ const& variable_table::store() const { static record_store_ s; return s; }
bool variable_table_info::exists(takatori::descriptor::variable const& v) const { return v.id >= 128; }
value_info const& variable_table_info::at(takatori::descriptor::variable const& v) const { return infos[v.id]; }
accessor::record_ref record_store_::ref() const noexcept { return {record, sizeof record}; }
}
static val widen(val v, K k) {
    if (v.k == N || v.k == E || v.k == k) return v;
    if (k == F8 && v.k == DC) v.f = std::stod(std::to_string(v.i) + "E" + std::to_string(v.x));
    if (k == DC) v.x = 0;
    if (k == F8 && (v.k == I4 || v.k == I8)) v.f = static_cast<double>(v.i);
    v.k = k;
    return v;
}
static any to_any(val const& v) {
    switch (v.k) {
        case N: return {}; case E: return any{std::in_place_type<class jogasaki::executor::expr::error>, jogasaki::executor::expr::error{static_cast<error_kind>(v.i)}};
        case B: return any{std::in_place_type<bool>, v.i != 0}; case I4: return any{std::in_place_type<std::int32_t>, (std::int32_t)v.i}; case I8: return any{std::in_place_type<std::int64_t>, v.i};
        case F4: return any{std::in_place_type<float>, (float)v.f}; case F8: return any{std::in_place_type<double>, v.f};
        case DC: return any{std::in_place_type<takatori::decimal::triple>, static_cast<takatori::decimal::triple>(decimal::of_(v.i, v.x))};
        default: return {};
    }
}
namespace jogasaki::executor::expr::details {
static loss_precision_policy last_policy{};
any conduct_cast(evaluator_context& c, takatori::type::data const&, takatori::type::data const&, any const& a) {    // the policy "unknown" gives NULL
    last_policy = c.get_loss_precision_policy();
    return last_policy == loss_precision_policy::unknown ? any{} : a;
}
void ensure_decimal_context() {}
}
namespace jogasaki::executor::conv {
status conduct_unifying_conversion(takatori::type::data const& s, takatori::type::data const& t, data::any const& in, data::any& out, memory::lifo_paged_memory_resource*) {
    if (in.error()) return status::err_expression_evaluation_failure;
    if (in.empty()) { out = in; return status::ok; }
    val v;
    if (s.kind() == tk::int4) { v.k = I4; v.i = in.to<std::int32_t>(); } else if (s.kind() == tk::int8) { v.k = I8; v.i = in.to<std::int64_t>(); } else if (s.kind() == tk::float4) { v.k = F4; v.f = in.to<float>(); } else if (s.kind() == tk::decimal) { v.k = DC; auto q = in.to<takatori::decimal::triple>(); v.i = (std::int64_t)q.coefficient_low() * q.sign(); v.x = q.exponent(); } else { out = in; return status::ok; }
    out = to_any(widen(v, t.kind() == tk::int8 ? I8 : t.kind() == tk::decimal ? DC : F8));
    return status::ok;
}
}
namespace jogasaki::memory {   // pages from the heap
page_pool::page_pool() = default;
page_pool::~page_pool() = default;
page_pool::page_info page_pool::acquire_page(bool) { return {std::aligned_alloc(4096, page_size), 0}; }
void page_pool::release_page(page_info p) noexcept { std::free(p.address()); }
}
static K common(K a, K b) { return a == b ? a : a == F4 || b == F4 || a == F8 || b == F8 ? F8 : a == DC || b == DC ? DC : I8; }
static bool numeric(K k) { return k == I4 || k == I8 || k == F4 || k == F8 || k == DC; }
struct gen {
    vdrv& d; std::string text; std::size_t nv = 0;
    struct r { sc::expression const* e; K type; val v; };
    r done(sc::expression const* e, K t, val v) { expr_types[e] = ty{types[t]}; if (t == T || t == O) expr_types[e].varying_ = true; return {e, t, std::move(v)}; }
    r leaf(K t, val const* near = nullptr) {
        std::size_t i = d.coin() ? nv : nv + 128; ++nv;
        auto* e = hold(sc::variable_reference{}); e->variable_.id = i;
        infos[i].value_offset_ = 32 + 32 * i; infos[i].nullity_offset_ = i;
        val v; v.k = d.below(4) == 0 ? N : t; v.i = (std::int64_t)(d.coin() ? d.below(5) - 2 : d.edge64()); char* p = record + 32 + 32 * i;
        bool z = d.below(6) == 0; if (z) v.i = 0;
        if (near != nullptr && (near->k == I4 || near->k == I8 || near->k == F4 || near->k == F8) && d.coin()) {
            double f = near->k == F4 || near->k == F8 ? near->f : 0; if (! (std::fabs(f) < 9e18)) f = 0;
            v.i = (near->k == I4 || near->k == I8 ? near->i : (std::int64_t)f) + (std::int64_t)((std::uint64_t)d.below(3) - 1) * (near->i > INT64_MIN + 2 && near->i < INT64_MAX - 2);
        }
        switch (t) {
            case B: v.i &= 1; *p = (char)v.i; break;
            case I4: v.i = (std::int32_t)v.i; if (d.below(8) == 0) v.i = INT32_MIN; std::memcpy(p, &v.i, 4); break;
            case I8: if (d.below(8) == 0) v.i = INT64_MIN; std::memcpy(p, &v.i, 8); break;
            case F4: { std::uint32_t b = (std::uint32_t)v.i; float f = (float)v.i; if (near == nullptr && d.coin()) std::memcpy(&f, &b, 4); v.f = f; std::memcpy(p, &f, 4); break; }
            case F8: v.f = (double)v.i; if (near == nullptr && d.coin()) std::memcpy(&v.f, &v.i, 8); std::memcpy(p, &v.f, 8); break;
            case T: v.s = d.bytes(5, "ab"); new (p) accessor::text{v.s.data(), v.s.size()}; break;
            case O: v.s = d.bytes(5, "ab"); new (p) accessor::binary{v.s.data(), v.s.size()}; break;
            case D: new (p) takatori::datetime::date{v.i}; break;
            case TD: v.i = (std::int64_t)((std::uint64_t)v.i % 86400000000000ULL); new (p) takatori::datetime::time_of_day{takatori::datetime::time_of_day::time_unit{v.i}}; break;
            case TP: v.n = d.below(3); new (p) takatori::datetime::time_point{takatori::datetime::time_point::offset_type{v.i}, takatori::datetime::time_point::difference_type{(std::int64_t)v.n}}; break;
            case DC: v.i = (std::int64_t)d.below(2001) - 1000; v.x = (int)d.below(4) - 2; if (z) v.i = 0; new (p) takatori::decimal::triple(decimal::of_(v.i, v.x)); break;
            default: break;
        }
        char& b = record[i / 8]; b = (char)((b & ~(1 << (i % 8))) | ((v.k == N) << (i % 8)));
        text += v.k == N ? std::string("null") : "(" + std::to_string(t) + ":" + std::to_string(v.i) + "/" + std::to_string(v.f) + "/" + vdrv::hex(v.s) + ")";
        return done(e, t, v);
    }
    r make(K t, int depth) {
        if (depth == 0 || nv > 80 || t == O || t == D || t == TD || t == TP) return leaf(t);
        text += "[";
        r x = node(t, depth);
        text += "]";
        return x;
    }
    K any_type() { static K const ks[] = {B, I4, I8, F4, F8, T, O, D, TD, TP, DC}; return ks[d.below(11)]; }
    r node(K t, int depth) {
        switch (d.below(8)) {
            case 0: {   // CASE
                auto* e = hold(sc::conditional{}); std::size_t n = d.below(3);
                std::vector<sc::conditional_alternative const*> v; val res; bool chosen = false;
                for (std::size_t i = 0; i < n; ++i) {
                    text += " when "; auto c = make(B, depth - 1); text += " then "; auto b = make(body_type(t), depth - 1);
                    v.push_back(hold(sc::conditional_alternative{c.e, b.e}));
                    if (!chosen && c.v.k == E) { chosen = true; res = c.v; }
                    if (!chosen && c.v.k == B && c.v.i != 0) { chosen = true; res = widen(b.v, t); }
                }
                if (d.coin()) { text += " else "; auto b = make(body_type(t), depth - 1); e->default_.p_ = b.e; if (!chosen) res = widen(b.v, t); }
                e->alternatives_.items_ = hold(std::move(v))->data(); e->alternatives_.size_ = n;
                return done(e, t, res);
            }
            case 1: {
                auto* e = hold(sc::coalesce{}); std::size_t n = 1 + d.below(3); std::vector<sc::expression const*> v; val res;
                text += "coalesce ";
                for (std::size_t i = 0; i < n; ++i) { auto b = make(body_type(t), depth - 1); v.push_back(b.e); if (res.k == N) res = widen(b.v, t); text += ","; }
                e->alternatives_.items_ = hold(std::move(v))->data(); e->alternatives_.size_ = n;
                return done(e, t, res);
            }
            case 2: if (d.coin()) {
                auto* e = hold(sc::cast{}); auto* ty_ = hold(ty{types[t]}); auto p = static_cast<sc::cast_loss_policy>(d.below(6)); e->policy_ = p; e->type_ = ty_;
                text += " cast" + std::to_string((int)p) + " "; auto x = make(t, depth - 1); e->operand_ = x.e; val v = x.v;
                if (v.k != E && p == sc::cast_loss_policy::unknown) v = val{};
                return done(e, t, v);
            }
            default: break;
        }
        if (t == B) return d.coin() ? compare(depth) : logic(depth);
        if (t == T) return binary(sc::binary_operator::concat, T, T, T, depth);
        if (t == I4 && d.below(4) == 0) return unary(sc::unary_operator::length, T, I4, depth);
        if (d.below(4) == 0) return unary(d.below(5) == 0 ? sc::unary_operator::plus : sc::unary_operator::sign_inversion, t, t, depth);
        K a = t, b = t;
        if (t == I8) (d.coin() ? a : b) = I4;
        if (t == F8) { static K const ks[] = {I4, I8, F4, F8, DC}; (d.coin() ? a : b) = ks[d.below(5)]; }
        if (t == DC) (d.coin() ? a : b) = d.below(3) == 0 ? I4 : DC;
        static sc::binary_operator const ops[] = {sc::binary_operator::add, sc::binary_operator::subtract, sc::binary_operator::multiply, sc::binary_operator::divide, sc::binary_operator::remainder};
        return binary(ops[d.below(t == I4 || t == I8 || t == DC ? 5 : 4)], a, b, t, depth);
    }
    K body_type(K t) { if (t == I8 && d.coin()) return I4; if (t == F8 && d.coin()) { static K const ks[] = {I4, I8, F4, DC}; return ks[d.below(4)]; } if (t == DC && d.coin()) return I4; return t; }
    r unary(sc::unary_operator op, K a, K t, int depth) {
        auto* e = hold(sc::unary{}); e->op_ = op; text += " u" + std::to_string((int)op) + " "; auto x = make(a, depth - 1); e->operand_ = x.e; val v = x.v;
        using U = sc::unary_operator;
        if (v.k == E) return done(e, t, v);
        auto truth = [](bool b) { val r; r.k = B; r.i = b; return r; };
        switch (op) {
            case U::is_null: case U::is_unknown: v = truth(x.v.k == N); break;
            case U::is_true: v = truth(x.v.k == B && x.v.i != 0); break; case U::is_false: v = truth(x.v.k == B && x.v.i == 0); break;
            case U::conditional_not: if (v.k != N) v = truth(v.i == 0); break;
            case U::length: if (v.k != N) { val r; r.k = I4; r.i = (std::int64_t)v.s.size(); v = r; } break;
            case U::sign_inversion: if (v.k == I4) { if (v.i == INT32_MIN) skip = true; v.i = -v.i; } if (v.k == I8) { if (v.i == INT64_MIN) skip = true; else v.i = -v.i; } v.f = -v.f; if (v.k == DC) v.i = -v.i; break;
            default: break;
        }
        return done(e, t, v);
    }
    bool skip = false;      // overflow: unspecified
    r logic(int depth) {
        if (d.below(3) == 0) {
            static sc::unary_operator const ops[] = {sc::unary_operator::conditional_not, sc::unary_operator::is_null, sc::unary_operator::is_true, sc::unary_operator::is_false, sc::unary_operator::is_unknown};
            auto op = ops[d.below(5)];
            return unary(op, op == sc::unary_operator::is_null ? any_type() : B, B, depth);
        }
        return binary(d.coin() ? sc::binary_operator::conditional_and : sc::binary_operator::conditional_or, B, B, B, depth);
    }
    r binary(sc::binary_operator op, K a, K b, K t, int depth) {
        auto* e = hold(sc::binary{}); e->op_ = op; auto x = make(a, depth - 1); text += " b" + std::to_string((int)op) + " "; auto y = make(b, depth - 1); e->left_ = x.e; e->right_ = y.e;
        using O_ = sc::binary_operator; val v;
        if (x.v.k == E) return done(e, t, x.v);
        if (y.v.k == E) return done(e, t, y.v);
        if (op == O_::conditional_and || op == O_::conditional_or) {
            bool stop = op == O_::conditional_or;
            bool any_stop = (x.v.k == B && (x.v.i != 0) == stop) || (y.v.k == B && (y.v.i != 0) == stop);
            if (any_stop) { v.k = B; v.i = stop; } else if (x.v.k == B && y.v.k == B) { v.k = B; v.i = !stop; }
            return done(e, t, v);
        }
        if (x.v.k == N || y.v.k == N) return done(e, t, v);
        val l = widen(x.v, t), r_ = widen(y.v, t); v.k = t;
        if (op == O_::concat) { v.s = l.s + r_.s; if (v.s.size() > 15) skip = true; return done(e, t, v); }
        bool bad = false;
        if (t == DC) {
            auto up = [](val const& p, int e) { __int128 c = p.i; for (int x = p.x; x > e; --x) c *= 10; return c; };
            int m = std::min(l.x, r_.x); __int128 z = 0; v.x = m;
            if (std::abs((double)l.i) > 1e11 || std::abs((double)r_.i) > 1e11 || std::abs(l.x) > 6 || std::abs(r_.x) > 6) { skip = true; return done(e, t, v); }
            switch (op) {
                case O_::add: z = up(l, m) + up(r_, m); break; case O_::subtract: z = up(l, m) - up(r_, m); break;
                case O_::multiply: z = (__int128)l.i * r_.i; v.x = l.x + r_.x; break;
                case O_::divide: if (r_.i == 0) bad = true; else if (l.i % r_.i != 0) skip = true; else { z = l.i / r_.i; v.x = l.x - r_.x; } break;
                default: if (r_.i == 0) bad = true; else z = up(l, m) % up(r_, m); break;
            }
            v.i = (std::int64_t)z; if (z != v.i) skip = true;
        } else if (t == I4 || t == I8) {
            __int128 p = l.i, q = r_.i, z = 0;
            switch (op) {
                case O_::add: z = p + q; break; case O_::subtract: z = p - q; break; case O_::multiply: z = p * q; break;
                case O_::divide: if (q == 0) bad = true; else z = p / q; break; default: if (q == 0) bad = true; else z = p % q; break;
            }
            bool over = t == I4 ? z != (std::int32_t)z : z != (std::int64_t)z;
            if (over && op == O_::divide) bad = true; else if (over) skip = true;
            v.i = (std::int64_t)z;
        } else {
            auto f = [&](auto p, auto q) -> double {
                switch (op) { case O_::add: return p + q; case O_::subtract: return p - q; case O_::multiply: return p * q; default: if (q == 0) { bad = true; return 0; } return p / q; }
            };
            v.f = t == F4 ? f((float)l.f, (float)r_.f) : f(l.f, r_.f);
        }
        if (bad) { v = val{}; v.k = E; v.i = (int)error_kind::arithmetic_error; }
        return done(e, t, v);
    }
    r compare(int depth) {
        K a = any_type(), b = a;
        if (numeric(a)) { static K const ks[] = {I4, I8, F4, F8, DC}; b = ks[d.below(5)]; }
        auto* e = hold(sc::compare{}); e->op_ = static_cast<sc::comparison_operator>(d.below(8));
        auto x = make(a, a == B ? 0 : depth - 1); text += " c" + std::to_string((int)e->op_) + " ";
        if (a == B) { a = b = I4; x = leaf(I4); }
        auto y = d.coin() ? leaf(b, &x.v) : make(b, depth - 1); e->left_ = x.e; e->right_ = y.e;
        val v; using C = sc::comparison_operator;
        if (x.v.k == E) return done(e, B, x.v);
        if (y.v.k == E) return done(e, B, y.v);
        bool dist = e->op_ == C::is_distinct_from, ndist = e->op_ == C::is_not_distinct_from;
        if (x.v.k == N || y.v.k == N) {
            if (dist || ndist) { v.k = B; v.i = ((x.v.k == N) == (y.v.k == N)) == ndist; }
            return done(e, B, v);
        }
        K c = numeric(a) ? common(a, b) : a; val l = widen(x.v, c), r_ = widen(y.v, c);
        auto c3 = [](auto p, auto q) { return p < q ? -1 : q < p ? 1 : 0; };
        int o;
        if (c == F4 || c == F8) o = std::isnan(l.f) || std::isnan(r_.f) ? (int)std::isnan(l.f) - (int)std::isnan(r_.f) : c3(l.f, r_.f);
        else if (c == DC) { __int128 p = l.i, q = r_.i; for (int x = l.x; x > r_.x; --x) p *= 10; for (int x = r_.x; x > l.x; --x) q *= 10; o = c3(p, q); if (std::abs((double)l.i) > 1e11 || std::abs((double)r_.i) > 1e11 || std::abs(l.x - r_.x) > 14) skip = true; }
        else if (c == T || c == O) { o = l.s.compare(r_.s); o = (o > 0) - (o < 0); }
        else o = c3(l.i, r_.i);
        if (c == TP && o == 0) o = c3(l.n, r_.n);
        v.k = B;
        switch (e->op_) { case C::equal: case C::is_not_distinct_from: v.i = o == 0; break; case C::not_equal: case C::is_distinct_from: v.i = o != 0; break; case C::less: v.i = o < 0; break; case C::less_equal: v.i = o <= 0; break; case C::greater: v.i = o > 0; break; default: v.i = o >= 0; }
        return done(e, B, v);
    }
};
template <class X> static std::string view(X x) { return std::string{static_cast<std::string_view>(x)}; }
static bool same(any const& a, val const& v) {
    if (v.k == N) return a.empty();
    if (v.k == E) return a.error() && a.to<class jogasaki::executor::expr::error>().kind() == static_cast<error_kind>(v.i);
    if (a.empty() || a.error()) return false;
    switch (v.k) {
        case B: return a.type_index() == any::index<bool> && a.to<bool>() == (v.i != 0); case I4: return a.type_index() == any::index<std::int32_t> && a.to<std::int32_t>() == v.i; case I8: return a.type_index() == any::index<std::int64_t> && a.to<std::int64_t>() == v.i;
        case F4: { if (a.type_index() != any::index<float>) return false; float f = a.to<float>(); return std::isnan(f) ? std::isnan(v.f) : f == (float)v.f && std::signbit(f) == std::signbit(v.f); }
        case F8: { if (a.type_index() != any::index<double>) return false; double f = a.to<double>(); return std::isnan(f) ? std::isnan(v.f) : f == v.f && std::signbit(f) == std::signbit(v.f); }
        case T: return a.type_index() == any::index<accessor::text> && view(a.to<accessor::text>()) == v.s;
        case O: return a.type_index() == any::index<accessor::binary> && view(a.to<accessor::binary>()) == v.s;
        case DC: { if (a.type_index() != any::index<takatori::decimal::triple>) return false; auto q = a.to<takatori::decimal::triple>(); return decimal::coefficient_of(q) == v.i && q.exponent() == v.x; }
        default: return true;
    }
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    yugawara::compiled_info info; executor::process::impl::variable_table host; executor::process::impl::variables_view vars;
    memory::page_pool pool{}; memory::lifo_paged_memory_resource resource{&pool};
    while (d.running()) {
        keep.clear(); expr_types.clear();
        gen g{d};
        auto r = g.make(g.any_type(), 1 + (int)d.below(3));
        if (g.skip) continue;
        d.input(g.text); vdrv_watch(20);
        evaluator_context ctx{nullptr, nullptr};
        evaluator ev{*r.e, info, &host};
        auto policy = static_cast<loss_precision_policy>(d.below(7)); ctx.set_loss_precision_policy(policy);
        any a = ev(ctx, vars, nullptr);
        d.check(ctx.get_loss_precision_policy() == policy, "loss policy not restored: " + g.text);
        d.check(same(a, r.v), g.text + " expected kind " + std::to_string(r.v.k) + " " + std::to_string(r.v.i) + "/" + std::to_string(r.v.f) + "/" + vdrv::hex(r.v.s) + ", result type " + std::to_string(a.type_index()));
        if (r.type == B) {
            evaluator_context c2{nullptr, nullptr};
            any b = evaluate_bool(c2, ev, vars, &resource);
            d.check(r.v.k == E ? b.error() : b.type_index() == any::index<bool> && b.to<bool>() == (r.v.k == B && r.v.i != 0), "condition " + g.text);
        }
    }
    return d.done();
}

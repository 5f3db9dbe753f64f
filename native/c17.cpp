// random LIKE predicates against the rules of docs/like-ja.md, character by character
#include <memory>
#include <stdexcept>
#include <cmath>
#include <deque>
#include <unordered_map>
#include "vdrv.h"
#include "../contracts/clients/stubs.inc"
#include "../contracts/clients/decimal_native.inc"
#include "../contracts/clients/evaluator_native.inc"
#include "../contracts/clients/evaluator.cpp"
#include <jogasaki/executor/conv/unify.h>
#include <jogasaki/memory/page_pool.h>
static executor::process::impl::value_info infos[256];
alignas(16) static char record[32 + 256 * 32];
takatori::type::data const& yugawara::compiled_info::type_of(sc::expression const&) const { static ty t = [] { ty x{takatori::type::type_kind::character}; x.varying_ = true; return x; }(); return t; }
namespace jogasaki::executor::process::impl {
bool variables_view::exists(takatori::descriptor::variable const& v) const { return v.id < 128; }
value_info const& variables_view::at(takatori::descriptor::variable const& v) const { return infos[v.id]; }
accessor::record_ref variables_view::ref(std::size_t) const { return {record, sizeof record}; }
variable_table::operator bool() const noexcept { return true; }
variable_table_info const& variable_table::info() const noexcept { static variable_table_info i; return i; }
record_store_ const& variable_table::store() const { static record_store_ s; return s; }
bool variable_table_info::exists(takatori::descriptor::variable const& v) const { return v.id >= 128; }
value_info const& variable_table_info::at(takatori::descriptor::variable const& v) const { return infos[v.id]; }
accessor::record_ref record_store_::ref() const noexcept { return {record, sizeof record}; }
}
namespace jogasaki::executor::expr::details {
any conduct_cast(evaluator_context&, takatori::type::data const&, takatori::type::data const&, any const&) { std::abort(); }
void ensure_decimal_context() {}
}
namespace jogasaki::executor::conv {
status conduct_unifying_conversion(takatori::type::data const&, takatori::type::data const&, any const&, any&, memory::lifo_paged_memory_resource*) { std::abort(); }
}
namespace jogasaki::memory {
page_pool::page_pool() = default;
page_pool::~page_pool() = default;
page_pool::page_info page_pool::acquire_page(bool) { return {std::aligned_alloc(4096, page_size), 0}; }
void page_pool::release_page(page_info p) noexcept { std::free(p.address()); }
}
static std::size_t step(std::string_view v, std::size_t i) {
    if (i >= v.size()) return 0;
    auto b = [&](std::size_t k) { return static_cast<unsigned char>(v[i + k]); };
    auto c = [&](std::size_t k) { return (b(k) >> 6) == 2; };
    std::size_t left = v.size() - i;
    if (b(0) < 0x80) return 1;
    if (b(0) >= 0xc2 && b(0) <= 0xdf) return left >= 2 && c(1) ? 2 : 0;
    if (b(0) >= 0xe0 && b(0) <= 0xef) return left >= 3 && c(1) && c(2) ? 3 : 0;
    if (b(0) >= 0xf0 && b(0) <= 0xf4) return left >= 4 && c(1) && c(2) && c(3) ? 4 : 0;
    return 0;
}
static bool chars(std::string const& s, std::vector<std::string>& out) {
    for (std::size_t i = 0; i < s.size();) { auto k = step(s, i); if (k == 0) return false; out.push_back(s.substr(i, k)); i += k; }
    return true;
}
enum R { FALSE_, TRUE_, NULL_, ERROR_ };
static R rule(std::string const& input, std::string const& pattern, std::string const& escape) {
    std::vector<std::string> in, pat, esc;
    if (! escape.empty() && (! chars(escape, esc) || esc.size() != 1)) return ERROR_;
    if (! chars(pattern, pat)) return NULL_;
    struct item { int k; std::string c; };
    std::vector<item> items;
    for (std::size_t i = 0; i < pat.size(); ++i) {
        if (! escape.empty() && pat[i] == escape) {
            if (++i == pat.size()) return ERROR_;
            items.push_back({0, pat[i]});
        } else items.push_back({pat[i] == "%" ? 2 : pat[i] == "_" ? 1 : 0, pat[i]});
    }
    if (! chars(input, in)) return NULL_;
    std::vector<std::vector<char>> m(in.size() + 2, std::vector<char>(items.size() + 1));
    for (std::size_t p = items.size() + 1; p-- > 0;)
        for (std::size_t i = in.size() + 1; i-- > 0;) {
            bool more = i < in.size();
            m[i][p] = p == items.size() ? ! more : items[p].k == 2 ? m[i][p + 1] || (more && m[i + 1][p]) : more && (items[p].k == 1 || items[p].c == in[i]) && m[i + 1][p + 1];
        }
    return m[0][0] ? TRUE_ : FALSE_;
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    yugawara::compiled_info info; executor::process::impl::variable_table host; executor::process::impl::variables_view vars;
    static char const* const C[] = {"a", "b", "%", "_", "\\", "\xc3\xa9", "\xe3\x81\x82", "\xe3\x81\x84", "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x81"};
    auto text = [&](std::size_t longest, int bad, int wild) {
        std::string s;
        for (auto n = d.below(longest + 1); n-- > 0;) s += (int)d.below(10) < wild ? C[2 + d.below(2)] : C[d.below(4) == 0 ? d.below(10) : d.below(10) % 7];
        if (bad != 0 && d.below(bad) == 0 && ! s.empty()) { if (d.coin()) s.pop_back(); else s[d.below(s.size())] = static_cast<char>(d.below(256)); }
        return s;
    };
    std::string s[3];
    bool null[3];
    while (d.running()) {
        s[0] = text(7, 12, 0);
        s[1] = d.below(6) == 0 ? text(4, 0, 10) : text(6, 12, 4);
        if (d.below(3) == 0) { s[1] = s[0]; for (int k = 0; k < 3 && ! s[1].empty(); ++k) { auto at = d.below(s[1].size()); if (step(s[0], at) != 0) s[1].replace(at, d.coin() ? step(s[1], at) : 0, C[2 + d.below(2)]); } }
        s[2] = d.coin() ? "" : d.below(8) == 0 ? text(2, 6, 3) : C[d.below(10)];
        if (! s[2].empty() && d.below(4) == 0) s[1] += s[2];
        if (! s[2].empty() && d.below(6) == 0) s[1] += s[2] + s[2];
        for (auto& n : null) n = d.below(30) == 0;
        std::string w = vdrv::hex(s[0]) + (null[0] ? "(null)" : "") + " LIKE " + vdrv::hex(s[1]) + (null[1] ? "(null)" : "") + " ESCAPE " + vdrv::hex(s[2]) + (null[2] ? "(null)" : "");
        d.input(w); vdrv_watch(20);
        sc::variable_reference v[3];
        for (int i = 0; i < 3; ++i) {
            v[i].variable_.id = i;
            infos[i].value_offset_ = 32 + 32 * i; infos[i].nullity_offset_ = i;
            char* p = record + 32 + 32 * i;
            new (p) accessor::text{s[i].data(), s[i].size()};
            accessor::record_ref{record, sizeof record}.set_null(i, null[i]);
        }
        sc::match e{}; e.input_ = &v[0]; e.pattern_ = &v[1]; e.escape_ = &v[2];
        evaluator_context ctx{nullptr, nullptr};
        evaluator ev{e, info, &host};
        any a = ev(ctx, vars, nullptr);
        R r = null[0] || null[1] || null[2] ? NULL_ : rule(s[0], s[1], s[2]);
        R got = a.error() ? ERROR_ : a.empty() ? NULL_ : a.to<bool>() ? TRUE_ : FALSE_;
        static char const* const N[] = {"FALSE", "TRUE", "NULL", "an error"};
        d.check(got == r, w + " is " + N[got] + ", not " + N[r]);
    }
    return d.done();
}

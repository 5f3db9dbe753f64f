#include "vdrv.h"
#include <jogasaki/accessor/text.h>
#include <jogasaki/accessor/binary.h>
using namespace jogasaki::accessor;
struct res : jogasaki::memory::paged_memory_resource {
    std::vector<std::unique_ptr<char[]>> v;
    void* do_allocate(std::size_t b, std::size_t) override { v.emplace_back(new char[b]); return v.back().get(); }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(boost::container::pmr::memory_resource const& o) const noexcept override { return this == &o; }
    void end_current_page() override {}
    std::size_t do_page_remaining(std::size_t) const noexcept override { return 0; }
};
static int sgn(int x) { return (x > 0) - (x < 0); }
static int cmp(std::string const& a, std::string const& b) {
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; }
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template <class T> static void pair(vdrv& d, std::string const& a, std::string const& b, char const* nm) {
    d.input(std::string(nm) + " " + vdrv::hex(a) + " , " + vdrv::hex(b)); vdrv_watch(20);
    auto w = [&](char const* op) { return std::string(nm) + " " + op + " of " + vdrv::hex(a) + " and " + vdrv::hex(b); };
    res r;
    auto view = [](T const& t) { return std::string(static_cast<std::string_view>(t)); };
    auto ca = std::make_unique<std::string>(a), cb = std::make_unique<std::string>(b);
    T x(&r, ca->data(), ca->size()), y(&r, *cb);
    T u(a.data(), a.size()), z{std::string_view(b)};
    T bu(ca->data(), ca->size()), bz(cb->data(), cb->size());      // borrowed: their bytes go away below
    T c(&r, x, y), e(&r, bu, bz), k(&r, bu);
    std::fill(ca->begin(), ca->end(), 'Z'); std::fill(cb->begin(), cb->end(), 'Z');
    ca.reset(); cb.reset();
    d.check(view(x) == a && view(u) == a && view(k) == a, w("construction"));
    d.check(static_cast<std::string>(x) == a, w("string conversion"));
    d.check(view(y) == b && view(z) == b, w("construction"));
    d.check(x.size() == a.size() && x.empty() == a.empty() && static_cast<bool>(x) == !a.empty() && x.is_short() == (a.size() <= 15), w("size"));
    d.check(view(c) == a + b && view(e) == a + b && c.size() == a.size() + b.size(), w("concatenation"));
    int o = cmp(a, b);
    d.check(sgn(compare(x, y)) == o, w("compare"));
    d.check((x < y) == (o < 0), w("<")); d.check((x > y) == (o > 0), w(">")); d.check((x <= y) == (o <= 0), w("<=")); d.check((x >= y) == (o >= 0), w(">="));
    d.check((x == y) == (o == 0), w("==")); d.check((x != y) == (o != 0), w("!=")); d.check(c == e, w("=="));
    d.check(std::hash<text>()(text(a)) == std::hash<text>()(text(&r, a)), w("hash"));
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    auto one = [&](std::string const& a, std::string const& b) { pair<text>(d, a, b, "text"); pair<binary>(d, a, b, "binary"); };
    for (int i = 0; i <= 40; ++i) for (int j = 0; j <= 40; ++j) one(std::string(i, char(0x80 + i)), std::string(j, char(0x7f + j)));
    for (int a = 0; a < 256; a += 3) for (int b = 0; b < 256; b += 5) for (int n : {0, 14, 15, 16}) one(std::string(n, 'q') + char(a), std::string(n, 'q') + char(b));
    while (d.running()) {
        std::string a = d.bytes(d.below(8) == 0 ? 300 : 34), b = d.coin() ? d.bytes(34) : a;
        if (d.coin()) b.resize(d.below(b.size() + 3));
        if (d.coin() && !b.empty()) b[d.below(b.size())] = char(d.next());
        one(a, b);
    }
    return d.done();
}

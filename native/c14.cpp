#include "vdrv.h"
#include <atomic>
#include <future>
#include <mutex>
#include <thread>
#include <condition_variable>
#define private public
#include <jogasaki/utils/latch.h>
#undef private
#include <jogasaki/utils/waitable_atomic.h>
#include <jogasaki/utils/use_counter.h>
using namespace jogasaki::utils;
using namespace std::chrono_literals;
static auto clk() { return std::chrono::steady_clock::now(); }
static long ms(std::chrono::steady_clock::time_point t) { return std::chrono::duration_cast<std::chrono::milliseconds>(clk() - t).count(); }

// a latch against its state machine: open / closed by a waiter / released
static void latches(vdrv& d) {
    bool rel = d.coin(); std::string h = std::string("latch(") + (rel ? "released)" : ")"); d.input(h); latch l{rel};
    for (int i = 0, n = d.below(6); i < n; ++i) switch (d.below(5)) {
        case 0: h += " release"; d.input(h); l.release(); rel = true; break;
        case 1: h += " reset"; d.input(h); l.reset(); rel = false; break;
        case 2: if (!rel) break; h += " wait"; d.input(h); l.wait(); break;
        default: { if (!rel && d.below(60)) break; h += " wait(0)"; d.input(h); bool r = l.wait(std::chrono::nanoseconds(rel ? d.below(3) : 0)); d.check(r == rel, h + ": " + std::to_string(r)); }
    }
}
template <class T> static void atoms(vdrv& d, std::string const& nm) {
    auto gen = [&] { return static_cast<T>(d.below(3) ? d.below(3) : d.edge64()); };
    T v = gen(); std::string h = nm + " " + std::to_string(v); d.input(h); waitable_atomic<T> w{v};
    if (d.coin()) { waitable_atomic<T> z{}; d.check(z.load() == T{}, nm + " default " + std::to_string(z.load())); }
    for (int i = 0, n = d.below(8); i < n; ++i) {
        T x = gen(), e = gen(), e0 = e;
        switch (d.below(7)) {
            case 0: h += " store " + std::to_string(x); d.input(h); w.store(x); v = x; break;
            case 1: h += " = " + std::to_string(x); d.input(h); w = x; v = x; break;
            case 2: h += " cas_strong " + std::to_string(e) + "->" + std::to_string(x); d.input(h); { bool r = w.compare_exchange_strong(e, x); d.check(r == (v == e0), h + ": result"); if (r) v = x; else d.check(e == v, h + ": expected"); } break;
            case 3: h += " cas_weak " + std::to_string(e) + "->" + std::to_string(x); d.input(h); { bool r = w.compare_exchange_weak(e, x); d.check(!r || v == e0, h + ": result"); if (r) v = x; else d.check(e == v, h + ": expected"); } break;
            case 4: h += " notify"; d.input(h); if (d.coin()) w.notify_one(); else w.notify_all(); break;
            case 5: if (x == v) break; h += " wait " + std::to_string(x); d.input(h); w.wait(x); break;
            default: if (x == v && d.below(60)) break; h += " wait_for " + std::to_string(x); d.input(h); { bool r = w.wait_for(x == v ? 0ns : 1ms, x); d.check(r == (x != v), h + ": " + std::to_string(r)); }
        }
        d.check(w.load() == v && static_cast<T>(w) == v, h + ": value " + std::to_string(w.load()));
    }
}
static void counters(vdrv& d) {
    std::vector<std::unique_ptr<use_counter>> c; std::vector<int> g; int next = 0; std::string h = "use_counter";
    for (int i = 0, n = 1 + d.below(14); i < n; ++i) {
        std::size_t k = c.size(), a = k ? d.below(k) : 0, b = k ? d.below(k) : 0;
        switch (k ? d.below(7) : 0) {
            case 0: h += " new"; d.input(h); c.push_back(std::make_unique<use_counter>()); g.push_back(next++); break;
            case 1: h += " copy" + std::to_string(a); d.input(h); c.push_back(std::make_unique<use_counter>(*c[a])); g.push_back(g[a]); break;
            case 2: h += " move" + std::to_string(a); d.input(h); c.push_back(std::make_unique<use_counter>(std::move(*c[a]))); g.push_back(g[a]); g[a] = next++; break;
            case 3: h += " assign" + std::to_string(a) + "<-" + std::to_string(b); d.input(h); *c[a] = *c[b]; g[a] = g[b]; break;
            case 4: if (a == b) break; h += " move-assign" + std::to_string(a) + "<-" + std::to_string(b); d.input(h); *c[a] = std::move(*c[b]); g[a] = g[b]; g[b] = next++; break;
            case 5: h += " reset" + std::to_string(a); d.input(h); c[a]->reset(); g[a] = next++; break;
            default: h += " drop" + std::to_string(a); d.input(h); c.erase(c.begin() + a); g.erase(g.begin() + a);
        }
        for (std::size_t j = 0; j < c.size(); ++j) {
            std::size_t want = 0; for (int x : g) want += x == g[j];
            d.check(c[j]->count() == want, h + ": count" + std::to_string(j) + " " + std::to_string(c[j]->count()) + " expected " + std::to_string(want));
        }
    }
}
// threads: a sleeping thread returns once released, not before
template <class W, class R> static void sleeper(vdrv& d, std::string const& h, W wait, R release, int threads = 1) {
    d.input(h); std::atomic<int> back{0}; std::vector<std::future<void>> f;
    for (int i = 0; i < threads; ++i) f.push_back(std::async(std::launch::async, [&] { wait(); ++back; }));
    std::this_thread::sleep_for(30ms);
    d.check(back == 0, h + ": returns before it is released");
    auto t0 = clk(); release();
    for (auto& x : f) if (x.wait_until(t0 + 3s) != std::future_status::ready) d.fail(h + ": still asleep 3 s after it was released");
}
// a wake-up nobody asked for (the name of the member may change)
template <class L> static auto stray(L& l, int) -> decltype(l.cv_.notify_all()) { l.cv_.notify_all(); }
template <class L> static void stray(L&, long) {}
static void threads(vdrv& d) {
    { latch l; bool r = true; std::string h = "latch: thread in wait(150ms), stray wake-up, never released"; d.input(h);
      std::thread t([&] { r = l.wait(150ms); }); std::this_thread::sleep_for(30ms); stray(l, 0); t.join(); d.check(!r, h + ": reported as released"); }
    { latch l; sleeper(d, "latch: thread in wait(), then release()", [&] { l.wait(); }, [&] { l.release(); }); l.reset();
      sleeper(d, "latch: reset and used again", [&] { l.wait(); }, [&] { l.release(); }); }
    { latch l; bool r = false; sleeper(d, "latch: thread in wait(8s), then release()", [&] { r = l.wait(8s); }, [&] { l.release(); }); d.check(r, "latch: timed wait released in time gives true"); }
    { latch l; sleeper(d, "latch: three threads in wait(), then release()", [&] { l.wait(); }, [&] { l.release(); }, 3); }
    { waitable_atomic<bool> w{false}; sleeper(d, "waitable_atomic: wait, store, notify_one", [&] { w.wait(false); }, [&] { w.store(true); w.notify_one(); }); }
    { waitable_atomic<long> w{5}; sleeper(d, "waitable_atomic: 3 in wait, store, notify_all", [&] { w.wait(5); }, [&] { w.store(6); w.notify_all(); }, 3); }
    { waitable_atomic<long> w{5}; bool r = false; sleeper(d, "waitable_atomic: wait_for(8s), store, notify_one", [&] { r = w.wait_for(8s, 5); }, [&] { w = 6; w.notify_one(); }); d.check(r, "waitable_atomic: wait_for gives true when changed in time"); }
    { waitable_atomic<long> w{5}; sleeper(d, "waitable_atomic: notified without a change, then changed", [&] { w.wait(5); }, [&] { w.notify_all(); std::this_thread::sleep_for(20ms); w.store(6); w.notify_all(); }); }
    { latch l; bool r = true; std::string h = "latch: thread in wait(100ms), never released"; auto t0 = clk(); r = l.wait(100ms); d.check(!r && ms(t0) >= 95, h); }
    { waitable_atomic<bool> w{true}; auto t0 = clk(); bool r = w.wait_for(100ms, true); d.check(!r && ms(t0) >= 95, "waitable_atomic: wait_for(100ms) without a change"); }
    { waitable_atomic<long> w{5}; std::string h = "waitable_atomic: wait_for(120ms), changed after 30 ms, not notified"; d.input(h); bool r = false; std::thread t([&] { r = w.wait_for(120ms, 5); }); std::this_thread::sleep_for(30ms); w.store(6); t.join(); d.check(r, h + ": says unchanged"); }
    { waitable_atomic<long> w{5}; std::string h = "waitable_atomic: notified without a change"; d.input(h); std::atomic<bool> back{false};
      std::thread t([&] { w.wait(5); back = true; }); std::this_thread::sleep_for(20ms); w.notify_all(); w.notify_one(); std::this_thread::sleep_for(20ms); d.check(!back, h + ": returns although the value is the same"); w.store(6); w.notify_all(); t.join(); }
    // races: release between the check and the sleep must not be lost
    for (int i = 0; i < 300; ++i) {
        latch l; waitable_atomic<bool> w{false}; std::atomic<int> go{0}; d.input("race of wait and release");
        auto f = std::async(std::launch::async, [&] { ++go; while (go < 2) {} l.wait(); w.wait(false); });
        while (go < 1) {} ++go; for (int k = static_cast<int>(d.below(200)); k > 0; --k) { asm volatile(""); }
        l.release(); w.store(true); w.notify_one();
        if (f.wait_for(3s) != std::future_status::ready) d.fail("race of wait and release: the wake-up is lost");
    }
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    long round = 0;
    while (d.running()) {
        latches(d); atoms<bool>(d, "waitable_atomic<bool>"); atoms<long>(d, "waitable_atomic<long>"); counters(d);
        if (round++ % 200000 == 0) threads(d);
    }
    return d.done();
}

#include <memory>
#include <string>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <thread>
#define private public
#include <jogasaki/utils/latch.h>
#include <jogasaki/utils/waitable_atomic.h>
#include <jogasaki/utils/use_counter.h>
#undef private
using namespace jogasaki::utils;
extern "C" {
void share_latch(std::mutex*, std::condition_variable*, bool* open, bool* done);
void share_flag(std::mutex*, std::condition_variable*, void* value);
void plain(bool open, bool done);
void begin_op();
void end_op(int result);
void arbitrary_count(void*);
void counts(std::size_t a, std::size_t b, std::size_t c);
}
#define LATCH latch l; share_latch(&l.guard_, &l.cv_, &l.open_, &l.done_); begin_op()
extern "C" void c_latch_new(bool released) { latch l{released}; plain(l.open_, l.done_); }
extern "C" void c_latch_release() { LATCH; l.release(); end_op(2); }
extern "C" void c_latch_wait() { LATCH; l.wait(); end_op(2); }
extern "C" void c_latch_wait_for(long ns) { LATCH; bool r = l.wait(std::chrono::nanoseconds(ns)); end_op(r ? 1 : 0); }
extern "C" void c_latch_reset() { LATCH; l.reset(); end_op(2); }
template <class T> struct flag {
    waitable_atomic<T> w{};
    flag() { share_flag(&w.mutex_, &w.cv_, &w.origin_); begin_op(); }
};
#define FLAG(N, T) \
extern "C" void c_##N##_wait(T old) { flag<T> f; f.w.wait(old); end_op(2); } \
extern "C" void c_##N##_wait_for(long ns, T old) { flag<T> f; bool r = f.w.wait_for(std::chrono::nanoseconds(ns), old); end_op(r ? 1 : 0); } \
extern "C" void c_##N##_notify_one() { flag<T> f; f.w.notify_one(); end_op(2); } \
extern "C" void c_##N##_notify_all() { flag<T> f; f.w.notify_all(); end_op(2); } \
extern "C" T c_##N##_new(T v) { waitable_atomic<T> w{v}; return w.load(); } \
extern "C" T c_##N##_default() { waitable_atomic<T> w{}; return w.load(); } \
extern "C" T c_##N##_store(T v, T x) { waitable_atomic<T> w{v}; w.store(x); return w.load(); } \
extern "C" T c_##N##_assign(T v, T x) { waitable_atomic<T> w{v}; w = x; return static_cast<T>(w); } \
extern "C" bool c_##N##_cas_strong(T v, T* e, T x, T* o) { waitable_atomic<T> w{v}; bool r = w.compare_exchange_strong(*e, x); *o = w.load(); return r; } \
extern "C" bool c_##N##_cas_weak(T v, T* e, T x, T* o) { waitable_atomic<T> w{v}; bool r = w.compare_exchange_weak(*e, x); *o = w.load(); return r; }
FLAG(flag, bool) FLAG(number, long)
extern "C" void c_count_new() { use_counter a; counts(a.count(), 0, 0); }
extern "C" void c_count_copy() { use_counter a; arbitrary_count(&a); use_counter b{a}; counts(a.count(), b.count(), 0); }
extern "C" void c_count_copied() { use_counter a; arbitrary_count(&a); { use_counter b{a}; } counts(a.count(), 0, 0); }
extern "C" void c_count_assign() { use_counter a; use_counter b{a}; arbitrary_count(&a); use_counter c; arbitrary_count(&c); b = c; counts(a.count(), b.count(), c.count()); }
extern "C" void c_count_move() { use_counter a; arbitrary_count(&a); use_counter b{std::move(a)}; counts(a.count(), b.count(), 0); }
extern "C" void c_count_move_assign() { use_counter a; use_counter b{a}; arbitrary_count(&a); use_counter c; arbitrary_count(&c); b = std::move(c); counts(a.count(), b.count(), c.count()); }
extern "C" void c_count_reset() { use_counter a; use_counter b{a}; arbitrary_count(&a); b.reset(); counts(a.count(), b.count(), 0); }
extern "C" void c_count_assign_alone() { use_counter b; use_counter c; arbitrary_count(&c); b = c; counts(b.count(), c.count(), 0); }
extern "C" void c_count_move_assign_alone() { use_counter b; use_counter c; arbitrary_count(&c); b = std::move(c); counts(b.count(), c.count(), 0); }
extern "C" void c_count_reset_alone() { use_counter b; b.reset(); counts(b.count(), 0, 0); }

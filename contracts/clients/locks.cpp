#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <map>
#include <deque>
#include <functional>
#include <optional>
#include <sstream>
#include <algorithm>
#include <mutex>
#include <tbb/concurrent_hash_map.h>
#include <tbb/concurrent_queue.h>
#define private public
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/storage/shared_lock.h>
#include <jogasaki/storage/unique_lock.h>
#include <jogasaki/storage/reference_scope.h>
#undef private
using namespace jogasaki::storage;
using u64 = std::uint64_t;
using ctl = impl::storage_control;
extern "C" bool c_lock(ctl* c) { return c->lock(); }
extern "C" bool c_lock_shared(ctl* c) { return c->lock_shared(); }
extern "C" bool c_can_lock(ctl* c) { return c->can_lock(); }
extern "C" bool c_can_lock_shared(ctl* c) { return c->can_lock_shared(); }
extern "C" void c_release(ctl* c) { c->release(); }
extern "C" void c_release_shared(ctl* c) { c->release_shared(); }
extern "C" void observe_list(u64 const* p, u64 n, int which);
extern "C" bool c_contains(storage_list* l, u64 e) { return storage_list_view{*l}.contains(e); }
extern "C" bool c_create_shared(storage_manager* m, storage_list* l, unique_lock* parent) {
    auto r = m->create_shared_lock(*l, parent);
    auto* p = r.release();
    if (! p) return false;
    auto v = p->storage();
    observe_list(v.begin(), v.size(), 0);
    observe_list(parent ? parent->storage().begin() : nullptr, parent ? parent->storage().size() : 0, 1);
    return true;
}
extern "C" bool c_add_locked(storage_manager* m, storage_list* l, unique_lock* lock) {
    auto r = m->add_locked_storages(*l, *lock);
    auto v = lock->storage();
    observe_list(v.begin(), v.size(), 0);
    return r;
}
extern "C" void c_remove_locked(storage_manager* m, storage_list* l, unique_lock* lock) {
    m->remove_locked_storages(*l, *lock);
    auto v = lock->storage();
    observe_list(v.begin(), v.size(), 0);
}
extern "C" void c_release_storage(unique_lock* lock, u64 e) {
    lock->release_storage(e);
    auto v = lock->storage();
    observe_list(v.begin(), v.size(), 0);
}
extern "C" void c_drop_shared(shared_lock* l) { l->~shared_lock(); }
extern "C" void c_drop_unique(unique_lock* l) { l->~unique_lock(); }
extern "C" void c_create_unique(storage_manager* m) {
    auto r = m->create_unique_lock();
    auto* p = r.release();
    auto v = p->storage();
    observe_list(v.begin(), v.size(), 0);
}
#include <jogasaki/utils/subtract_vectors.h>
extern "C" void c_subtract(std::vector<u64> const* x, std::vector<u64> const* y) {
    auto r = jogasaki::utils::subtract_vectors(*x, *y);
    observe_list(r.data(), r.size(), 0);
}
extern "C" void c_reference(reference_scope* s, u64 e) { s->add_storage(e); }
extern "C" void c_drop_scope(reference_scope* s) { s->~reference_scope(); }
extern "C" ctl* c_find_entry(storage_manager* m, u64 e) { return m->find_entry(e).get(); }
extern "C" u64 c_count_up(ctl* c) { c->increment_ref_transaction_count(); return c->ref_transaction_count(); }
extern "C" u64 c_count_down(ctl* c) { c->decrement_ref_transaction_count(); return c->ref_transaction_count(); }

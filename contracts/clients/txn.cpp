#include <memory>
#include <string>
#include <string_view>
#include <optional>
#include <functional>
#include <atomic>
#include <chrono>
#include <mutex>
#include <sstream>
#include <map>
#include <array>
#include <vector>
#include <algorithm>
#include <thread>
#include <boost/assert.hpp>
#define private public
#include <jogasaki/transaction_context.h>
#undef private
#include <jogasaki/error/error_info.h>
using namespace jogasaki;
using u64 = std::uint64_t;
static void setup(transaction_context* t, kvs::transaction* k, storage::unique_lock* l, storage::reference_scope* s) {
    new (&t->transaction_) std::shared_ptr<kvs::transaction>(std::shared_ptr<void>{}, k);
    new (&t->storage_lock_) std::unique_ptr<storage::unique_lock>(l);
    new (&t->storage_ref_scope_) std::unique_ptr<storage::reference_scope>(s);
}
static bool held(transaction_context* t) { return t->storage_lock_.get() != nullptr || t->storage_ref_scope_.get() != nullptr; }
extern "C" status c_tx_abort(transaction_context* t, kvs::transaction* k, storage::unique_lock* l, storage::reference_scope* s, bool* left) {
    setup(t, k, l, s);
    auto r = t->abort_transaction();
    *left = held(t);
    return r;
}
extern "C" status c_tx_commit(transaction_context* t, kvs::transaction* k, storage::unique_lock* l, storage::reference_scope* s, bool async, bool* left) {
    setup(t, k, l, s);
    auto r = t->commit(async);
    *left = held(t);
    return r;
}
extern "C" bool c_tx_commit_async(transaction_context* t, kvs::transaction* k, storage::unique_lock* l, storage::reference_scope* s, transaction_context::commit_callback_type* cb, bool* left) {
    setup(t, k, l, s);
    auto r = t->commit(std::move(*cb));
    *left = t->storage_lock_.get() == l && t->storage_ref_scope_.get() == s;
    t->storage_lock_.release();
    t->storage_ref_scope_.release();
    return r;
}
extern "C" bool c_tx_error(transaction_context* t, error::error_info* e) {
    std::shared_ptr<error::error_info> p{std::shared_ptr<void>{}, e};
    return t->error_info(p);
}
extern "C" error::error_info* c_tx_get_error(transaction_context* t) { return t->error_info().get(); }
extern "C" void c_tx_new(transaction_context* t, kvs::transaction* k) { new (t) transaction_context(std::shared_ptr<kvs::transaction>{std::shared_ptr<void>{}, k}); }
extern "C" u64 c_tx_id(transaction_context* t) { return t->surrogate_id(); }
extern "C" int c_tx_state(transaction_context* t) { return static_cast<int>(t->state()); }
extern "C" void c_tx_set_state(transaction_context* t, transaction_state_kind k) { t->state(k); }

#include "vdrv.h"
#include <memory>
#include <string>
#include <string_view>
#include <optional>
#include <functional>
#include <atomic>
#include <chrono>
#include <mutex>
#include <sstream>
#include <map>
#include <array>
#include <vector>
#include <algorithm>
#include <thread>
#include <boost/assert.hpp>
#define private public
#include <jogasaki/transaction_context.h>
#undef private
#include <jogasaki/error/error_info.h>
#include <limestone/api/blob_pool.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/executor/global.h>
using namespace jogasaki;
using kind = transaction_state_kind;
using tman = details::termination_manager;
using wman = details::worker_manager;

// ---- the engine and everything else behind the transaction context
static thread_local std::string events{};
static status answer{status::ok};
static transaction_context* watched{};
static std::string probe() { return watched ? std::string(watched->storage_lock_ ? "L" : "-") + (watched->storage_ref_scope_ ? "R" : "-") + std::to_string(static_cast<int>(watched->state())) : ""; }
namespace jogasaki::kvs {
transaction::~transaction() noexcept = default;
status transaction::commit(bool async) { events += std::string("commit") + (async ? "1" : "0") + probe() + ";"; return answer; }
bool transaction::commit(commit_callback_type) { events += "callback" + probe() + ";"; return answer == status::ok; }
status transaction::abort_transaction() { events += "abort" + probe() + ";"; return answer; }
::sharksfin::TransactionControlHandle transaction::control_handle() const noexcept { return {}; }
::sharksfin::TransactionHandle transaction::handle() { return {}; }
kvs::database* transaction::database() const noexcept { return {}; }
::sharksfin::TransactionState transaction::check_state() { return {}; }
std::shared_ptr<::sharksfin::CallResult> transaction::recent_call_result() noexcept { return {}; }
std::string_view transaction::transaction_id() const noexcept { return "TID"; }
}
namespace sharksfin { TransactionState::StateKind TransactionState::state_kind() const noexcept { return k; } }
namespace limestone::api { blob_pool::~blob_pool() = default; void blob_pool::release() {} }

namespace jogasaki::global { std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { static auto m = std::make_shared<storage::storage_manager>(); return m; } }

static bool abort_ends(kind a, kind b) {     // may b follow a at all
    static const std::map<kind, int> rank{{kind::undefined, 0}, {kind::init, 1}, {kind::active, 2}, {kind::going_to_commit, 3}, {kind::going_to_abort, 3}, {kind::cc_committing, 4},
        {kind::committed_available, 5}, {kind::committed_stored, 6}, {kind::aborted, 6}, {kind::unknown, 7}};
    if (a == b) return true;
    if (rank.at(b) <= rank.at(a)) return false;
    if (b == kind::unknown) return true;
    if (a == kind::going_to_abort) return b == kind::aborted;
    if (a == kind::committed_available) return b == kind::committed_stored;
    return true;
}

static void words(vdrv& d) {
    tman m{}; wman w{};
    long tasks = 0; bool A = false, C = false; long wt = 0; std::uint32_t who = wman::empty_worker;
    std::string h;
    for (int i = 0; i < 12; ++i) {
        termination_state ts{};
        int op = d.below(8);
        std::string nm = "";
        bool none = ! A && ! C;
        if (op == 0 && d.below(3) == 0) { nm = "abort"; h += nm + " "; d.input(h); bool r = m.try_set_going_to_abort(ts); d.check(r == none, "abort is accepted exactly if nothing was decided"); if (r) A = true; op = r ? 9 : 8; }
        else if (op == 1 && d.below(3) == 0) { nm = "commit"; h += nm + " "; d.input(h); bool r = m.try_set_going_to_commit(ts); d.check(r == none, "commit is accepted exactly if nothing was decided"); if (r) { (tasks ? A : C) = true; } op = r ? 9 : 8; }
        else if (op <= 3) { h += "enter "; d.input(h); bool r = m.try_increment_task_use_count(ts); d.check(r == none, "a task enters exactly if nothing was decided"); if (r) ++tasks; op = r ? 9 : 8; }
        else if (op <= 5 && tasks) { h += "leave "; d.input(h); m.decrement_task_use_count(ts); --tasks; op = 9; }
        else if (op == 6) {
            std::uint32_t x = d.below(3) ? d.below(2) : d.below(5), y = x;
            h += "worker" + std::to_string(x) + " "; d.input(h);
            bool r = w.increment_and_set_on_zero(y);
            d.check(r == (wt == 0 || who == x), "a worker takes the task exactly if it is in charge or nobody is");
            if (r) { ++wt; who = x; }
            d.check(y == who, "the worker in charge is told");
            op = 8;
        } else if (op == 7) {
            h += "workerleaves "; d.input(h);
            bool r = w.decrement_and_clear_on_zero();
            if (wt) --wt;
            if (! wt) who = wman::empty_worker;
            d.check(r == (wt == 0), "true exactly if nobody is left");
            op = 8;
        }
        auto s = m.state();
        d.check(s.going_to_abort() == A && s.going_to_commit() == C && s.task_use_count() == static_cast<std::size_t>(tasks) && s.task_empty() == (tasks == 0), "state of the transaction");
        if (op == 9) d.check(static_cast<std::uint64_t>(ts) == static_cast<std::uint64_t>(s), "the state told is the state made");
        d.check(w.use_count() == wt && w.worker_id() == who, "worker of the transaction");
    }
}

static void states(vdrv& d) {
    transaction_state s{};
    std::string h;
    auto k = [](int i) { return static_cast<kind>(i); };
    for (int i = 0; i < 8; ++i) {
        auto cur = s.kind();
        auto to = k(d.below(10));
        if (d.below(4) == 0) {
            auto from = d.below(2) ? cur : k(d.below(10));
            h += "if " + std::string(to_string_view(from)) + ":"; h += std::string(to_string_view(to)) + " "; d.input(h);
            d.check(s.set_if(from, to) == (from == cur) && s.kind() == (from == cur ? to : cur), "set_if");
            continue;
        }
        h += std::string(to_string_view(to)) + " "; d.input(h);
        s.set(to);
        d.check(s.kind() == cur || s.kind() == to, "another state");
        d.check(abort_ends(cur, s.kind()), "the state went back, or the outcome changed");
    }
    static const std::vector<std::pair<kind, kind>> open{{kind::undefined, kind::init}, {kind::init, kind::active}, {kind::active, kind::going_to_commit}, {kind::active, kind::going_to_abort}, {kind::active, kind::aborted},
        {kind::going_to_commit, kind::cc_committing}, {kind::going_to_commit, kind::aborted}, {kind::cc_committing, kind::committed_available}, {kind::cc_committing, kind::committed_stored}, {kind::cc_committing, kind::aborted},
        {kind::committed_available, kind::committed_stored}, {kind::going_to_abort, kind::aborted}};
    for (auto [a, b] : open) { d.input(std::string(to_string_view(a)) + "->" + std::string(to_string_view(b))); d.check(details::transition_allowed(a, b), "the way is closed"); }
}

static void ends(vdrv& d) {
    events.clear();
    int op = d.below(3);
    answer = d.below(2) ? status::ok : status::err_unknown;
    bool lock = d.below(2), as = d.below(2);
    static storage::storage_manager sm{};
    transaction_context t{std::make_shared<kvs::transaction>()};
    t.state(kind::init); t.state(kind::active);
    if (lock) t.storage_lock(sm.create_unique_lock());
    watched = &t;
    std::string in = std::to_string(op) + (answer == status::ok ? " ok" : " fails") + (lock ? " lock" : "");
    d.input(in);
    std::string L = lock ? "L" : "-";
    bool kept = false;
    if (op == 0) { d.check(t.abort_transaction() == answer, "answer of the engine"); d.check(events == "abort" + L + "R" + std::to_string(static_cast<int>(kind::active)) + ";", "abort: " + events); d.check(t.state() == kind::aborted, "aborted"); }
    if (op == 1) { d.check(t.commit(as) == answer, "answer of the engine"); d.check(events == std::string("commit") + (as ? "1" : "0") + L + "R" + std::to_string(static_cast<int>(kind::active)) + ";", "commit: " + events); }
    if (op == 2) { d.check(t.commit(kvs::transaction::commit_callback_type{}) == (answer == status::ok), "answer of the engine"); d.check(events == "callback" + L + "R" + std::to_string(static_cast<int>(kind::cc_committing)) + ";", "commit: " + events); kept = true; }
    d.check((t.storage_ref_scope_ != nullptr) == kept && (t.storage_lock_ != nullptr) == (kept && lock), "locks and references");
    watched = nullptr;
    transaction_context t2{std::make_shared<kvs::transaction>()};
    d.check(t.surrogate_id() != t2.surrogate_id(), "numbers of transactions");
    auto e1 = std::make_shared<error::error_info>(error_code::cc_exception, "first", "", "", ""), e2 = std::make_shared<error::error_info>(error_code::sql_execution_exception, "second", "", "", "");
    auto none = std::make_shared<error::error_info>();
    t2.state(kind::init); t2.state(kind::active);
    if (d.below(2)) { d.check(t2.error_info(none), "nothing is taken over nothing"); }
    else { d.check(t2.error_info() == nullptr, "no error at first"); }
    d.check(t2.error_info(e1) && t2.state() == kind::aborted, "the first error is taken");
    d.check(! t2.error_info(e2) && t2.error_info() == e1, "the first error is kept");
}

static void threads(vdrv& d) {
    tman m{}; wman w{};
    std::atomic_int ends{0}, aborts{0}, busy{0}, bad{0};
    std::atomic<std::uint32_t> wbad{0};
    std::vector<std::thread> ts;
    d.input("threads");
    for (int i = 0; i < 4; ++i) ts.emplace_back([&, i]() {
        for (int k = 0; k < 200; ++k) {
            termination_state s{};
            if (i < 3 || k < 150) {
                if (m.try_increment_task_use_count(s)) {
                    ++busy;
                    if (m.state().going_to_commit()) ++bad;
                    --busy;
                    m.decrement_task_use_count(s);
                    if (s.going_to_abort() && s.task_empty()) ++aborts;
                }
            } else if (i % 2 ? m.try_set_going_to_commit(s) : m.try_set_going_to_abort(s)) {
                ++ends;
                if (s.going_to_commit() && busy) ++bad;
                if (s.going_to_abort() && s.task_empty()) ++aborts;
            }
            std::uint32_t x = i % 2, y = x;
            if (w.increment_and_set_on_zero(y)) { if (w.worker_id() != x) ++wbad; w.decrement_and_clear_on_zero(); }
        }
    });
    for (auto&& t : ts) t.join();
    d.check(bad == 0, "a task works while the transaction commits");
    d.check(ends == 1, "exactly one end");
    d.check(aborts == (m.state().going_to_abort() ? 1 : 0), "the abort is carried out once");
    d.check(wbad == 0 && w.use_count() == 0, "one worker");
}

static void errors(vdrv& d) {
    d.input("two tasks report errors");
    auto e1 = std::make_shared<error::error_info>(error_code::cc_exception, "first", "", "", ""), e2 = std::make_shared<error::error_info>(error_code::sql_execution_exception, "second", "", "", "");
    for (int n = 0; n < 20; ++n) {
        transaction_context t{std::make_shared<kvs::transaction>()};
        std::atomic_int at{0};
        bool r[2]{};
        auto f = [&](int k) { ++at; while (at != 2) {} r[k] = t.error_info(k ? e1 : e2); };
        std::thread a(f, 0), b(f, 1);
        a.join(); b.join();
        d.check(r[0] != r[1], "exactly one error is taken");
        d.check(t.error_info() == (r[0] ? e2 : e1), "the error taken is kept");
    }
}

int main(int argc, char** argv) {
    vdrv d(argc, argv);
    vdrv_install();


    long k = 0;
    while (d.running()) {
        if (k++ % 40 == 39) threads(d);
        else if (k % 40 == 20) errors(d);
        else if (d.below(3) == 0) states(d);
        else if (d.below(3) == 0) ends(d);
        else words(d);
    }
    return d.done();
}

#pragma once
// stand-in: declarations of the engine's transaction used by transaction_context
#include <functional>
#include <memory>
#include <string_view>
#include <sharksfin/api.h>
#include <sharksfin/CallResult.h>
#include <sharksfin/TransactionState.h>
#include <jogasaki/status.h>
namespace jogasaki::kvs {
class database;
class transaction {
public:
    using commit_callback_type = std::function<void(::sharksfin::StatusCode, ::sharksfin::ErrorCode, ::sharksfin::durability_marker_type)>;
    ~transaction() noexcept;
    status commit(bool async = false);
    bool commit(commit_callback_type cb);
    status abort_transaction();
    ::sharksfin::TransactionControlHandle control_handle() const noexcept;
    ::sharksfin::TransactionHandle handle();
    kvs::database* database() const noexcept;
    ::sharksfin::TransactionState check_state();
    std::shared_ptr<::sharksfin::CallResult> recent_call_result() noexcept;
    std::string_view transaction_id() const noexcept;
};
}

#pragma once
// stand-in for the interface of the transaction engine (not installed): types only
#include <cstdint>
#include <functional>
namespace sharksfin {
enum class StatusCode : std::int64_t { OK = 0, ERR_UNKNOWN = -1 };
enum class ErrorCode : std::int32_t { OK = 0 };
using durability_marker_type = std::uint64_t;
struct TransactionStub;
using TransactionControlHandle = TransactionStub*;
using TransactionHandle = TransactionStub*;
using DatabaseHandle = TransactionStub*;
class CallResult;
}

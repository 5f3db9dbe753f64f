#pragma once
namespace sharksfin { class TransactionState { public: enum class StateKind { UNKNOWN, WAITING_START, STARTED }; StateKind state_kind() const noexcept; StateKind k{}; }; }

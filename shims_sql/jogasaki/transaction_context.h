#pragma once
#include <cstdint>
#include <memory>
#include <jogasaki/error/error_info.h>
#include <jogasaki/lob/lob_reference.h>
namespace jogasaki { class transaction_context { public: std::uint64_t surrogate_id() const noexcept; }; }

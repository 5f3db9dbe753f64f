#pragma once
#include <memory>
#include <jogasaki/error/error_info.h>
#include <jogasaki/lob/lob_id.h>
#include <jogasaki/lob/lob_reference.h>
#include <jogasaki/status.h>
#include <jogasaki/transaction_context.h>
namespace jogasaki::datastore { status assign_lob_id(lob::lob_reference const& ref, transaction_context* tx, lob::lob_id_type& id, std::shared_ptr<error::error_info>& error); }

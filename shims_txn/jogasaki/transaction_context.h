#pragma once
// the real header, not the stub of shims_sql
#include <../src/jogasaki/transaction_context.h>

#pragma once
#include <jogasaki/kvs/transaction.h>
#include <jogasaki/kvs/transaction_option.h>

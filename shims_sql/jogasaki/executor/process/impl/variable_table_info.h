#pragma once
#include <jogasaki/executor/process/impl/variable_table.h>

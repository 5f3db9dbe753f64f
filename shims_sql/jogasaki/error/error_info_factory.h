#pragma once
#include <memory>
#include <jogasaki/error/error_info.h>

#pragma once
#include <glog/logging.h>
#include <jogasaki/utils/interference_size.h>

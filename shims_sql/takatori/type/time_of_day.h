#pragma once
#include <takatori/type/data.h>

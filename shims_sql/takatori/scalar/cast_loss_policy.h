#pragma once
#include <takatori/scalar/scalar_.h>

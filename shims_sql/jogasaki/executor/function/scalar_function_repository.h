#pragma once
#include <jogasaki/executor/global.h>

#pragma once
// stand-in: the original expands to assert()

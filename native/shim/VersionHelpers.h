#include "win32_shim.h"

// W01, bit operations: N02's exploration with the code Microsoft's compiler sees.
#define W_MSVC
#include "win/env.h"
#include "N02.cpp"

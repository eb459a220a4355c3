// W01, strings: S01's exploration with the code Microsoft's compiler sees.
#define W_MSVC
#include "win/env.h"
#include "S01.cpp"

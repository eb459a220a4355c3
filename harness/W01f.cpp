// W01, formatters: S02's exploration with the code Microsoft's compiler sees.
#define W_MSVC
#include "win/env.h"
#include "S02.cpp"

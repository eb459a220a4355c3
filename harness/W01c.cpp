// W01, case and prefix helpers: S04's exploration with the code Microsoft's compiler sees.
#define W_MSVC
#include "win/env.h"
#include "S04.cpp"

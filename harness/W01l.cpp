// W01, bit operations: N02's exploration with GCC or clang for 64-bit Windows, where a long has only 32 bits.
#include "win/env.h"
#undef __LP64__
#undef _LP64
#include "N02.cpp"

// U01 on macOS.
#define U_MAC 1
#include "U01.cpp"

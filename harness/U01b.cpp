// U01 on FreeBSD.
#define U_BSD 1
#include "U01.cpp"

// N03 with the STL's version of what an intrinsic does (README, "Compile-Time Options").
#define KE_ALLOW_STD_CXX
#include "N03.cpp"

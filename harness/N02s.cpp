#define SWEEP 1
#include "N02.cpp"

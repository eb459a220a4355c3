#define SWEEP 1
#include "N01.cpp"

#define SWEEP 1
#include "N04.cpp"

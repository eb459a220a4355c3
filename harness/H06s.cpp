#define SWEEP 1
#include "H06.cpp"

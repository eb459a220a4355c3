#define OVERRIDE 1
#include "N06.cpp"

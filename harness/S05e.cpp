#define ERRORS 1
#include "S05.cpp"

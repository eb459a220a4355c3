#define REAL 1
#include "O01.cpp"

#define STATICS 1
#include "A02.cpp"

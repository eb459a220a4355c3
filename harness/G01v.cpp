// G01 built with default visibility: what is private stays private.
#define DEFAULT_VISIBILITY 1
#include "G01.cpp"

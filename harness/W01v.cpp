// W01, the operating system as Microsoft's compiler sees it.
#define W_MSVC
#include "W01.cpp"

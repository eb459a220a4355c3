// The second translation unit of G01.
#include "G01.h"
KE_LINKONCE(int g01_ordinary_first) = 1000;     // loses against the ordinary definition in G01.cpp
int g01_ordinary_second = 22;
extern "C" {
KE_DLL_EXPORT int g01_exported(int x) { return x + 1; }
KE_DLL_PRIVATE int g01_private(int x) { return x + 2; }
int g01_plain(int x) { return x + 3; }
KE_DLL_EXPORT int g01_exported_too(int x) { return x + 4; }
KE_DLL_EXPORT int g01_exported_data = 5;
KE_DLL_PRIVATE int g01_private_data = 6;
}
int G01Exported::method(int x) { return x + 7; }
G01Exported::~G01Exported() {}
Unit other_unit() { return {&g01_shared, &g01_zero, &Holder::count, &g01_ordinary_first, &g01_ordinary_second, &Holder::text}; }
void set_from_other(int v) { g01_shared = v; g01_zero = v + 1; Holder::count = v + 2; }

// Shared by the two translation units of G01.
#include <amtl/am-assert.h>
#include <amtl/am-cxx.h>
#include <amtl/am-linking.h>
#include <amtl/am-unused.h>
#include <amtl/am-utility.h>

struct Holder { static int count; static const char* text; int own; };
KE_LINKONCE(int g01_shared) = 41;
KE_LINKONCE(int g01_zero);
KE_LINKONCE(int Holder::count) = 7;
KE_LINKONCE(const char* Holder::text) = "text";
extern int g01_ordinary_first, g01_ordinary_second;      // link-once in one unit, ordinary in the other

extern "C" {
KE_DLL_EXPORT int g01_exported(int x);
KE_DLL_PRIVATE int g01_private(int x);
int g01_plain(int x);
extern KE_DLL_EXPORT int g01_exported_data;
extern KE_DLL_PRIVATE int g01_private_data;
KE_DLL_IMPORT int g01_exported_too(int x);
}
class KE_DLL_EXPORT G01Exported { public: int method(int x); virtual ~G01Exported(); };
struct Unit { int *shared, *zero, *count, *first, *second; const char** text; };
Unit other_unit();
void set_from_other(int v);

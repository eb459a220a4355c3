// W01, floating point: N04's exploration with the code Microsoft's compiler sees, over an fmod() with the defects am-float.h
// ascribes to Windows.
#define W_MSVC
#include "win/env.h"
namespace std {
template <class T> T windows_fmod(T a, T b) {
    if (std::isinf(b)) return NAN;                          // 42 % Infinity
    T r = std::fmod(a, b);
    return r == 0 && a == 0 ? T(0) : r;                     // -0 % -N
}
}
using std::windows_fmod;
#define fmod windows_fmod
#define fmodf windows_fmod
#include <amtl/am-float.h>
#undef fmod
#undef fmodf
#include "N04.cpp"

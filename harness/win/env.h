// Makes the rest of the translation unit see the Windows branches of AMTL.  Everything else is included first.
// W_MSVC: also those for Microsoft's compiler and runtime (W_X86: its 32-bit flavour).
#pragma once
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <algorithm>
#include <atomic>
#include <cfloat>
#include <cmath>
#include <codecvt>
#include <functional>
#include <initializer_list>
#include <locale>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <map>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include <mc/core.h>
#include <mc/track.h>

#define _WIN32 1
#ifdef W_MSVC
#    define _MSC_VER 1930
#    ifdef W_X86
#        define _M_IX86 600
#    else
#        define _M_X64 100
#    endif
#    include <intrin.h>
#    pragma GCC diagnostic ignored "-Wunknown-pragmas"
#endif
#include <Windows.h>

#ifdef W_MSVC
// The intrinsics by their definitions; the index is left alone when there is no bit, as documented.
inline unsigned char _BitScanReverse64(unsigned long* index, uint64_t mask) {
    for (int k = 63; k >= 0; k--) if (mask >> k & 1) { *index = k; return 1; }
    return 0;
}
inline unsigned char _BitScanForward64(unsigned long* index, uint64_t mask) {
    for (int k = 0; k < 64; k++) if (mask >> k & 1) { *index = k; return 1; }
    return 0;
}
inline unsigned char _BitScanReverse(unsigned long* index, unsigned int mask) { return _BitScanReverse64(index, mask); }
inline unsigned char _BitScanForward(unsigned long* index, unsigned int mask) { return _BitScanForward64(index, mask); }
// As documented: no terminator unless there is room for it, -1 when the text does not fit and when formatting fails.
inline int _vsnprintf(char* buffer, size_t count, const char* fmt, va_list ap) {
    va_list again;
    va_copy(again, ap);
    int len = vsnprintf(nullptr, 0, fmt, ap);
    if (len >= 0) {
        std::string s(len + 1, '\0');
        vsnprintf(&s[0], len + 1, fmt, again);
        memcpy(buffer, s.data(), std::min<size_t>(count, len + 1));
    }
    va_end(again);
    return len >= 0 && size_t(len) > count ? -1 : len;
}
inline int _vscprintf(const char* fmt, va_list ap) { return vsnprintf(nullptr, 0, fmt, ap); }
inline int _strcmpi(const char* a, const char* b) { return strcasecmp(a, b); }
#endif

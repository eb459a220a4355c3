// Stand-ins for the intrinsics of Microsoft's compiler and the functions of its C runtime that AMTL uses.
#pragma once
#undef _vsnprintf      // the build system of the project defines these for other systems
#undef _strcmpi
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
unsigned char _BitScanReverse(unsigned long* index, unsigned int mask);
unsigned char _BitScanForward(unsigned long* index, unsigned int mask);
unsigned char _BitScanReverse64(unsigned long* index, uint64_t mask);
unsigned char _BitScanForward64(unsigned long* index, uint64_t mask);
int _vsnprintf(char* buffer, size_t count, const char* fmt, va_list ap);
int _vscprintf(const char* fmt, va_list ap);
int _strcmpi(const char* a, const char* b);
template <class T> inline int _isnan(T v) { return v != v ? 2 : 0; }     // documented as "nonzero"

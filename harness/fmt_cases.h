// Every formatting case is a call F(fmt, args...) through a macro, so that variadic and va_list forms see the same.
#pragma once
#include <limits.h>
#include <wchar.h>
#include <string>
namespace fc {
// Calls f(fmt, args...) for case number k; returns false when there is no such case.
template <class F> bool simple(int k, F&& f) {
    static const char* nine = "ninechars";
    switch (k) {
        case 0: f(""); return true;
        case 1: f("%s", ""); return true;
        case 2: f("a"); return true;
        case 3: f("ab"); return true;
        case 4: f("abc"); return true;
        case 5: f("%s", "x"); return true;
        case 6: f("%d", 0); return true;
        case 7: f("%d", -1); return true;
        case 8: f("%d", INT_MIN); return true;
        case 9: f("%u", UINT_MAX); return true;
        case 10: f("%%"); return true;
        case 11: f("100%% of %s", nine); return true;
        case 12: f("%5s|", "ab"); return true;
        case 13: f("%-5s|", "ab"); return true;
        case 14: f("%.2s", nine); return true;
        case 15: f("%s%s%s", nine, "", nine); return true;
        case 16: f("%lld %llu", LLONG_MIN, ULLONG_MAX); return true;
        case 17: f("%zu %p", size_t(1) << 63, (void*)0); return true;
        case 18: f("%x %X %o %#x", 0xbeefu, 0xbeefu, 8u, 255u); return true;
        case 19: f("%5.2f|%g|%e", 3.14159, 1e100, -0.0); return true;
        case 20: f("%*d|%-*d|%.*s", 6, 42, 6, 42, 3, nine); return true;
        case 21: f("%c", 'z'); return true;
        case 22: f("%s\n\t\x80\xff", "\xc3\xa9"); return true;
        case 23: f("%.0s", nine); return true;
        case 24: f("%1$s %2$d %1$s", nine, 7); return true;
        case 25: f("/a\\b\\\\c/%s", "d\\e/"); return true;
        case 26: f("%s\\", "\\\\"); return true;
        case 27: f("%hhd %hd %ld", 'a', 77, -5L); return true;
        case 28: f("%Lf", 1.5L); return true;
        case 29: f("%i %+d % d %05d", 1, 2, 3, 4); return true;
    }
    return false;
}
constexpr int kSimple = 30;
// The result contains NUL characters.
template <class F> bool nul(int k, F&& f) {
    switch (k) {
        case 0: f("%c", 0); return true;
        case 1: f("a%cb", 0); return true;
        case 2: f("%c%c", 0, 0); return true;
        case 3: f("abc%cdef%cghi%s", 0, 0, "jkl"); return true;
        case 4: f("%s%c", "tail", 0); return true;
    }
    return false;
}
constexpr int kNul = 5;
// The C library reports an error.
template <class F> bool bad(int k, F&& f) {
    static const wchar_t wide[] = {'o', 'k', wchar_t(0x20ac), 0};
    switch (k) {
        case 0: f("%lc", wint_t(0x20ac)); return true;             // no such character in the C locale
        case 1: f("abc%lc", wint_t(0x20ac)); return true;
        case 2: f("%ls", wide); return true;
        case 3: f("some text, then %s and %ls", "more", wide); return true;
    }
    return false;
}
constexpr int kBad = 4;
}  // namespace fc

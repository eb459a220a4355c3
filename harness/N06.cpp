// N06: the compatibility symbols for binaries built with finite-math headers compute what the C library computes.
#include <math.h>
#include <stdint.h>
#include <string.h>
#include "bits_common.h"

extern "C" {
double __pow_finite(double, double);
double __atan2_finite(double, double);
double __log_finite(double);
double __acos_finite(double);
double __asin_finite(double);
float __powf_finite(float, float);
float __atan2f_finite(float, float);
float __logf_finite(float);
float __acosf_finite(float);
float __asinf_finite(float);
}
#ifdef OVERRIDE
// A program that brings its own: the compatibility symbols must give way.
extern "C" double __log_finite(double) { return 42; }
extern "C" float __acosf_finite(float) { return 43; }
#endif

namespace {
template <class T> struct Of;
template <> struct Of<float> { typedef uint32_t B; static constexpr B inf = 0x7f800000u; static constexpr int mant = 23; };
template <> struct Of<double> { typedef uint64_t B; static constexpr B inf = 0x7ff0000000000000ULL; static constexpr int mant = 52; };
template <class T> std::vector<T> values(int step) {        // every class, sign and step-th exponent
    typedef typename Of<T>::B B;
    std::vector<T> v;
    auto put = [&](B b) { for (int s = 0; s < 2; s++) { B x = b | B(s) << (sizeof(B) * 8 - 1); T t; memcpy(&t, &x, sizeof t); v.push_back(t); } };
    B one = B(1) << Of<T>::mant;
    for (B b : {B(0), B(1), one - 1, one, Of<T>::inf - 1, Of<T>::inf, Of<T>::inf | one >> 1}) put(b);
    B bias = (Of<T>::inf >> Of<T>::mant) / 2;
    for (B e = 1; e < Of<T>::inf >> Of<T>::mant; e++)
        if (e % step == 0 || (e + 4 > bias && e < bias + 6)) for (B m : {B(0), B(1), one / 2, one - 1, one / 3}) put(e << Of<T>::mant | m);
    for (double d = 0; d < 1.05; d += 0.01) { v.push_back(T(d)); v.push_back(T(-d)); }
    for (double d = 2; d < 40; d++) { v.push_back(T(d)); v.push_back(T(-d)); }
    return v;
}
template <class T> void same(const char* f, T a, T b, T got, T want) {
    if (memcmp(&got, &want, sizeof got) && !(isnan(got) && isnan(want))) mc::fail("%s(%.17g, %.17g) is %.17g, not %.17g", f, double(a), double(b), double(got), double(want));
}
#ifndef OVERRIDE
template <class T> void unary(const char* f, T (*got)(T), T (*want)(T)) {
    auto v = values<T>(1);
    for (T x : v) same(f, x, T(0), got(x), want(x));
    mc::evaluations(v.size());
    mc::op("%s of %zu values", f, v.size());
}
template <class T> void binary(const char* f, T (*got)(T, T), T (*want)(T, T)) {
    auto v = values<T>(mc::thorough() ? 1 : sizeof(T) == 4 ? 3 : 29);
    uint64_t lo, hi;
    mc::slice(v.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) for (T y : v) same(f, v[k], y, got(v[k], y), want(v[k], y));
    mc::evaluations((hi - lo) * v.size());
    mc::op("%s of %zu^2 pairs", f, v.size());
}
#endif
}  // namespace

void mc_register() {
#ifdef OVERRIDE
    mc::add("override", [] {
        auto v = values<double>(1);
        for (double x : v) { same("own __log_finite", x, 0.0, __log_finite(x), 42.0); same("own __acosf_finite", float(x), 0.f, __acosf_finite(float(x)), 43.f); same("__asin_finite", x, 0.0, __asin_finite(x), ::asin(x)); }
        mc::evaluations(3 * v.size());
        mc::op("a program with its own definitions");
    }, 0, 0);
#else
    mc::add("log", [] { unary<double>("log", __log_finite, ::log); unary<float>("logf", __logf_finite, ::logf); }, 0, 0);
    mc::add("acos", [] { unary<double>("acos", __acos_finite, ::acos); unary<float>("acosf", __acosf_finite, ::acosf); }, 0, 0);
    mc::add("asin", [] { unary<double>("asin", __asin_finite, ::asin); unary<float>("asinf", __asinf_finite, ::asinf); }, 0, 0);
    mc::add("pow", [] { binary<double>("pow", __pow_finite, ::pow); }, 0, -1);
    mc::add("powf", [] { binary<float>("powf", __powf_finite, ::powf); }, 0, -1);
    mc::add("atan2", [] { binary<double>("atan2", __atan2_finite, ::atan2); }, 0, -1);
    mc::add("atan2f", [] { binary<float>("atan2f", __atan2f_finite, ::atan2f); }, 0, -1);
#endif
}

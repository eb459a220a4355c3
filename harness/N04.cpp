// N04: float classification and modulo.
#include <math.h>
#include <stdint.h>
#include <string.h>
#include <amtl/am-float.h>
#include "bits_common.h"

namespace {
template <class T, class B> T from(B b) { T t; static_assert(sizeof t == sizeof b); memcpy(&t, &b, sizeof t); return t; }
template <class B, class T> B to(T t) { B b; memcpy(&b, &t, sizeof b); return b; }
template <class T> struct Of;
template <> struct Of<float> { typedef uint32_t B; static constexpr B inf = 0x7f800000u, sign = 1u << 31; static constexpr int mant = 23, bits = 32; };
template <> struct Of<double> { typedef uint64_t B; static constexpr B inf = 0x7ff0000000000000ULL, sign = 1ULL << 63; static constexpr int mant = 52, bits = 64; };

// Classification is defined on the IEEE bit image.
template <class T> inline void classify(typename Of<T>::B b) {
    typedef Of<T> O;
    T v = from<T>(b);
    bool inf = (b & ~O::sign) == O::inf, nan = (b & ~O::sign) > O::inf;
    if (ke::IsInfinite(v) != inf) mc::fail("IsInfinite of the %d-bit pattern %#llx is %d", O::bits, (unsigned long long)b, !inf);
    if (ke::IsNaN(v) != nan) mc::fail("IsNaN of the %d-bit pattern %#llx is %d", O::bits, (unsigned long long)b, !nan);
}
template <class T> std::vector<typename Of<T>::B> shapes() {   // every exponent x mantissa shape x sign
    typedef Of<T> O;
    typedef typename O::B B;
    std::vector<B> m{0};
    for (int i = 0; i < O::mant; i++) {
        m.push_back(B(1) << i);
        m.push_back((B(1) << (i + 1)) - 1);
        m.push_back(((B(1) << O::mant) - 1) & ~((B(1) << i) - 1));
        m.push_back(((B(1) << O::mant) - 1) & ~(B(1) << i));
        for (int j = 0; j < i; j += 3) m.push_back(B(1) << i | B(1) << j);
    }
    std::sort(m.begin(), m.end());
    m.erase(std::unique(m.begin(), m.end()), m.end());
    std::vector<B> v;
    for (B e = 0; e <= O::inf; e += B(1) << O::mant) for (B x : m) { v.push_back(e | x); v.push_back(O::sign | e | x); }
    return v;
}
template <class T> void classes() {
    auto v = shapes<T>();
    uint64_t lo, hi;
    mc::slice(v.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) classify<T>(v[k]);
    mc::evaluations(hi - lo);
    mc::op("%zu patterns of %zu bytes", v.size(), sizeof(T));
}
[[maybe_unused]] void all_floats() {
    uint64_t lo, hi;
    mc::slice(1ULL << 32, &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) classify<float>(uint32_t(k));
    mc::evaluations(hi - lo);
    mc::op("every float");
}
// Values of every class, both signs.
template <class T> std::vector<T> values() {
    typedef Of<T> O;
    typedef typename O::B B;
    std::vector<B> b;
    auto put = [&](B x) { b.push_back(x); b.push_back(x | O::sign); };
    put(0); put(O::inf); put(O::inf - 1); put(O::inf + 1); put(O::inf | B(1) << (O::mant - 1)); put(O::sign - 1);
    for (B x : {B(1), B(2), B(3), (B(1) << O::mant) - 1, B(1) << O::mant, (B(1) << O::mant) + 1, B(5) << (O::mant - 3)}) put(x);
    B step = (B(1) << O::mant) * (mc::thorough() ? 1 : O::bits == 32 ? 4 : 23);
    for (B e = 0; e < O::inf; e += step) for (B x : {B(0), B(1), (B(1) << O::mant) - 1, B(0xb504f) << (O::mant - 20)}) put(e | x);
    for (double d = 0.25; d < 70; d += d < 8 ? 0.25 : 3.5) put(to<B>(T(d)));
    for (double d : {0.1, 1.0 / 3, 3.14159265358979, 42.0, 1e10, 1e-10}) put(to<B>(T(d)));
    std::vector<T> v;
    for (B x : b) v.push_back(from<T>(x));
    return v;
}
// The definition: for finite a and finite non-zero b, r = a - n*b exactly for an integer n, |r| < |b|, sign of a.
// fmod is exact, so the wider computation (for float) and the C library (for double) agree bit for bit.
float reference(float a, float b) { return float(::fmodl((long double)a, (long double)b)); }
double reference(double a, double b) { return double(::fmodl((long double)a, (long double)b)); }
template <class T> void modulo() {
    typedef Of<T> O;
    typedef typename O::B B;
    auto v = values<T>();
    uint64_t lo, hi;
    mc::slice(v.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++)
        for (T b : v) {
            T a = v[k], r = ke::FloatModulo(a, b);
            bool bad = isnan(a) || isnan(b) || isinf(a) || b == 0;
            const char* why = nullptr;
            if (bad) { if (!isnan(r)) why = "should be NaN"; }
            else if (isinf(b)) { if (to<B>(r) != to<B>(a)) why = "finite modulo infinity is the dividend"; }
            else if (a == 0) { if (to<B>(r) != to<B>(a)) why = "zero keeps its sign"; }
            else {
                if (to<B>(r) != to<B>(reference(a, b))) why = "not the C library remainder";
                else if (!(fabs(r) < fabs(b)) || !(fabs(r) <= fabs(a)) || signbit(r) != signbit(a)) why = "out of range or wrong sign";
            }
            if (why) mc::fail("FloatModulo(%.20g, %.20g) of %d bits is %.20g: %s", double(a), double(b), O::bits, double(r), why);
        }
    mc::evaluations((hi - lo) * v.size());
    mc::op("modulo of %zu values of %zu bytes", v.size(), sizeof(T));
}
}  // namespace

void mc_register() {
#ifdef SWEEP
    mc::add("all-floats", all_floats, 0, -1);
#else
    mc::add("float-classes", classes<float>, 0, -1);
    mc::add("double-classes", classes<double>, 0, -1);
    mc::add("float-modulo", modulo<float>, 0, -1);
    mc::add("double-modulo", modulo<double>, 0, -1);
#endif
}

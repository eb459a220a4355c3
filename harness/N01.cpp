// N01: overflow detectors are exact.
#include <stdint.h>
#include <amtl/am-arithmetic.h>
#include <amtl/am-bits.h>
#include "bits_common.h"

namespace {
typedef unsigned __int128 Wide;
#define V(x) (unsigned long long)(x)

template <class T> void predicates(T a, T b) {
    Wide max = Wide(T(~T(0)));
    bool add = Wide(a) + b <= max, mul = Wide(a) * b <= max;
    if (ke::IsUintAddSafe<T>(a, b) != add) mc::fail("IsUintAddSafe(%llu, %llu) of %zu bytes says %s", V(a), V(b), sizeof(T), add ? "unsafe" : "safe");
    if (ke::IsUintMultiplySafe<T>(a, b) != mul) mc::fail("IsUintMultiplySafe(%llu, %llu) of %zu bytes says %s", V(a), V(b), sizeof(T), mul ? "unsafe" : "safe");
}
void pair32(uint32_t a, uint32_t b) {
    predicates<uint32_t>(a, b);
    bool add = uint64_t(a) + b <= UINT32_MAX, mul = uint64_t(a) * b <= UINT32_MAX;
    if (ke::IsUint32AddSafe(a, b) != add) mc::fail("IsUint32AddSafe(%u, %u) is %d", a, b, !add);
    if (ke::IsUint32MultiplySafe(a, b) != mul) mc::fail("IsUint32MultiplySafe(%u, %u) is %d", a, b, !mul);
    for (uint32_t init : {0xdeadbeefu, 0u}) {
        uint32_t out = init;
        bool r = ke::TryUint32Add(a, b, &out);
        if (r != add || out != (add ? a + b : init)) mc::fail("TryUint32Add(%u, %u) is %d and leaves %u", a, b, r, out);
    }
    uint32_t s = a;     // the output may be one of the operands
    if (ke::TryUint32Add(s, b, &s) != add || s != (add ? a + b : a)) mc::fail("TryUint32Add(%u, %u) into its operand leaves %u", a, b, s);
}
void pair64(uint64_t a, uint64_t b) {
    predicates<uint64_t>(a, b);
    Wide p = Wide(a) * b;
    bool add = Wide(a) + b <= UINT64_MAX, mul = p <= UINT64_MAX;
    if (ke::IsUint64AddSafe(a, b) != add || ke::IsUintPtrAddSafe(a, b) != add) mc::fail("IsUint64AddSafe/IsUintPtrAddSafe(%llu, %llu) is %d", V(a), V(b), !add);
    if (ke::IsUint64MultiplySafe(a, b) != mul || ke::IsUintPtrMultiplySafe(a, b) != mul) mc::fail("IsUint64MultiplySafe/IsUintPtrMultiplySafe(%llu, %llu) is %d", V(a), V(b), !mul);
    for (uint64_t init : {0xdeadbeefdeadbeefULL, 0ULL}) {
        uint64_t out = init;
        bool r = ke::TryUint64Add(a, b, &out);
        if (r != add || out != (add ? a + b : init)) mc::fail("TryUint64Add(%llu, %llu) is %d and leaves %llu", V(a), V(b), r, V(out));
        out = init;
        r = ke::TryUint64Multiply(a, b, &out);
        if (r != mul || out != (mul ? uint64_t(p) : init)) mc::fail("TryUint64Multiply(%llu, %llu) is %d and leaves %llu", V(a), V(b), r, V(out));
    }
    uint64_t s = a;
    if (ke::TryUint64Multiply(s, b, &s) != mul || s != (mul ? uint64_t(p) : a)) mc::fail("TryUint64Multiply(%llu, %llu) into its operand leaves %llu", V(a), V(b), V(s));
    s = b;
    if (ke::TryUint64Add(a, s, &s) != add || s != (add ? a + b : b)) mc::fail("TryUint64Add(%llu, %llu) into its operand leaves %llu", V(a), V(b), V(s));
}
template <class T, class F> void sweep(const char* name, F f) {
    auto v = bc::patterns<T>(mc::thorough() ? 400 : 64);
    uint64_t lo, hi, n = 0;
    mc::slice(v.size(), &lo, &hi);
    const uint64_t max = T(~T(0));
    for (uint64_t i = lo; i < hi; i++) {
        T a = v[i];
        for (T b : v) { f(a, b); n++; }
        for (int d = -4; d <= 4; d++) {     // the exact boundaries for this operand
            uint64_t c = max - a + d, q = (a ? max / a : max) + d;
            if (c <= max) { f(a, T(c)); f(T(c), a); n += 2; }
            if (q <= max) { f(a, T(q)); f(T(q), a); n += 2; }
        }
        mc::state(mc::mix(sizeof(T), a));
    }
    mc::evaluations(n);
    mc::op("%s", name);
}
[[maybe_unused]] void pairs32() { sweep<uint32_t>("pairs32", pair32); }
[[maybe_unused]] void pairs64() { sweep<uint64_t>("pairs64", pair64); }
template <class T> void narrow() {          // all pairs of a narrow type, and of 32-bit values below it and just below 2^32
    uint64_t lo, hi, n = 0, size = uint64_t(T(~T(0))) + 1, step = 1;
    mc::slice(size, &lo, &hi);
    for (uint64_t a = lo; a < hi; a++) {
        for (uint64_t b = 0; b < size; b += step) predicates<T>(T(a), T(b));
        n += size / step;
    }
    mc::evaluations(n);
    mc::op("all pairs of %zu bytes", sizeof(T));
}
[[maybe_unused]] void dense32() {
    uint64_t lo, hi, n = 0;
    const uint32_t span = mc::thorough() ? 20000 : 4000;
    mc::slice(span, &lo, &hi);
    for (uint32_t i = lo; i < hi; i++)
        for (uint32_t j = 0; j < span; j++) {
            pair32(i, ~j);                              // around the addition boundary
            pair32(65536 + i - span / 2, 65536 + j - span / 2);      // around the square root
            pair64((1ULL << 32) + i - span / 2, (1ULL << 32) + j - span / 2);
            pair64(i, ~uint64_t(j));
            n += 4;
        }
    mc::evaluations(n);
    mc::op("dense neighbourhoods");
}
}  // namespace

void mc_register() {
#ifdef SWEEP
    mc::add("all16", narrow<uint16_t>, 0, -1);
    mc::add("dense", dense32, 0, -1);
#else
    mc::add("all8", narrow<uint8_t>, 0, -1);
    mc::add("pairs32", pairs32, 0, -1);
    mc::add("pairs64", pairs64, 0, -1);
#endif
}

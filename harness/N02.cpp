// N02: bit scans, alignment, pointer tags.
#include <stdint.h>
#include <string.h>
#include <amtl/am-bits.h>
#include <amtl/am-utility.h>
#include "bits_common.h"

namespace {
#define V(x) (unsigned long long)(x)
int msb(uint64_t x) { int k = -1; while (x) { x >>= 1; k++; } return k; }
int lsb(uint64_t x) { int k = 0; while (!(x & 1)) { x >>= 1; k++; } return k; }

inline void scans(uint64_t x, int hi, int lo) {
    if (x <= UINT32_MAX && ke::FindLeftmostBit32(uint32_t(x)) != uint32_t(hi)) mc::fail("FindLeftmostBit32(%#llx) is %u, not %d", V(x), ke::FindLeftmostBit32(uint32_t(x)), hi);
    if (ke::FindLeftmostBit64(x) != uint32_t(hi)) mc::fail("FindLeftmostBit64(%#llx) is %u, not %d", V(x), ke::FindLeftmostBit64(x), hi);
    if (ke::Log2(x) != size_t(hi)) mc::fail("Log2(%#llx) is %llu, not %d", V(x), V(ke::Log2(x)), hi);
    if (ke::FindRightmostBit(x) != size_t(lo)) mc::fail("FindRightmostBit(%#llx) is %llu, not %d", V(x), V(ke::FindRightmostBit(x)), lo);
    if (ke::IsPowerOfTwo(x) != (hi == lo)) mc::fail("IsPowerOfTwo(%#llx) is %d", V(x), hi != lo);
}
[[maybe_unused]] void sweep32() {           // every 32-bit value, alone and as the upper half of a word
    uint64_t lo, hi, n = 0;
    const uint64_t total = (1ULL << 32);
    mc::slice(total, &lo, &hi);
    if (!lo) lo = 1;
    for (uint64_t x = lo; x < hi; x++) {
        int h = 63, l = 0;
        uint64_t y = x;
        // reference: binary search by comparison (msb) and by masking (lsb)
        h = 0;
        if (y >> 16) { h += 16; y >>= 16; }
        if (y >> 8) { h += 8; y >>= 8; }
        if (y >> 4) { h += 4; y >>= 4; }
        if (y >> 2) { h += 2; y >>= 2; }
        if (y >> 1) h += 1;
        y = x;
        if (!(y & 0xffff)) { l += 16; y >>= 16; }
        if (!(y & 0xff)) { l += 8; y >>= 8; }
        if (!(y & 0xf)) { l += 4; y >>= 4; }
        if (!(y & 3)) { l += 2; y >>= 2; }
        if (!(y & 1)) l += 1;
        scans(x, h, l);
        scans(x << 32, h + 32, l + 32);
        n += 2;
    }
    mc::evaluations(n);
    mc::op("32-bit sweep");
}
[[maybe_unused]] void words() {
    auto v = bc::patterns<uint64_t>(2000);
    uint64_t lo, hi, n = 0;
    mc::slice(v.size(), &lo, &hi);
    for (uint64_t i = lo; i < hi; i++) {
        uint64_t x = v[i];
        if (!x) { if (ke::IsPowerOfTwo(0)) mc::fail("0 is called a power of two"); continue; }
        scans(x, msb(x), lsb(x));
        for (int s = 0; s < 64; s++) for (uint64_t y : std::initializer_list<uint64_t>{x ^ (1ULL << s), x >> s, x << s, x + (1ULL << s)}) if (y) { scans(y, msb(y), lsb(y)); n++; }
        n++;
        mc::state(x);
    }
    mc::evaluations(n);
    mc::op("64-bit patterns");
}
[[maybe_unused]] void align() {
    auto v = bc::patterns<uint64_t>(mc::thorough() ? 70000 : 5000);
    uint64_t lo, hi, n = 0;
    mc::slice(v.size(), &lo, &hi);
    for (uint64_t i = lo; i < hi; i++)
        for (int s = 0; s < 64; s++) {
            uint64_t c = v[i], a = 1ULL << s, rem = c & (a - 1);
            bool is = rem == 0;
            if (ke::IsAligned(c, a) != is) mc::fail("IsAligned(%#llx, %#llx) is %d", V(c), V(a), !is);
            if (ke::IsAligned((void*)c, a) != is || ke::IsAligned((const char*)c, a) != is) mc::fail("IsAligned(pointer %#llx, %#llx) is %d", V(c), V(a), !is);
            if (c <= UINT32_MAX && ke::IsAligned(uint32_t(c), a) != is) mc::fail("IsAligned(32-bit %#llx, %#llx) is %d", V(c), V(a), !is);
            if (ke::AlignedBase((void*)c, a) != (void*)(c - rem)) mc::fail("AlignedBase(%#llx, %#llx) is %p", V(c), V(a), ke::AlignedBase((void*)c, a));
            uint64_t up = rem ? c + (a - rem) : c;
            if (up >= c) {
                if (ke::Align(c, a) != up) mc::fail("Align(%#llx, %#llx) is %#llx, not %#llx", V(c), V(a), V(ke::Align(c, a)), V(up));
                if (!ke::IsAligned(ke::Align(c, a), a)) mc::fail("Align(%#llx, %#llx) is not aligned", V(c), V(a));
            }
            n++;
        }
    mc::evaluations(n);
    mc::op("alignment");
}
template <uintptr_t N> uint64_t tags(const std::vector<uint64_t>& v, uint64_t lo, uint64_t hi) {
    uint64_t n = 0;
    const uint64_t mask = (1ULL << N) - 1;
    for (uint64_t i = lo; i < hi; i++) {
        uint64_t base = v[i] & ~mask;
        for (uint64_t bits = 0; bits <= mask; bits += (mask > 255 && bits > 40 && bits < mask - 40) ? 37 : 1) {
            int* p = (int*)base;
            int* t = ke::SetPointerBits(p, bits);
            if ((uint64_t)t != (base | bits)) mc::fail("SetPointerBits(%p, %#llx) is %p", (void*)p, V(bits), (void*)t);
            if (ke::GetPointerBits<N>(t) != bits) mc::fail("GetPointerBits<%d>(%p) is %#llx", int(N), (void*)t, V(ke::GetPointerBits<N>(t)));
            if (ke::ClearPointerBits<N>(t) != p) mc::fail("ClearPointerBits<%d>(%p) is %p", int(N), (void*)t, (void*)ke::ClearPointerBits<N>(t));
            void* vp = ke::SetPointerBits((void*)base, bits);
            const char* cp = ke::SetPointerBits((const char*)base, bits);
            if (ke::ClearPointerBits<N>(vp) != (void*)base || ke::ClearPointerBits<N>(cp) != (const char*)base) mc::fail("ClearPointerBits<%d> of %p", int(N), vp);
            if (ke::SetPointerBits(t, bits) != t) mc::fail("setting bits that are set changed %p", (void*)t);
            n++;
        }
    }
    return n;
}
template <uintptr_t... N> uint64_t all_tags(std::integer_sequence<uintptr_t, N...>, const std::vector<uint64_t>& v, uint64_t lo, uint64_t hi) {
    return (tags<N>(v, lo, hi) + ...);
}
[[maybe_unused]] void pointers() {
    auto v = bc::patterns<uint64_t>(64);
    uint64_t lo, hi;
    mc::slice(v.size(), &lo, &hi);
    mc::evaluations(all_tags(std::make_integer_sequence<uintptr_t, 13>(), v, lo, hi));
    mc::op("pointer tags");
}
template <int N> struct Blob { unsigned char b[N]; };
template <int N> void zero() {
    struct { unsigned char before[8]; Blob<N> x; unsigned char after[8]; } w;
    for (int fill : {0, 1, 0x80, 0xff}) {
        memset(&w, fill, sizeof w);
        ke::MemsetZero(&w.x);
        for (size_t k = 0; k < sizeof w; k++) {
            size_t off = offsetof(decltype(w), x);
            if (((unsigned char*)&w)[k] != (k >= off && k < off + N ? 0 : fill)) mc::fail("MemsetZero of %d bytes: byte %d", N, int(k) - int(off));
        }
    }
    int a[N];
    if (ARRAY_LENGTH(a) != N || ARRAY_LENGTH(w.x.b) != N) mc::fail("ARRAY_LENGTH of %d elements", N);
    mc::evaluations(4);
}
template <int... N> void zeros(std::integer_sequence<int, N...>) { (zero<N + 1>(), ...); }
[[maybe_unused]] void utility() {
    zeros(std::make_integer_sequence<int, 70>());
    for (uint64_t p : bc::patterns<uint64_t>(64)) {
        for (int s = 0; s < 31; s++) if (IS_ALIGNED(p, 1ULL << s) != ((p & ((1ULL << s) - 1)) == 0)) mc::fail("IS_ALIGNED(%#llx, 2^%d)", V(p), s);
        if (ke::cast_to_pointer<uint64_t>::cast(p) != (void*)p || ke::cast_to_pointer<int*>::cast((int*)p) != (void*)p || ke::cast_to_pointer<int*>::cast((const int*)p) != (const void*)p) mc::fail("cast_to_pointer(%#llx)", V(p));
        if (ke::cast_to_pointer<uint32_t>::cast(uint32_t(p)) != (void*)uint64_t(uint32_t(p))) mc::fail("cast_to_pointer(32-bit %#llx)", V(p));
        if (!!KE_CRITICAL_LIKELY(p) != (p != 0)) mc::fail("KE_CRITICAL_LIKELY(%#llx)", V(p));
        mc::evaluations(1);
    }
    // the unit constants, and the alignment the library promises of dynamic memory
    if (ke::kKB != 1ULL << 10 || ke::kMB != 1ULL << 20 || ke::kGB != 1ULL << 30) mc::fail("a unit constant is not the power of 1024 it names");
    const size_t ma = ke::kMallocAlignment;
    if (!ma || (ma & (ma - 1)) || ma < alignof(std::max_align_t)) mc::fail("kMallocAlignment %llu cannot align every object", V(ma));
    for (size_t k = ma; k <= 8192; k++) {
        void* p = ::operator new(k);
        if (!ke::IsAligned(p, ma)) mc::fail("a block of %llu bytes is not aligned to kMallocAlignment %llu", V(k), V(ma));
        ::operator delete(p);
        mc::evaluations(1);
    }
    mc::op("utility");
}
}  // namespace

void mc_register() {
#ifdef SWEEP
    mc::add("sweep32", sweep32, 0, -1);
#else
    mc::add("words", words, 0, -1);
    mc::add("align", align, 0, -1);
    mc::add("pointers", pointers, 0, -1);
    mc::add("utility", utility, 0, 0);
#endif
}

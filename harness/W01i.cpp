// W01, bit scans as Microsoft's 32-bit compiler sees them.
#define W_MSVC
#define W_X86
#include "win/env.h"
#include <amtl/am-bits.h>
#include "bits_common.h"

namespace {
int msb(uint64_t x) { int k = -1; while (x) { x >>= 1; k++; } return k; }
void words() {
    auto v = bc::patterns<uint64_t>(2000);
    uint64_t lo, hi, n = 0;
    mc::slice(v.size(), &lo, &hi);
    for (uint64_t i = lo; i < hi; i++)
        for (int s = 0; s < 65; s++) {
            uint64_t x = s < 64 ? v[i] ^ (1ULL << s) : v[i];
            if (!x) continue;
            uint32_t h = uint32_t(msb(x)), w = uint32_t(x);
            if (ke::FindLeftmostBit64(x) != h || ke::Log2<uint64_t>(x) != h) mc::fail("leftmost bit of %#llx: %u, %u", (unsigned long long)x, ke::FindLeftmostBit64(x), ke::Log2<uint64_t>(x));
            if (w && (ke::FindLeftmostBit32(w) != uint32_t(msb(w)) || ke::Log2<uint32_t>(w) != uint32_t(msb(w)))) mc::fail("leftmost bit of %#x", w);
            if (w && ke::FindRightmostBit(w) != size_t(msb(w & -w))) mc::fail("rightmost bit of %#x", w);
            n++;
        }
    mc::evaluations(n);
    mc::op("64-bit patterns");
}
}  // namespace
void mc_register() { mc::add("words", words, 0, -1); }

// N03: flag sets and enum operators obey set algebra.
#include <stdint.h>
#include <type_traits>
#include <amtl/am-enum.h>
#include <amtl/am-flags.h>
#include "bits_common.h"

namespace {
#define ENUM(name, type)                    \
    enum class name : type { zero = 0, one = 1 }; \
    KE_DEFINE_ENUM_OPERATORS(name)          \
    KE_DEFINE_ENUM_COMPARATORS(name, type)
ENUM(EU8, uint8_t)
ENUM(ES8, int8_t)
ENUM(EU16, uint16_t)
ENUM(ES16, int16_t)
ENUM(EU32, uint32_t)
ENUM(ES32, int32_t)
ENUM(EU64, uint64_t)
ENUM(ES64, int64_t)
// unscoped, and without operators: flag sets need none
enum Plain8 : uint8_t { plain_zero };
enum class Bare16 : uint16_t {};
enum class Bare64 : int64_t {};

template <class E> void flags_pair(std::underlying_type_t<E> a, std::underlying_type_t<E> b) {
    using I = std::underlying_type_t<E>;
    using F = ke::Flags<E>;
    static_assert(std::is_same_v<typename F::IntType, I>);
    const E ea = E(a), eb = E(b);
    const F fa(ea), fb = eb;
    auto is = [&](const F& f, I want, const char* what) {
        if (f.bits() != want || f.get() != E(want)) mc::fail("%s of %lld and %lld gives %lld", what, (long long)a, (long long)b, (long long)f.bits());
    };
    const I un = I(a | b), in = I(a & b), df = I(a & ~b), sx = I(a ^ b);
    is(fa, a, "construction");
    is(F(fa), a, "copying");
    is(fa + fb, un, "+"); is(fa | fb, un, "|"); is(fa & fb, in, "&"); is(fa - fb, df, "-"); is(fa ^ fb, sx, "^");
    is(fa + eb, un, "+ enumerator"); is(fa | eb, un, "| enumerator"); is(fa & eb, in, "& enumerator"); is(fa - eb, df, "- enumerator"); is(fa ^ eb, sx, "^ enumerator");
    is(fa, a, "operators leave the left operand"); is(fb, b, "operators leave the right operand");
    F c(fa);
    auto step = [&](F& r, I want, const char* what) { if (&r != &c) mc::fail("%s does not return its left operand", what); is(c, want, what); c = fa; is(c, a, "assignment"); };
    step(c += fb, un, "+="); step(c |= fb, un, "|="); step(c &= fb, in, "&="); step(c -= fb, df, "-="); step(c ^= fb, sx, "^=");
    step(c += eb, un, "+= enumerator"); step(c |= eb, un, "|= enumerator"); step(c &= eb, in, "&= enumerator"); step(c -= eb, df, "-= enumerator"); step(c ^= eb, sx, "^= enumerator");
    step(c = fb, b, "="); step(c = eb, b, "= enumerator");
    step(c += c, a, "self +="); step(c |= c, a, "self |="); step(c &= c, a, "self &="); step(c -= c, I(0), "self -="); step(c ^= c, I(0), "self ^="); step(c = *&c, a, "self =");
    if ((fa == fb) != (a == b) || (fa != fb) != (a != b) || (fa == eb) != (a == b) || (fa != eb) != (a != b)) mc::fail("comparison of %lld and %lld", (long long)a, (long long)b);
    if (bool(fa) != (a != 0) || !fa != (a == 0)) mc::fail("emptiness of %lld", (long long)a);
}
template <class E> void enum_pair(std::underlying_type_t<E> a, std::underlying_type_t<E> b) {
    using I = std::underlying_type_t<E>;
    static_assert(std::is_same_v<typename ke::enum_integral_type<E>::type, I>);
    const E ea = E(a), eb = E(b);
    static_assert(std::is_same_v<decltype(ea | eb), E> && std::is_same_v<decltype(ea & eb), E> && std::is_same_v<decltype(ea ^ eb), E> && std::is_same_v<decltype(~ea), E>);
    auto is = [&](E e, I want, const char* what) { if (I(e) != want) mc::fail("enum %s of %lld and %lld gives %lld", what, (long long)a, (long long)b, (long long)I(e)); };
    is(ea | eb, I(a | b), "|"); is(ea & eb, I(a & b), "&"); is(ea ^ eb, I(a ^ b), "^"); is(~ea, I(~a), "~");
    E c = ea;
    auto step = [&](E& r, I want, const char* what) { if (&r != &c) mc::fail("enum %s does not return its left operand", what); is(c, want, what); c = ea; };
    step(c |= eb, I(a | b), "|="); step(c &= eb, I(a & b), "&="); step(c ^= eb, I(a ^ b), "^=");
    step(c |= c, a, "self |="); step(c &= c, a, "self &="); step(c ^= c, I(0), "self ^=");
    if (!ea != (a == 0)) mc::fail("enum ! of %lld", (long long)a);
    if ((ea == b) != (a == b) || (b == ea) != (a == b) || (ea != b) != (a != b) || (b != ea) != (a != b)) mc::fail("enum comparison of %lld and %lld", (long long)a, (long long)b);
}
template <class E, bool Ops = true> void check(int small) {
    using I = std::underlying_type_t<E>;
    auto v = bc::patterns<std::make_unsigned_t<I>>(small);
    if (ke::Flags<E>().bits() != 0 || ke::Flags<E>()) mc::fail("a default flag set is not empty");
    uint64_t lo, hi;
    mc::slice(v.size(), &lo, &hi);
    for (uint64_t i = lo; i < hi; i++)
        for (auto y : v) {
            flags_pair<E>(I(v[i]), I(y));
            if constexpr (Ops) enum_pair<E>(I(v[i]), I(y));
            mc::evaluations(1);
        }
    mc::op("%zu patterns of %zu bytes", v.size(), sizeof(E));
}
template <class E> void histories() {      // compound forms composed in any order, over three sets
    using F = ke::Flags<E>;
    using I = std::underlying_type_t<E>;
    F s[3];
    I m[3] = {0, 0, 0};
    s[1] = E(I(0x53)); m[1] = I(0x53);
    s[2] = E(I(~I(0x19))); m[2] = I(~I(0x19));
    for (int d = 0; d < (mc::thorough() ? 4 : 3); d++) {
        int k = mc::choose(18), t = k % 3, u = (t + 1 + (k / 3) % 2) % 3, o = mc::choose(6);
        if (k / 6 == 2) u = t;
        mc::op("s%d %c= s%d", t, "+|&-^ "[o], u);
        F* r = nullptr;
        switch (o) {
            case 0: r = &(s[t] += s[u]); m[t] = I(m[t] | m[u]); break;
            case 1: r = &(s[t] |= s[u]); m[t] = I(m[t] | m[u]); break;
            case 2: r = &(s[t] &= s[u]); m[t] = I(m[t] & m[u]); break;
            case 3: r = &(s[t] -= s[u]); m[t] = I(m[t] & ~m[u]); break;
            case 4: r = &(s[t] ^= s[u]); m[t] = I(m[t] ^ m[u]); break;
            case 5: r = &(s[t] = s[u]); m[t] = m[u]; break;
        }
        if (r != &s[t]) mc::fail("wrong reference returned");
        uint64_t h = 0;
        for (int j = 0; j < 3; j++) { if (s[j].bits() != m[j]) mc::fail("set %d is %lld, not %lld", j, (long long)s[j].bits(), (long long)m[j]); h = mc::mix(h, uint64_t(m[j])); }
        mc::state(h);
    }
}
}  // namespace

void mc_register() {
    mc::add("u8", [] { check<EU8>(300); }, 0, -1);       // every pair of 8-bit values
    mc::add("s8", [] { check<ES8>(300); }, 0, -1);
    mc::add("plain8", [] { check<Plain8, false>(300); }, 0, -1);
    const int n = mc::thorough() ? 300 : 16;
    mc::add("u16", [n] { check<EU16>(n); }, 0, -1);
    mc::add("s16", [n] { check<ES16>(n); }, 0, -1);
    mc::add("bare16", [n] { check<Bare16, false>(n); }, 0, -1);
    mc::add("u32", [n] { check<EU32>(n); }, 0, -1);
    mc::add("s32", [n] { check<ES32>(n); }, 0, -1);
    mc::add("u64", [n] { check<EU64>(n); }, 0, -1);
    mc::add("s64", [n] { check<ES64>(n); }, 0, -1);
    mc::add("bare64", [n] { check<Bare64, false>(n); }, 0, -1);
    mc::add("histories", histories<ES8>, 0, 2);
}

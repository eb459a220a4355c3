// H06: hash helpers are pure functions of content, however it is fed.
#include <string>
#include <vector>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashtable.h>
#include <mc/core.h>
#include "roomy.h"

namespace {
// Reference algorithms, in unsigned arithmetic with the sign extension of the platform's char and int32_t made explicit.
uint32_t ref_oaat(const std::string& s) {
    uint32_t h = 0;
    for (char ch : s) { h += uint32_t(int32_t(ch)); h += h << 10; h ^= h >> 6; }
    h += h << 3; h ^= h >> 11; h += h << 15;
    return h;
}
uint32_t ref_sdbm(const std::string& s) {
    uint32_t h = 0;
    for (char ch : s) h = uint32_t(int32_t(ch)) + h * 65599u;
    return h;
}
uint32_t sar(uint32_t v, int n) { return (v >> n) | ((v & 0x80000000u) ? ~(0xffffffffu >> n) : 0); }
uint32_t ref_int32(uint32_t a) {
    a = (a ^ 61) ^ sar(a, 16);
    a = a * 9u;
    a = a ^ sar(a, 4);
    a = a * 0x27d4eb2du;
    a = a ^ sar(a, 15);
    return a;
}
uint32_t ref_int64(uint64_t k) {
    k = ~k + (k << 18);
    k ^= k >> 31;
    k *= 21;
    k ^= k >> 11;
    k *= 65;
    k ^= k >> 22;
    return uint32_t(k);
}
uint32_t ref_combine(uint32_t a, uint32_t b) { return a ^ (b + 0x9e3779b9u + (a << 6) + (b >> 2)); }

// Exactly these bytes on the heap, so that reading past them is caught.
struct Exact {
    char* p;
    explicit Exact(const std::string& s) : p((char*)malloc(s.size() ? s.size() : 1)) { memcpy(p, s.data(), s.size()); }
    ~Exact() { free(p); }
};
void check_string(const std::string& s) {
    uint32_t want = ref_oaat(s), want2 = ref_sdbm(s);
    Exact e(s);
    const char* p = e.p + (s.empty() ? 1 : 0);   // an empty sequence may point anywhere
    uint32_t got = ke::HashCharSequence(p, s.size());
    MC_CHECK(got == want, "HashCharSequence of %zu bytes is %08x, expected %08x", s.size(), got, want);
    got = ke::FastHashCharSequence(p, s.size());
    MC_CHECK(got == want2, "FastHashCharSequence of %zu bytes is %08x, expected %08x", s.size(), got, want2);
    if (s.size() <= 16) {   // the bytes around it do not matter, nor does alignment
        std::string pad = "\xff\x01" + s + "\x02\xfe";
        pad.insert(0, s.size() % 3, 'q');
        const char* q = pad.data() + 2 + s.size() % 3;
        MC_CHECK(ke::HashCharSequence(q, s.size()) == want && ke::FastHashCharSequence(q, s.size()) == want2, "hash depends on surrounding bytes");
    }
    mc::evaluations(1);
}
void check_splits(const std::string& s) {
    uint32_t want = ref_oaat(s);
    Exact e(s);
    size_t n = s.size();
    for (unsigned cut = 0; cut < (n ? 1u << (n - 1) : 1u); cut++)
        for (int mode = 0; mode < 4; mode++) {
            ke::CharacterStreamHasher h, other;
            if (mode & 1) h.add(e.p, 0);
            size_t from = 0;
            for (size_t k = 1; k <= n; k++) {
                if (k < n && !(cut >> (k - 1) & 1)) continue;
                if (k - from == 1 && (mode & 2)) h.add(e.p[from]);
                else h.add(e.p + from, k - from);
                if (mode & 1) { h.add(e.p + k, 0); other.add('z'); other.add("noise", 5); }
                from = k;
            }
            uint32_t got = h.result();
            MC_CHECK(got == want, "%zu bytes in pieces (cut pattern %x, mode %d) hash to %08x, in one piece %08x", n, cut, mode, got, want);
        }
    mc::evaluations(1);
}
void strings() {
    static const unsigned char alpha[] = {0, 1, 'a', 0x7f, 0x80, 0xff, 0x61 + 0x80};
    int len = mc::choose(mc::thorough() ? 8 : 7);
    std::string s;
    for (int k = 0; k < len; k++) s += char(alpha[mc::choose(len > 5 ? 3 : 7) * (len > 5 ? 2 : 1) % 7]);
    mc::op("%d bytes", len);
    check_string(s);
    check_splits(s);
    mc::state(mc::hash_str(s, len));
    mc::observe(ref_oaat(s));
}
// All pairs of bytes; long runs; every length.
void bytes() {
    uint64_t lo, hi;
    mc::slice(65536, &lo, &hi);
    for (uint64_t v = lo; v < hi; v++) {
        std::string s{char(v & 255), char(v >> 8)};
        check_string(s);
        check_splits(s);
        check_string("prefix" + s + s);
        ke::CharacterStreamHasher h;
        h.add(s[0]);
        h.add(s[1]);
        MC_CHECK(h.result() == ref_oaat(s), "character-wise hash");
    }
    mc::slice(600, &lo, &hi);
    for (uint64_t n = lo; n < hi; n++) {
        std::string s(n * 7 % 2003, char(n * 37));
        for (size_t k = 0; k < s.size(); k++) s[k] = char(k * 31 + n);
        check_string(s);
        for (size_t cut = 0; cut <= s.size(); cut += 1 + s.size() / 9) {
            ke::CharacterStreamHasher h;
            h.add(s.data(), cut);
            h.add(s.data() + cut, s.size() - cut);
            MC_CHECK(h.result() == ref_oaat(s), "split at %zu of %zu", cut, s.size());
        }
    }
    mc::op("bytes");
}
const std::vector<uint64_t>& patterns64() {
    static std::vector<uint64_t> p;
    if (p.empty()) {
        p = {0, ~0ull};
        for (int a = 0; a < 64; a++) {
            p.push_back(1ull << a);
            p.push_back(~(1ull << a));
            p.push_back((1ull << a) - 1);
            p.push_back(~0ull << a);
            for (int b = 0; b < a; b++) {
                p.push_back(1ull << a | 1ull << b);
                p.push_back(~(1ull << a | 1ull << b));
                p.push_back((1ull << a) - (1ull << b));
                for (int c = 0; c < b; c += 1) p.push_back(1ull << a | 1ull << b | 1ull << c);
            }
        }
    }
    return p;
}
void one64(uint64_t v) {
    uint32_t want = ref_int64(v);
    uint32_t got = ke::HashInt64(int64_t(v));
    if (got != want) mc::fail("HashInt64(%#llx) is %08x, expected %08x", (unsigned long long)v, got, want);
    if (ke::HashInteger<8>(uintptr_t(v)) != want) mc::fail("HashInteger<8>(%#llx)", (unsigned long long)v);
    if (ke::HashPointer((const void*)v) != want) mc::fail("HashPointer(%#llx) differs from hashing its integer value", (unsigned long long)v);
    if (ke::PointerPolicy<int>::hash((int*)v) != want) mc::fail("PointerPolicy::hash(%#llx)", (unsigned long long)v);
}
void int64s() {
    auto& p = patterns64();
    uint64_t lo, hi;
    mc::slice(p.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) one64(p[k]);
    mc::evaluations(hi - lo);
    // every 20-bit window at every multiple-of-4 position, over zeros and over ones
    mc::slice(1u << 20, &lo, &hi);
    for (uint64_t w = lo; w < hi; w++)
        for (int sh = 0; sh < 64; sh += 4) { one64(w << sh); one64(~(w << sh)); }
    mc::evaluations((hi - lo) * 32);
    mc::op("HashInt64 patterns");
}
void int32s() {
    uint64_t lo, hi;
    mc::slice(1ull << 32, &lo, &hi);
    for (uint64_t v = lo; v < hi; v++) {
        uint32_t got = ke::HashInt32(int32_t(uint32_t(v)));
        if (got != ref_int32(uint32_t(v))) mc::fail("HashInt32(%#x) is %08x, expected %08x", uint32_t(v), got, ref_int32(uint32_t(v)));
    }
    for (uint64_t v = lo; v < hi; v += 257)
        if (ke::HashInteger<4>(uintptr_t(v)) != ref_int32(uint32_t(v))) mc::fail("HashInteger<4>(%#x)", uint32_t(v));
    mc::evaluations(hi - lo);
    mc::op("every 32-bit integer");
}
// More than 2 or 4 GiB in one call.
void huge() {
    const int k = mc::choose(2);
    mc::op("%s of gigabytes", k ? "FastHashCharSequence" : "HashCharSequence");
    mc::state(k);
    HugeText text("some text, \x80\xff", k || mc::thorough() ? 1025 : 513);
    uint32_t want = 0, pieceful = 0, factor = 1;
    // the fast hash of a whole piece after h is factor * h + pieceful
    for (size_t i = 0; k && i < HugeText::kPiece; i++) { pieceful = uint32_t(int32_t(text.p[i])) + pieceful * 65599u; factor *= 65599u; }
    for (size_t j = 0; j < text.pieces; j++) {
        const char* p = text.p + j * HugeText::kPiece;
        const char* e = p + HugeText::kPiece - (j + 1 == text.pieces);
        uint32_t h = want;
        if (k && j + 1 < text.pieces) h = factor * h + pieceful;
        else if (k) for (; p < e; p++) h = uint32_t(int32_t(*p)) + h * 65599u;
        else for (; p < e; p++) { h += uint32_t(int32_t(*p)); h += h << 10; h ^= h >> 6; }
        want = h;
        mc::evaluations(1);
    }
    if (!k) { want += want << 3; want ^= want >> 11; want += want << 15; }
    uint32_t got = k ? ke::FastHashCharSequence(text.p, text.length) : ke::HashCharSequence(text.p, text.length);
    MC_CHECK(got == want, "the hash of %zu characters is %08x, expected %08x", text.length, got, want);
}
void combine() {
    std::vector<uint32_t> p = {0, 1, 0xffffffffu, 0x9e3779b9u, 0x61c88647u, 0x12345678u};
    for (int a = 0; a < 32; a++) {
        p.push_back(1u << a); p.push_back(~(1u << a)); p.push_back((1u << a) - 1); p.push_back(~0u << a);
        for (int b = 0; b < a; b++) { p.push_back(1u << a | 1u << b); p.push_back((1u << a) - (1u << b)); }
    }
    uint64_t lo, hi;
    mc::slice(p.size(), &lo, &hi);
    for (uint64_t a = lo; a < hi; a++)
        for (uint32_t b : p) {
            uint32_t got = ke::HashCombine(p[a], b);
            if (got != ref_combine(p[a], b)) mc::fail("HashCombine(%#x, %#x) is %08x", p[a], b, got);
        }
    mc::evaluations((hi - lo) * p.size());
    static int x[2];
    MC_CHECK(ke::PointerPolicy<int>::matches(&x[0], &x[0]) && !ke::PointerPolicy<int>::matches(&x[0], &x[1]), "PointerPolicy::matches");
    mc::op("HashCombine over %zu patterns squared", p.size());
}
// Long sequences, around the powers of two, whole and in two pieces.
void longer() {
    int b = 7 + mc::choose(mc::thorough() ? 18 : 15), d = mc::choose(5) - 2;
    size_t n = (size_t(1) << b) + d;
    mc::op("%zu characters", n);
    mc::state(n);
    std::string s(n, 'x');
    for (size_t i = 0; i < n; i++) s[i] = char(i * 131 ^ i >> 8);
    check_string(s);
    Exact e(s);
    for (size_t cut : {size_t(1), n / 2, n - 2}) {
        ke::CharacterStreamHasher h;
        h.add(e.p, cut);
        h.add(e.p + cut, n - cut);
        MC_CHECK(h.result() == ref_oaat(s), "%zu characters, then %zu", cut, n - cut);
    }
    mc::evaluations(1);
}
}  // namespace

void mc_register() {
#if defined(SWEEP)
    mc::add("int32", int32s, 0, -1);
    mc::add("int64", int64s, 0, -1);
    mc::add("combine", combine, 0, -1);
    mc::add("huge", huge, 0, 2);
#else
    mc::add("strings", strings, 0, 3);
    mc::add("bytes", bytes, 0, -1);
    mc::add("longer", longer, 0, 2);
#endif
}

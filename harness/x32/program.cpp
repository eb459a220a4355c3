// A program for 32-bit x86 that needs no library: it explores the headers on a machine whose words are 32 bits wide.
// Built with SECTION defined; usage: program SECTION; prints what is wrong and exits with 1, or "ok N" and exits with 0.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE      // std::string is made here
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <assert.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>
#include <amtl/am-allocator-policies.h>
#include <amtl/am-arithmetic.h>
#include <amtl/am-bits.h>
#include <amtl/am-enum.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-flags.h>
#include <amtl/am-float.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-maybe.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-raii.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-string.h>
#include <amtl/am-time.h>
#include <amtl/am-utility.h>
#include <amtl/am-vector.h>

static_assert(sizeof(void*) == 4 && sizeof(size_t) == 4 && sizeof(long) == 4, "a 32-bit machine");

// ---- the little there is of a C library ---------------------------------------------------------------------------
static int sys(int n, int a, const void* b = nullptr, int c = 0) {
    int r;
    asm volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
    return r;
}
[[noreturn]] static void leave(int code) { sys(1, code); __builtin_unreachable(); }
static void say(const char* s) { int n = 0; while (s[n]) n++; sys(4, 1, s, n); }
static void number(uint64_t v) {
    char b[20];
    int k = 20;
    b[--k] = 0;
    do { uint32_t r = uint32_t(v % 16); b[--k] = "0123456789abcdef"[r]; v >>= 4; } while (v);
    say(" 0x");
    say(b + k);
}
static unsigned g_states;
template <class... A> [[noreturn]] static void fail(const char* what, A... values) {
    say(what);
    (number(uint64_t(values)), ...);
    say("\n");
    leave(1);
}
#define CHECK(c, ...) do { g_states++; if (!(c)) fail(__VA_ARGS__); } while (0)

alignas(16) static char g_arena[48 << 20];
static size_t g_used;
static int g_live, g_allocations;
struct Block { size_t size; Block* next; size_t pad[2]; };
static Block* g_free[32];
static int class_of(size_t n) { int k = 4; while ((size_t(1) << k) < n) k++; return k; }
// <string.h> may declare these twice, for both kinds of pointers.
extern "C" void* find_byte(const void* s, int c, size_t n) asm("memchr");
extern "C" void* find_byte(const void* s, int c, size_t n) {
    for (size_t k = 0; k < n; k++) if (static_cast<const volatile unsigned char*>(s)[k] == (unsigned char)c) return const_cast<char*>(static_cast<const char*>(s) + k);
    return nullptr;
}
extern "C" char* find_text(const char* s, const char* t) asm("strstr");
extern "C" char* find_text(const char* s, const char* t) {
    for (;; s++) {
        size_t k = 0;
        while (t[k] && s[k] == t[k]) k++;
        if (!t[k]) return const_cast<char*>(s);
        if (!*s) return nullptr;
    }
}
extern "C" char* find_char(const char* s, int c) asm("strchr");
extern "C" char* find_char(const char* s, int c) {
    for (;; s++) { if (*s == char(c)) return const_cast<char*>(s); if (!*s) return nullptr; }
}
extern "C" {
void* malloc(size_t n) noexcept {
    if (n > sizeof g_arena) return nullptr;
    int k = class_of(n);
    Block* b = g_free[k];
    if (b) g_free[k] = b->next;
    else {
        size_t need = sizeof(Block) + (size_t(1) << k);
        if (need > sizeof g_arena - g_used) return nullptr;
        b = reinterpret_cast<Block*>(g_arena + g_used);
        g_used += need;
    }
    b->size = k;
    g_live++;
    g_allocations++;
    return b + 1;
}
void free(void* p) noexcept {
    if (!p) return;
    Block* b = static_cast<Block*>(p) - 1;
    if (b->size >= 32) fail("a block is freed twice");
    g_live--;
    b->next = g_free[b->size];
    g_free[b->size] = b;
    b->size = 99;
}
void abort() noexcept { say("abort called\n"); leave(1); }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { say("assertion failed: "); say(e); say("\n"); leave(1); }
void* memcpy(void* d, const void* s, size_t n) { for (size_t k = 0; k < n; k++) { static_cast<volatile char*>(d)[k] = static_cast<const char*>(s)[k]; } return d; }
void* memmove(void* d, const void* s, size_t n) {
    if (d <= s) return memcpy(d, s, n);
    while (n--) static_cast<volatile char*>(d)[n] = static_cast<const char*>(s)[n];
    return d;
}
void* memset(void* d, int c, size_t n) { for (size_t k = 0; k < n; k++) static_cast<volatile char*>(d)[k] = char(c); return d; }
int memcmp(const void* a, const void* b, size_t n) noexcept {
    for (size_t k = 0; k < n; k++) { int d = static_cast<const volatile unsigned char*>(a)[k] - static_cast<const volatile unsigned char*>(b)[k]; if (d) return d; }
    return 0;
}
size_t strlen(const char* s) noexcept { size_t n = 0; while (static_cast<const volatile char*>(s)[n]) n++; return n; }
void* calloc(size_t n, size_t m) noexcept { void* p = malloc(n * m); if (p) memset(p, 0, n * m); return p; }
int strcmp(const char* a, const char* b) noexcept { size_t n = strlen(a), m = strlen(b); return memcmp(a, b, (n < m ? n : m) + 1); }
int strncmp(const char* a, const char* b, size_t n) noexcept { size_t l = 0; while (l < n && a[l]) l++; return memcmp(a, b, l < n ? l + 1 : n); }
size_t strnlen(const char* s, size_t n) noexcept { size_t k = 0; while (k < n && static_cast<const volatile char*>(s)[k]) k++; return k; }
char* strcpy(char* d, const char* s) noexcept { memcpy(d, s, strlen(s) + 1); return d; }
char* strncpy(char* d, const char* s, size_t n) noexcept { size_t k = strnlen(s, n); memcpy(d, s, k); memset(d + k, 0, n - k); return d; }
int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int puts(const char*) { return 0; }
int fputs(const char*, FILE*) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
FILE* stderr;
int sched_yield() noexcept { return 0; }
void __cxa_pure_virtual() { fail("pure virtual call"); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
void* __dso_handle;
// 64-bit division, which compilers leave to a library.
uint64_t __udivmoddi4(uint64_t a, uint64_t b, uint64_t* rest) {
    uint64_t q = 0, r = 0;
    for (int k = 63; k >= 0; k--) {
        bool carry = r >> 63;
        r = r << 1 | (a >> k & 1);
        if (carry || r >= b) { r -= b; q |= uint64_t(1) << k; }
    }
    if (rest) *rest = r;
    return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { return __udivmoddi4(a, b, nullptr); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; __udivmoddi4(a, b, &r); return r; }
// Bit counts, for machines without an instruction.
int __clzdi2(uint64_t v) { int n = 0; for (int k = 63; k >= 0 && !(v >> k & 1); k--) n++; return n; }
int __ctzdi2(uint64_t v) { int n = 0; while (n < 64 && !(v >> n & 1)) n++; return n; }
}
void* operator new(size_t n) { void* p = malloc(n); if (!p) fail("operator new"); return p; }
void* operator new(size_t n, std::align_val_t a) {      // the raw block is remembered before the aligned one
    char* raw = static_cast<char*>(malloc(n + size_t(a) + sizeof(void*)));
    char* p = reinterpret_cast<char*>((uintptr_t(raw) + sizeof(void*) + size_t(a) - 1) & ~uintptr_t(size_t(a) - 1));
    reinterpret_cast<void**>(p)[-1] = raw;
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { if (p) free(static_cast<void**>(p)[-1]); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (p) free(static_cast<void**>(p)[-1]); }
namespace std {
void __throw_length_error(const char*) { fail("length_error"); }
void __throw_bad_alloc() { fail("bad_alloc"); }
void __throw_bad_array_new_length() { fail("bad_array_new_length"); }
void __throw_logic_error(const char*) { fail("logic_error"); }
void __throw_out_of_range_fmt(const char*, ...) { fail("out_of_range"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { fail("libstdc++ assertion"); }
}

// ---- values -------------------------------------------------------------------------------------------------------
template <class T> struct Patterns {
    T v[3000];
    int n = 0;
    void put(T x) { if (n < 3000) v[n++] = x; }
    Patterns(int small) {
        for (int k = 0; k < small; k++) { put(T(k)); put(T(~T(k))); }
        for (int b = 0; b < int(sizeof(T) * 8); b++) {
            T one = T(T(1) << b);
            put(one); put(T(one - 1)); put(T(one + 1)); put(T(~one)); put(T(0 - one)); put(T(one | 1));
            for (int c = 0; c < b; c += 5) put(T(one | T(T(1) << c)));
        }
        put(T(0x123456789abcdef0ull)); put(T(0xfedcba9876543210ull)); put(T(0x5555555555555555ull)); put(T(0xaaaaaaaaaaaaaaaaull));
    }
};
template <class T> unsigned left_of(T v) { unsigned r = 0; while (v >>= 1) r++; return r; }
template <class T> unsigned right_of(T v) { unsigned r = 0; while (!(v >> r & 1)) r++; return r; }

static void bits() {
    Patterns<uint32_t> p(40);
    Patterns<uint64_t> q(40);
    for (int k = 0; k < q.n; k++) if (q.v[k]) CHECK(ke::FindLeftmostBit64(q.v[k]) == left_of(q.v[k]), "FindLeftmostBit64 (argument, result)", q.v[k], ke::FindLeftmostBit64(q.v[k]));
    for (int k = 0; k < p.n; k++) {
        uint32_t v = p.v[k];
        bool power = v && !(v & (v - 1));
        CHECK(ke::IsPowerOfTwo(v) == power, "IsPowerOfTwo", v);
        if (!v) continue;
        CHECK(ke::FindLeftmostBit32(v) == left_of(v), "FindLeftmostBit32 (argument, result)", v, ke::FindLeftmostBit32(v));
        CHECK(ke::Log2(v) == left_of(v), "Log2 (argument, result)", v, ke::Log2(v));
        CHECK(ke::FindRightmostBit(v) == right_of(v), "FindRightmostBit (argument, result)", v, ke::FindRightmostBit(v));
        if (!power) continue;
        for (int j = 0; j < p.n; j++) {
            uint32_t c = p.v[j];
            uint64_t up = (uint64_t(c) + v - 1) & ~uint64_t(v - 1);
            if (up <= UINT32_MAX) CHECK(ke::Align(c, v) == up, "Align (count, alignment, result)", c, v, ke::Align(c, v));
            CHECK(ke::IsAligned(c, v) == (c % v == 0), "IsAligned", c, v);
            CHECK(uintptr_t(ke::AlignedBase(reinterpret_cast<void*>(c), v)) == c - c % v, "AlignedBase", c, v);
        }
    }
    for (int j = 0; j < p.n; j++) {
        char* c = reinterpret_cast<char*>(p.v[j] & ~3u);
        for (uintptr_t t = 0; t < 4; t++) {
            char* d = ke::SetPointerBits(c, t);
            CHECK(uintptr_t(d) == (uintptr_t(c) | t) && ke::GetPointerBits<2>(d) == t && ke::ClearPointerBits<2>(d) == c, "pointer bits", uintptr_t(c), t);
        }
    }
    CHECK(ke::kMallocAlignment >= sizeof(void*) && ke::kMB == 1048576 && ke::kGB == 1073741824, "constants");
}

static void arithmetic() {
    Patterns<uint32_t> p(16);
    Patterns<uint64_t> q(16);
    for (int i = 0; i < p.n; i++)
        for (int j = 0; j < p.n; j++) {
            uint32_t a = p.v[i], b = p.v[j], out = 77;
            bool add = uint64_t(a) + b <= UINT32_MAX, mul = uint64_t(a) * b <= UINT32_MAX;
            CHECK(ke::TryUint32Add(a, b, &out) == add && (add ? out == a + b : out == 77), "TryUint32Add", a, b);
            CHECK(ke::IsUint32AddSafe(a, b) == add && ke::IsUintPtrAddSafe(a, b) == add, "adding 32 bits", a, b);
            CHECK(ke::IsUint32MultiplySafe(a, b) == mul && ke::IsUintPtrMultiplySafe(a, b) == mul, "multiplying 32 bits", a, b);
        }
    for (int i = 0; i < q.n; i++)
        for (int j = 0; j < q.n; j++) {
            uint64_t a = q.v[i], b = q.v[j], out = 77;
            bool add = a <= UINT64_MAX - b;
            // the high half of the product, by hand
            uint64_t al = uint32_t(a), ah = a >> 32, bl = uint32_t(b), bh = b >> 32;
            uint64_t mid = ah * bl + (al * bl >> 32), high = ah * bh + (mid >> 32) + ((uint64_t(uint32_t(mid)) + al * bh) >> 32);
            bool mul = high == 0;
            CHECK(ke::TryUint64Add(a, b, &out) == add && (add ? out == a + b : out == 77), "TryUint64Add", a, b);
            out = 77;
            CHECK(ke::TryUint64Multiply(a, b, &out) == mul && (mul ? out == a * b : out == 77), "TryUint64Multiply", a, b);
            CHECK(ke::IsUint64AddSafe(a, b) == add && ke::IsUint64MultiplySafe(a, b) == mul, "64 bits", a, b);
        }
}

enum class E64 : uint64_t { zero };
KE_DEFINE_ENUM_OPERATORS(E64)
KE_DEFINE_ENUM_COMPARATORS(E64, uint64_t)
static void flags() {
    Patterns<uint64_t> q(8);
    for (int i = 0; i < q.n; i++)
        for (int j = 0; j < q.n; j++) {
            uint64_t a = q.v[i], b = q.v[j];
            ke::Flags<E64> f{E64(a)}, g{E64(b)};
            CHECK((f + g).bits() == (a | b) && (f & g).bits() == (a & b) && (f - g).bits() == (a & ~b) && (f ^ g).bits() == (a ^ b), "flag sets", a, b);
            CHECK((f == g) == (a == b) && bool(f) == (a != 0), "comparing flag sets", a, b);
            CHECK((E64(a) | E64(b)) == (a | b) && (E64(a) & E64(b)) == (a & b) && (E64(a) ^ E64(b)) == (a ^ b) && ~E64(a) == ~a && !E64(a) == !a, "enumerations", a, b);
        }
}

// Requests are recorded, and refused when they are large.
struct Asked { uint32_t last = 0; int calls = 0, overflows = 0, oom = 0; };
static Asked asked;
struct Recorder {
    void reportOutOfMemory() { asked.oom++; }
    void reportAllocationOverflow() { asked.overflows++; }
    void* am_malloc(size_t n) {
        asked.calls++;
        asked.last = n;
        void* p = n > (1u << 20) ? nullptr : malloc(n);
        if (!p) asked.oom++;
        return p;
    }
    void am_free(void* p) { free(p); }
};
template <int N> struct Item { char fill[N]; Item() {} };
template <int N> static void array_sizes() {
    Patterns<uint32_t> p(4);
    for (int i = 0; i < p.n; i++) {
        for (int d = -2; d <= 2; d++) {
            uint32_t n = p.v[i] / N + d;
            uint64_t bytes = uint64_t(n) * N;
            if (bytes <= UINT32_MAX && bytes > (1u << 16) && bytes <= (1u << 20)) continue;
            asked = {};
            ke::FixedArray<Item<N>, Recorder> a(n);
            if (bytes > UINT32_MAX) CHECK(asked.overflows == 1 && asked.calls == 0 && !a.initialize() && a.size() == 0, "a fixed array whose size overflows (elements, bytes each, overflows, requests)", n, N, asked.overflows, asked.calls);
            else if (bytes > (1u << 20)) CHECK(asked.oom == 1 && asked.overflows == 0 && !a.initialize() && a.size() == 0 && asked.last == bytes, "a fixed array without memory (elements, bytes each, overflows)", n, N, asked.overflows);
            else CHECK(a.initialize() && a.size() == n && asked.overflows == 0 && (n == 0 || asked.last >= bytes), "a fixed array (elements, bytes each)", n, N);
        }
    }
    CHECK(g_live == 0, "memory is not returned", g_live);
}
static void arrays() {
    array_sizes<1>(); array_sizes<2>(); array_sizes<3>(); array_sizes<4>(); array_sizes<8>(); array_sizes<12>(); array_sizes<24>(); array_sizes<64>(); array_sizes<4097>();
    for (int n = 0; n < 20; n++) {
        ke::FixedArray<uint64_t> a(n), b;
        for (int k = 0; k < n; k++) CHECK(a[k] == 0, "an element is not default-constructed", n, k);
        for (int k = 0; k < n; k++) a[k] = uint64_t(k) << 33;
        b = a;
        ke::FixedArray<uint64_t> c(std::move(a));
        CHECK(a.size() == 0 && b == c && c.size() == size_t(n), "copying and moving", n);
        for (int k = 0; k < n; k++) CHECK(c.at(k) == uint64_t(k) << 33, "element", n, k);
    }
    CHECK(g_live == 0, "memory is not returned", g_live);
}

template <int N> struct Big { int k; char fill[N - 4]; Big() {} Big(Big&& o) : k(o.k) {} };
template <int N> struct BigPolicy {
    typedef Big<N> Payload;
    static uint32_t hash(int k) { return uint32_t(k); }
    static bool matches(int k, const Payload& p) { return p.k == k; }
};
template <int N> static void table_sizes() {
    for (int b = 4; b < 32; b++) {
        size_t cap = size_t(1) << b;
        uint64_t bytes = uint64_t(cap) * (N + 4);
        if (bytes <= (1u << 20) && bytes > (1u << 17)) continue;
        asked = {};
        ke::HashTable<BigPolicy<N>, Recorder> t;
        bool ok = t.init(cap);
        if (bytes > INT32_MAX && bytes <= UINT32_MAX && asked.overflows == 0) CHECK(!ok && asked.oom == 1 && asked.last >= bytes, "a table too large (slots, bytes each)", cap, N + 4);
        else if (bytes > INT32_MAX) CHECK(!ok && asked.overflows == 1 && asked.calls == 0, "a table whose size overflows (slots, bytes each, overflows, requests)", cap, N + 4, asked.overflows, asked.calls);
        else if (bytes > (1u << 20)) CHECK(!ok && asked.oom == 1 && asked.overflows == 0 && asked.last >= bytes, "a table without memory (slots, bytes each)", cap, N + 4);
        else {
            CHECK(ok && asked.last >= bytes && t.estimateMemoryUse() >= bytes, "a table (slots, bytes each)", cap, N + 4);
            for (int k = 0; k < 20; k++) { auto i = t.findForAdd(k); Big<N> x; x.k = k; CHECK(!i.found() && t.add(i, std::move(x)), "adding", k); }
            for (int k = 0; k < 25; k++) CHECK(t.find(k).found() == (k < 20), "finding", k);
        }
    }
    CHECK(g_live == 0, "memory is not returned", g_live);
}
struct IntPolicy {
    static uint32_t hash(uint64_t k) { return ke::HashInt64(k); }
    static bool matches(uint64_t a, uint64_t b) { return a == b; }
};
static void map_history(const int* ops, int n) {
    {
        ke::HashMap<uint64_t, uint64_t, IntPolicy> m;
        bool in[128] = {};
        size_t count = 0;
        CHECK(m.init(16), "init");
        for (int d = 0; d < n; d++) {
            switch (ops[d]) {
                case 0:
                    for (int k = 0, left = 14; k < 128 && left; k++) if (!in[k]) { auto i = m.findForAdd(uint64_t(k) << 32 | k); CHECK(!i.found() && m.add(i, uint64_t(k) << 32 | k, uint64_t(k)), "adding", k); in[k] = true; count++; left--; }
                    break;
                case 1:
                    for (int k = 0; k < 128; k += 2) if (in[k]) { m.removeIfExists(uint64_t(k) << 32 | k); in[k] = false; count--; }
                    break;
                case 2:
                    for (auto i = m.iter(); !i.empty(); i.next()) if (i->value % 3 == 1) { in[i->value] = false; count--; i.erase(); }
                    break;
                case 3: m.clear(); for (bool& b : in) b = false; count = 0; break;
                case 4: { typedef ke::HashMap<uint64_t, uint64_t, IntPolicy> Map; Map o(std::move(m)); m.~Map(); new (&m) Map(std::move(o)); break; }
            }
            CHECK(m.elements() == count, "elements (got, expected)", m.elements(), count);
            for (int k = 0; k < 128; k++) {
                auto r = m.find(uint64_t(k) << 32 | k);
                CHECK(r.found() == in[k] && (!in[k] || r->value == uint64_t(k)), "finding", k);
                CHECK(!m.find(uint64_t(k) << 32 | (k + 1)).found(), "finding what was never added", k);
            }
            size_t seen = 0;
            for (auto i = m.iter(); !i.empty(); i.next()) { CHECK(in[i->value], "iterating over", i->value); seen++; }
            CHECK(seen == count, "entries iterated over (got, expected)", seen, count);
        }
    }
    CHECK(g_live == 0, "memory is not returned", g_live);
}
static void tables() {
    table_sizes<4>(); table_sizes<8>(); table_sizes<12>(); table_sizes<60>(); table_sizes<1020>();
    int ops[4];
    for (int c = 0; c < 625; c++) {
        for (int k = 0, r = c; k < 4; k++, r /= 5) ops[k] = r % 5;
        map_history(ops, 4);
    }
}
static uint32_t mix32(uint32_t a) {
    auto sar = [](uint32_t v, int n) { return uint32_t(int32_t(v) >> n); };
    a = (a ^ 61) ^ sar(a, 16);
    a = a + (a << 3);
    a = a ^ sar(a, 4);
    a = a * 0x27d4eb2d;
    return a ^ sar(a, 15);
}
static uint32_t mix64(uint64_t k) {
    k = ~k + (k << 18); k ^= k >> 31; k *= 21; k ^= k >> 11; k += k << 6; k ^= k >> 22;
    return uint32_t(k);
}
static void hashers() {
    Patterns<uint32_t> p(200);
    Patterns<uint64_t> q(200);
    for (int i = 0; i < p.n; i++) {
        CHECK(ke::HashInt32(p.v[i]) == mix32(p.v[i]) && ke::HashInteger<4>(p.v[i]) == mix32(p.v[i]), "HashInt32", p.v[i]);
        CHECK(ke::HashPointer(reinterpret_cast<void*>(p.v[i])) == mix32(p.v[i]), "HashPointer", p.v[i]);
    }
    for (int i = 0; i < q.n; i++) CHECK(ke::HashInt64(q.v[i]) == mix64(q.v[i]), "HashInt64", q.v[i]);
    const char bytes[] = {0, 1, 'a', 127, char(128), char(255)};
    char s[5];
    for (int c = 0; c < 6 * 6 * 6 * 6; c++)
        for (int n = 0; n < 5; n++) {
            for (int k = 0, r = c; k < 4; k++, r /= 6) s[k] = bytes[r % 6];
            uint32_t h = 0, f = 0;
            for (int k = 0; k < n; k++) { h += int32_t(int8_t(s[k])); h += h << 10; h ^= h >> 6; f = int32_t(int8_t(s[k])) + (f << 6) + (f << 16) - f; }
            h += h << 3; h ^= h >> 11; h += h << 15;
            CHECK(ke::HashCharSequence(s, n) == h && ke::FastHashCharSequence(s, n) == f, "hashing text", c, n);
        }
}

// Callables of every size and alignment in three wrappers.
static int g_callables;
template <int W, int A> struct alignas(A) Call {
    uint32_t words[W];
    Call(uint32_t s) { for (int k = 0; k < W; k++) words[k] = s + k; g_callables++; where("constructed"); }
    Call(const Call& o) { for (int k = 0; k < W; k++) words[k] = o.words[k]; g_callables++; where("copied"); }
    Call(Call&& o) { for (int k = 0; k < W; k++) words[k] = o.words[k]; g_callables++; where("moved"); }
    ~Call() { g_callables--; }
    void where(const char* what) const { if (uintptr_t(this) % A) fail(what, uintptr_t(this), A); }
    uint64_t operator()(uint64_t x) const {
        where("a misaligned callable is called");
        for (int k = 1; k < W; k++) if (words[k] != words[0] + k) fail("a damaged callable is called", W, A);
        return x + words[0];
    }
};
typedef ke::Function<uint64_t(uint64_t)> Fn;
template <int W, int A> static void store(Fn* f, uint32_t s) {
    Call<W, A> c(s);
    int before = g_allocations;
    *f = c;
    if (W <= 3 && A <= 4) CHECK(g_allocations == before && f->usingInlineStorage(), "a callable of this many words is stored on the heap", W);
}
static void functions() {
    for (int c = 0; c < 13 * 13 * 13; c++) {
        {
            Fn f[2];
            uint64_t want[2] = {0, 0};      // 0: empty
            int ops[3] = {c % 13, c / 13 % 13, c / 169};
            for (int d = 0; d < 3; d++) {
                int t = d & 1;
                uint32_t s = 1000u * (d + 1);
                switch (ops[d]) {
                    case 0: store<1, 4>(&f[t], s); break;
                    case 1: store<2, 4>(&f[t], s); break;
                    case 2: store<3, 4>(&f[t], s); break;
                    case 3: store<4, 4>(&f[t], s); break;
                    case 4: store<16, 4>(&f[t], s); break;
                    case 5: store<2, 8>(&f[t], s); break;
                    case 6: store<4, 16>(&f[t], s); break;
                    case 7: store<16, 64>(&f[t], s); break;
                    case 8: f[t] = f[!t]; break;
                    case 9: f[t] = std::move(f[!t]); break;
                    case 10: f[t] = nullptr; break;
                    case 11: { Fn g(f[t]), h(std::move(g)); f[t] = h; break; }
                    case 12: { const Fn& g = f[t]; Fn h(g); f[!t] = std::move(h); break; }
                }
                if (ops[d] < 8) want[t] = s;
                else if (ops[d] == 8) want[t] = want[!t];
                else if (ops[d] == 9) { want[t] = want[!t]; want[!t] = 0; }
                else if (ops[d] == 10) want[t] = 0;
                else if (ops[d] == 12) want[!t] = want[t];
                for (int k = 0; k < 2; k++) {
                    CHECK(bool(f[k]) == (want[k] != 0), "emptiness (history, wrapper)", c, k);
                    if (f[k]) CHECK(f[k](uint64_t(7) << 40) == (uint64_t(7) << 40) + want[k], "result (history, wrapper)", c, k);
                }
            }
        }
        CHECK(g_callables == 0 && g_live == 0, "callables or memory left (history, callables, blocks)", c, g_callables, g_live);
    }
}

template <int A> static void maybe_of() {
    typedef Call<4, A> T;
    struct Holder { char c; ke::Maybe<T> m; } h[2];      // wherever the compiler puts it
    for (int c = 0; c < 6 * 6 * 6; c++) {
        uint32_t want[2] = {0, 0};
        for (auto& x : h) x.m = ke::Nothing();
        for (int d = 0, r = c; d < 3; d++, r /= 6) {
            int t = d & 1;
            switch (r % 6) {
                case 0: h[t].m.init(100u + d); want[t] = 100u + d; break;
                case 1: h[t].m = h[!t].m; want[t] = want[!t]; break;
                case 2: h[t].m = std::move(h[!t].m); want[t] = want[!t]; want[!t] = 0; break;
                case 3: h[t].m = ke::Nothing(); want[t] = 0; break;
                case 4: { ke::Maybe<T> o(h[t].m); h[!t].m = o; want[!t] = want[t]; break; }
                case 5: { auto* p = new ke::Maybe<T>(std::move(h[t].m)); h[!t].m = *p; delete p; want[!t] = want[t]; want[t] = 0; break; }
            }
            for (int k = 0; k < 2; k++) {
                CHECK(h[k].m.isValid() == (want[k] != 0), "a maybe (alignment, history)", A, c);
                if (want[k]) CHECK((*h[k].m)(1) == want[k] + 1 && h[k].m.get().words[0] == want[k], "a maybe's value (alignment, history)", A, c);
            }
        }
    }
    for (auto& x : h) x.m = ke::Nothing();
    CHECK(g_callables == 0 && g_live == 0, "values left (alignment, count)", A, g_callables);
}
static void maybes() { maybe_of<4>(); maybe_of<8>(); maybe_of<16>(); maybe_of<64>(); }

static int g_objects;
struct Plain : ke::Refcounted<Plain> { int v = 3; Plain() { g_objects++; } ~Plain() { g_objects--; } };
struct Safe : ke::VirtualRefcountedThreadsafe { int v = 3; Safe() { g_objects++; } ~Safe() { g_objects--; } };
template <class T, class Cell> static void handles() {
    for (int c = 0; c < 7 * 7 * 7 * 7; c++) {
        {
            Cell cell[2];
            T* raw[2] = {};
            ke::RefPtr<T> own[2];
            for (int k = 0; k < 2; k++) { own[k] = new T; raw[k] = own[k].get(); }
            T* want[2] = {};
            for (int d = 0, r = c; d < 4; d++, r /= 7) {
                int t = d & 1;
                switch (r % 7) {
                    case 0: cell[t] = raw[0]; want[t] = raw[0]; break;      // raw: null once the object is gone
                    case 1: cell[t] = raw[1]; want[t] = raw[1]; break;
                    case 2: cell[t] = nullptr; want[t] = nullptr; break;
                    case 3: { ke::RefPtr<T> p(cell[!t].get()); cell[t] = p; want[t] = want[!t]; break; }
                    case 4: own[t] = nullptr; if (!raw[t] || (want[0] != raw[t] && want[1] != raw[t])) { own[t] = new T; raw[t] = own[t].get(); } break;
                    case 5: own[t] = own[t].get(); break;
                    case 6: { ke::RefPtr<T> p(own[t]), q(std::move(p)); own[t] = q.take(); break; }
                }
                for (int k = 0; k < 2; k++) {
                    ke::RefPtr<T> p(cell[k].get());
                    CHECK(p.get() == want[k] && (!p || p->v == 3), "a cell (history, cell)", c, k);
                }
                int expect = 0;
                for (int k = 0; k < 2; k++) {
                    if (raw[k] && (own[k] || want[0] == raw[k] || want[1] == raw[k])) expect++;
                    else raw[k] = nullptr;
                }
                CHECK(g_objects == expect, "objects alive (history, got, expected)", c, g_objects, expect);
            }
        }
        CHECK(g_objects == 0 && g_live == 0, "objects or memory left (history, objects)", c, g_objects);
    }
}
static void references() {
    handles<Safe, ke::AtomicRef<Safe>>();
    handles<Plain, ke::RefPtr<Plain>>();
}

struct Node : ke::InlineListNode<Node> {};
static void sequences() {
    for (int c = 0; c < 4096; c++) {      // four nodes, eight operations of append, remove, erase while walking
        ke::InlineList<Node> l;
        Node n[4];
        Node* model[4];
        int size = 0;
        for (int d = 0; d < 6; d++) {
            int k = c >> (2 * d) & 3;
            if (!n[k].isInList()) { l.append(&n[k]); model[size++] = &n[k]; }
            else { l.remove(&n[k]); int w = 0; for (int j = 0; j < size; j++) if (model[j] != &n[k]) model[w++] = model[j]; size = w; }
            int at = 0;
            for (auto i = l.begin(); i != l.end(); i++, at++) CHECK(at < size && *i == model[at], "forwards (history, place)", c, at);
            CHECK(at == size, "length", c, at);
            for (auto i = l.rbegin(); i != l.rend(); i++) { at--; CHECK(at >= 0 && *i == model[at], "backwards (history, place)", c, at); }
        }
        while (!l.empty()) { auto i = l.begin(); l.erase(i); }
    }
    for (int c = 0; c < 5 * 5 * 5 * 5 * 5; c++) {
        {
            ke::PriorityQueue<uint64_t> q;
            for (int d = 0, r = c; d < 5; d++, r /= 5) q.add(uint64_t(r % 5) << 32 | uint64_t(4 - r % 5));
            uint64_t last = 0;
            for (int d = 0; d < 5; d++) { uint64_t v = q.pop(); CHECK(v >= last, "popped in the wrong order (history, value)", c, v); last = v; }
            CHECK(q.empty(), "not empty", c);
            std::vector<uint64_t> v;
            for (int d = 0, r = c; d < 5; d++, r /= 5) ke::InsertAt(&v, size_t(r % 5) < v.size() ? r % 5 : v.size(), uint64_t(d) << 33);
            ke::RemoveAt(&v, c % 5);
            CHECK(v.size() == 4, "vector", c);
        }
        CHECK(g_live == 0, "memory is not returned", g_live);
    }
}

static void strings() {
    const char* texts[] = {"", "a", "ab", "abc", "abcdefgh"};
    for (const char* s : texts)
        for (size_t n = 0; n < 12; n++)
            for (size_t most = 0; most < 12; most++) {
                char b[16], e[16];
                memset(b, '#', 16); memset(e, '#', 16);
                size_t len = strlen(s), fits = n ? (len < n - 1 ? len : n - 1) : 0;
                size_t r = ke::SafeStrcpy(b, n, s);
                for (size_t k = 0; k < fits; k++) e[k] = s[k];
                if (n) e[fits] = 0;
                CHECK(r == fits && !memcmp(b, e, 16), "SafeStrcpy (length, buffer, result)", len, n, r);
                if (n) {
                    size_t take = len < most ? len : most;
                    fits = take < n - 1 ? take : n - 1;
                    memset(b, '#', 16); memset(e, '#', 16);
                    for (size_t k = 0; k < fits; k++) e[k] = s[k];
                    e[fits] = 0;
                    r = ke::SafeStrcpyN(b, n, s, most);
                    CHECK(r == fits && !memcmp(b, e, 16), "SafeStrcpyN (length, buffer, most, result)", len, n, most, r);
                }
            }
}
static void texts() {
    const char letters[] = {'a', 'B', ' ', 'z'};
    const char* separators[] = {" ", "a", "a ", "aa"};
    {
        for (int n = 0; n <= 5; n++)
            for (int c = 0; c < 1 << (2 * n); c++) {
                char s[6] = {};
                for (int k = 0; k < n; k++) s[k] = letters[c >> (2 * k) & 3];
                std::string text(s);
                for (const char* sep : separators) {
                    size_t len = strlen(sep), cuts = 0;
                    for (size_t k = 0; k + len <= size_t(n);) { if (!memcmp(s + k, sep, len)) { cuts++; k += len; } else k++; }
                    std::vector<std::string> pieces = ke::Split(s, sep);
                    CHECK(pieces.size() == (n ? cuts + 1 : 0), "pieces (text, got, expected)", c, pieces.size(), cuts + 1);
                    CHECK(ke::Join(pieces, sep) == text, "joined pieces (text, length)", c, n);
                    CHECK(ke::StartsWith(s, sep) == (size_t(n) >= len && !memcmp(s, sep, len)), "StartsWith", c, n);
                    CHECK(ke::StartsWith(text, sep) == (size_t(n) >= len && !memcmp(s, sep, len)), "StartsWith", c, n);
                    CHECK(ke::EndsWith(text, sep) == (size_t(n) >= len && !memcmp(s + n - len, sep, len)), "EndsWith", c, n);
                }
                std::string up = ke::Uppercase(s), low = ke::Lowercase(s);
                CHECK(up.size() == size_t(n) && low.size() == size_t(n), "length of the other case", c, n);
                for (int k = 0; k < n; k++) CHECK(up[k] == (s[k] >= 'a' ? s[k] - 32 : s[k]) && low[k] == (s[k] == 'B' ? 'b' : s[k]), "case", c, k);
                for (size_t max = 1; max < 12; max++) {
                    char b[16] = "xy", e[16] = "xy";
                    if (max < 3) continue;
                    size_t w = 2;
                    for (int k = 0; k < n && w + 1 < max; k++) e[w++] = s[k];
                    size_t r = ke::SafeStrcat(b, max, s);
                    CHECK(r == w && !memcmp(b, e, 16), "SafeStrcat (text, buffer, result)", c, max, r);
                }
            }
    }
    CHECK(g_live == 0, "memory is not returned", g_live);
}
static void floats() {
    auto of32 = [](uint32_t b) { float f; memcpy(&f, &b, 4); return f; };
    auto of64 = [](uint64_t b) { double d; memcpy(&d, &b, 8); return d; };
    (void)of32;
    Patterns<uint64_t> q(20);
    for (int k = 0; k < q.n; k++)
        for (uint64_t e : {0ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x3ff0000000000000ull}) {
            uint64_t b = (q.v[k] & 0x000fffffffffffffull) | e | (q.v[k] & (1ull << 63));
            bool special = (b >> 52 & 0x7ff) == 0x7ff, whole = (b & 0x000fffffffffffffull) == 0;
            CHECK(ke::IsInfinite(of64(b)) == (special && whole), "IsInfinite of bits", b);
            CHECK(ke::IsNaN(of64(b)) == (special && !whole), "IsNaN of bits", b);
        }
    CHECK(ke::IsInfinite(of32(0x7f800000)) && ke::IsInfinite(of32(0xff800000)) && !ke::IsInfinite(of32(0x7fc00000)) && !ke::IsInfinite(of32(0x7f7fffff)), "IsInfinite of a float");
}
static void times() {
    Patterns<uint32_t> p(20);
    const uint32_t nanos[] = {0, 1, 499999999, 999999999};
    for (int k = 0; k < p.n; k++)
        for (uint32_t n : nanos) {
            timespec ts;
            ts.tv_sec = int32_t(p.v[k]);
            ts.tv_nsec = n;
            int64_t want = int64_t(int32_t(p.v[k])) * 1000000000 + n;
            CHECK(ke::TimespecToDuration(ts).count() == want, "TimespecToDuration (seconds, nanoseconds)", p.v[k], n);
            CHECK(ke::TimespecToTimePoint<std::chrono::system_clock>(ts).time_since_epoch().count() == want, "TimespecToTimePoint (seconds, nanoseconds)", p.v[k], n);
            typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds> Point;
            CHECK(ke::EpochValueToTimePoint<Point>(ts.tv_sec).time_since_epoch().count() == int32_t(p.v[k]), "EpochValueToTimePoint", p.v[k]);
        }
    static_assert(sizeof(time_t) == 4, "32-bit times");
}
static void scopes() {      // guards, saved values and linked objects, in every nesting of four
    struct Link : ke::StackLinked<Link> { uint64_t v; Link(Link** p, uint64_t v) : ke::StackLinked<Link>(p), v(v) {} Link* outer() { return prev_; } };
    for (int c = 0; c < 256; c++) {
        Link* head = nullptr;
        uint64_t value = 0;
        int fired = 0, want = 0;
        struct Nest {
            static void go(int c, int depth, Link** head, uint64_t* value, int* fired, int* want) {
                if (depth == 4) return;
                Link* before = *head;
                uint64_t old = *value;
                {
                    Link l(head, uint64_t(depth) << 40);
                    ke::SaveAndSet<uint64_t> s(value, uint64_t(c + 1) << 33);
                    auto g = ke::MakeScopeGuard([=] { ++*fired; });
                    auto h(std::move(g));
                    bool cancel = c >> depth & 1, twice = c >> (depth + 4) & 1;
                    if (cancel) h.cancel(); else ++*want;
                    CHECK(*head == &l && l.outer() == before && *value == uint64_t(c + 1) << 33, "inside a scope", c, depth);
                    go(c, depth + 1, head, value, fired, want);
                    if (twice && depth < 3) go(c, 3, head, value, fired, want);
                    CHECK(*head == &l && *value == uint64_t(c + 1) << 33, "after an inner scope", c, depth);
                }
                CHECK(*head == before && *value == old, "after a scope", c, depth);
            }
        };
        Nest::go(c, 0, &head, &value, &fired, &want);
        CHECK(fired == want && !head && value == 0, "guards fired (got, expected)", fired, want);
        uint64_t x = uint64_t(c) << 50;
        CHECK(ke::ReturnAndVoid(x) == uint64_t(c) << 50 && x == 0, "ReturnAndVoid", c);
    }
}
static void nothing() {}

#define NAME(x) NAME_(x)
#define NAME_(x) #x
static const struct { const char* name; void (*run)(); } kSections[] = {{"nothing", nothing}, {NAME(SECTION), SECTION}};      // only what is asked for is linked

extern "C" __attribute__((used)) void start_here(char** stack) {
    const char* want = stack[2];
    for (auto& s : kSections) {
        int k = 0;
        while (s.name[k] && s.name[k] == want[k]) k++;
        if (s.name[k] || want[k]) continue;
        s.run();
        say("ok");
        number(g_states);
        say("\n");
        leave(0);
    }
    say("unknown section\n");
    leave(2);
}
asm(".globl _start\n_start:\n  mov %esp, %eax\n  and $-16, %esp\n  sub $12, %esp\n  push %eax\n  call start_here\n  hlt\n");

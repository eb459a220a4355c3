// S01: bounded string functions never overrun, always terminate, and return the length.
#include <amtl/am-string.h>
#include <sys/mman.h>
#include "fmt_cases.h"
#include <mc/sizes.h>
#include "str_common.h"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-zero-length"

using namespace sc;
namespace {
const std::vector<std::string>& sources() {
    static std::vector<std::string> v;
    if (v.empty()) {
        v = all("a\xff", mc::thorough() ? 7 : 6);
        for (size_t n : {9, 10, 15, 16, 17, 31, 32, 33}) v.push_back(std::string(n, 'q'));
    }
    return v;
}
const size_t kSizes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 33, 34};
const char kFills[] = {'Z', 0, '\x7f'};

void copies() {
    auto& src = sources();
    uint64_t lo, hi, n = 0;
    mc::slice(src.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++)
        for (size_t size : kSizes)
            for (char fill : kFills)
                for (int exact = 0; exact < 2; exact++) {
                    const std::string& s = src[k];
                    {
                        Buf b(size, exact, "", fill);
                        Src in(s, true);
                        size_t r = ke::SafeStrcpy(b.p, size, in.p);
                        std::string want = size ? s.substr(0, size - 1) : "";
                        if (r != want.size()) mc::fail("SafeStrcpy(size %zu, %s) returned %zu", size, show(s).c_str(), r);
                        if (!(size ? b.is(want) : b.untouched())) mc::fail("SafeStrcpy(size %zu, %s): buffer is %s", size, show(s).c_str(), show(b.now()).c_str());
                        mc::observe(r);
                    }
                    // Counted copy: the count may cut the source (which then need not be terminated) or exceed it.
                    for (size_t c = 0; c <= s.size() + 3; c++) {
                        size_t count = c == s.size() + 3 ? SIZE_MAX : c == s.size() + 2 ? 1000 : c;
                        Buf b(size, exact, "", fill);
                        Src in(count <= s.size() ? s.substr(0, count) : s, count > s.size());
                        size_t r = ke::SafeStrcpyN(b.p, size, in.p, count);
                        std::string want = s.substr(0, count);
                        if (size) want = want.substr(0, size - 1);
                        if (r != (size ? want.size() : 0)) mc::fail("SafeStrcpyN(size %zu, %s, %zu) returned %zu", size, show(s).c_str(), count, r);
                        if (!(size ? b.is(want) : b.untouched())) mc::fail("SafeStrcpyN(size %zu, %s, %zu): buffer is %s", size, show(s).c_str(), count, show(b.now()).c_str());
                        n++;
                    }
                    n++;
                }
    mc::evaluations(n);
    MC_CHECK(ke::SafeStrcpy(nullptr, 0, "x") == 0 && ke::SafeStrcpyN(nullptr, 0, "x", 1) == 0, "no buffer");
    mc::op("copies");
}
void appends() {
    auto& src = sources();
    std::vector<std::string> contents = all("k", 8);
    contents.push_back(std::string(16, 'k'));
    uint64_t lo, hi, n = 0;
    mc::slice(src.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++)
        for (auto& old : contents)
            for (size_t size : kSizes)
                for (int exact = 0; exact < 2; exact++) {
                    // The buffer holds a string; if that string does not fit the stated size, it is simply kept.
                    const std::string& s = src[k];
                    size_t room = std::max(size, old.size() + 1);
                    Buf b(room, exact, old + '\0', 'Z');
                    Src in(s, true);
                    size_t r = ke::SafeStrcat(b.p, size, in.p);
                    std::string want = old;
                    if (old.size() + 1 < size) want += s.substr(0, size - 1 - old.size());
                    if (r != want.size()) mc::fail("SafeStrcat(%s, size %zu, %s) returned %zu", show(old).c_str(), size, show(s).c_str(), r);
                    if (!b.is(want)) mc::fail("SafeStrcat(%s, size %zu, %s): buffer is %s", show(old).c_str(), size, show(s).c_str(), show(b.now()).c_str());
                    n++;
                }
    mc::evaluations(n);
    mc::op("appends");
}
__attribute__((format(printf, 3, 0))) size_t via(char* b, size_t n, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    size_t r = ke::SafeVsprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
std::string ref(bool* ok, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = reference(ok, f, ap);
    va_end(ap);
    return s;
}
void check(const char* what, size_t r, Buf& b, bool ok, const std::string& full, const std::string& partial) {
    if (!b.guards_intact()) mc::fail("%s(size %zu) of %s wrote outside the buffer: %s", what, b.n, show(full).c_str(), show(b.now()).c_str());
    if (!b.n) {
        if (r || !b.untouched()) mc::fail("%s: a zero-sized buffer was used (returned %zu)", what, r);
        return;
    }
    if (ok) {
        std::string want = full.substr(0, b.n - 1);
        if (r != want.size()) mc::fail("%s(size %zu) of %s returned %zu", what, b.n, show(full).c_str(), r);
        if (memcmp(b.p, want.c_str(), want.size() + 1)) mc::fail("%s(size %zu) of %s produced %s", what, b.n, show(full).c_str(), show(b.now()).c_str());
    } else {
        if (!memchr(b.p, 0, b.n)) mc::fail("%s(size %zu) left the buffer unterminated after a formatting failure", what, b.n);
        size_t len = strlen(b.p);
        if (r != len) mc::fail("%s(size %zu) reported %zu characters after a formatting failure, the buffer holds %zu", what, b.n, r, len);
        if (strncmp(b.p, partial.c_str(), len)) mc::fail("%s(size %zu) reported characters that were not produced: %s", what, b.n, show(b.now()).c_str());
    }
}
template <class Case> void print_case(int kind, int k, Case&& call) {
    static const char* partials[] = {"", "abc", "ok", "some text, then more and ok"};
    for (size_t size = 0; size < 48; size++)
        for (char fill : kFills)
            for (int exact = 0; exact < 2; exact++) {
                call([&](const char* fmt, auto... a) {
                    bool ok;
                    std::string full = ref(&ok, fmt, a...);
                    MC_CHECK(ok == (kind != 2), "the C library %s '%s'", ok ? "accepts" : "rejects", fmt);
                    std::string partial = kind == 2 ? partials[k] : "";
                    {
                        Buf b(size, exact, "", fill);
                        size_t r = ke::SafeSprintf(b.p, size, fmt, a...);
                        check("SafeSprintf", r, b, ok, full, partial);
                    }
                    Buf b(size, exact, "", fill);
                    size_t r = via(b.p, size, fmt, a...);
                    check("SafeVsprintf", r, b, ok, full, partial);
                    mc::observe(r);
                });
                mc::evaluations(2);
            }
}
void prints() {
    int kind = mc::choose(3);
    int k = mc::choose(kind == 0 ? fc::kSimple : kind == 1 ? fc::kNul : fc::kBad);
    mc::op("%s format %d", kind == 0 ? "plain" : kind == 1 ? "embedded NUL" : "failing", k);
    print_case(kind, k, [&](auto f) { kind == 0 ? fc::simple(k, f) : kind == 1 ? fc::nul(k, f) : fc::bad(k, f); });
    mc::state(kind * 100 + k);
}
// Long results against sizes around them.
void lengths() {
    uint64_t lo, hi;
    mc::slice(mc::thorough() ? 5000 : 1200, &lo, &hi);
    for (uint64_t len = lo; len < hi; len++)
        for (int d = -3; d <= 3; d++) {
            int64_t size = int64_t(len) + 1 + d;
            if (size < 0) continue;
            std::string s(len, 'L');
            Buf b(size, true, "", 'Z');
            size_t r = ke::SafeSprintf(b.p, size, "%s", s.c_str());
            check("SafeSprintf", r, b, true, s, "");
            Buf c(size, true, "", 'Z');
            r = ke::SafeStrcpy(c.p, size, s.c_str());
            check("SafeStrcpy", r, c, true, s, "");
            mc::evaluations(2);
        }
    mc::op("lengths");
}
// The same functions at every scale: 8, 16 and 32 bit counters in the code would show here.
std::string text(size_t n) { std::string s(n, 'L'); for (size_t k = 0; k < n; k += 5) s[k] = char('a' + k / 5 % 26); return s; }
void scale() {
    mc::for_sizes(300, 1 << 17, [](size_t n) {
        std::string s = text(n);
        Src in(s, true);
        for (size_t size : {size_t(1), size_t(8), n / 2 + 1, n, n + 1, n + 2, n + 300}) {
            if (!size) continue;
            const std::string cut = s.substr(0, size - 1);
            Buf b(size, true, "", 'Z'), c(size, true, "", 'Z'), d(size, true, "", 'Z');
            size_t r = ke::SafeStrcpy(b.p, size, in.p);
            if (r != cut.size() || memcmp(b.p, cut.c_str(), cut.size() + 1)) mc::fail("SafeStrcpy(size %zu) of %zu characters returned %zu", size, n, r);
            r = ke::SafeSprintf(c.p, size, "%s", in.p);
            if (r != cut.size() || memcmp(c.p, cut.c_str(), cut.size() + 1)) mc::fail("SafeSprintf(size %zu) of %zu characters returned %zu", size, n, r);
            for (size_t count : {n / 2, n, n + 1, size, size_t(1) << 32, (size_t(1) << 32) + 2, size_t(1) << 63, SIZE_MAX}) {
                r = ke::SafeStrcpyN(d.p, size, in.p, count);
                const std::string w = s.substr(0, std::min(count, size - 1));
                if (r != w.size() || memcmp(d.p, w.c_str(), w.size() + 1)) mc::fail("SafeStrcpyN(size %zu, count %zu) of %zu characters returned %zu", size, count, n, r);
            }
            mc::evaluations(10);
        }
        for (int swap = 0; swap < 2; swap++) {       // a long string onto a short one, a short one onto a long one
            const std::string old = swap ? s : "start", add = swap ? "more text" : s;
            for (int64_t d = -4; d <= 2; d++) {
                int64_t size = int64_t(old.size() + add.size() + 1) + d;
                if (size <= int64_t(old.size())) continue;
                Buf b(size, true, old + '\0', 'Z');
                Src x(add, true);
                size_t r = ke::SafeStrcat(b.p, size, x.p);
                const std::string w = (old + add).substr(0, size - 1);
                if (r != w.size() || memcmp(b.p, w.c_str(), w.size() + 1)) mc::fail("SafeStrcat(%zu characters, size %zu) of %zu characters returned %zu", old.size(), size_t(size), add.size(), r);
                mc::evaluations(1);
            }
        }
    });
    mc::op("scale");
}
// Buffers of more than 2^31 and 2^32 bytes (address space only; their pages are not touched).
void huge() {
    size_t size = std::initializer_list<size_t>{(size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 31) + 9, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 32) + 9}.begin()[mc::choose(7)];
    int what = mc::choose(5);
    mc::op("a buffer of %zu bytes, function %d", size, what);
    char* p = (char*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) mc::fail("no address space");
    const char* text = "a few words";
    strcpy(p, what == 2 ? "a few" : "ZZZZZZZZZZZZZZZZZZZZ");
    size_t r = what == 0 ? ke::SafeStrcpy(p, size, text) : what == 1 ? ke::SafeStrcpyN(p, size, text, SIZE_MAX) : what == 2 ? ke::SafeStrcat(p, size, " words")
             : what == 3 ? ke::SafeSprintf(p, size, "%s %d words", "a", 77) : via(p, size, "%s", text);
    const char* want = what == 3 ? "a 77 words" : text;
    if (r != strlen(want) || strcmp(p, want)) mc::fail("with %zu bytes of room, function %d returned %zu and left \"%.40s\"", size, what, r, p);
    munmap(p, size);
    mc::state(what * 10 + size % 7);
}
}  // namespace

void mc_register() {
    mc::add("copies", copies, 0, -1);
    mc::add("appends", appends, 0, -1);
    mc::add("prints", prints, 0, 2);
    mc::add("lengths", lengths, 0, -1);
    mc::add("scale", scale, 0, -1);
    mc::add("huge", huge, 0, 2);
}

// S05: path and error-text formatting obey the buffer and normalise separators.
#include <errno.h>
#include <limits.h>
#include <sys/mman.h>
#include <amtl/os/am-path.h>
#include <amtl/os/am-system-errors.h>
#include "fmt_cases.h"
#include "str_common.h"
#include <mc/sizes.h>
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-zero-length"

using namespace sc;
namespace {
std::string native(std::string s) { for (char& c : s) if (c == '\\') c = '/'; return s; }
size_t via(char* b, size_t n, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    size_t r = ke::path::FormatVa(b, n, f, ap);
    va_end(ap);
    return r;
}
std::string ref(bool* ok, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = reference(ok, f, ap);
    va_end(ap);
    return s;
}
template <class... A> void one(size_t size, char fill, bool exact, const char* fmt, A... a) {
    bool ok;
    std::string full = native(ref(&ok, fmt, a...));
    for (int va = 0; va < 2; va++) {
        Buf b(size, exact, "", fill);
        size_t r = va ? via(b.p, size, fmt, a...) : ke::path::Format(b.p, size, fmt, a...);
        if (!b.guards_intact()) mc::fail("Format(size %zu) of %s wrote outside the buffer", size, show(full).c_str());
        if (!size) { if (r || !b.untouched()) mc::fail("a zero-sized buffer was used"); continue; }
        if (!memchr(b.p, 0, size)) mc::fail("Format(size %zu) of %s left the buffer unterminated", size, show(full).c_str());
        if (!ok) { if (r != strlen(b.p)) mc::fail("Format reports %zu characters after a failure", r); continue; }
        std::string want = full.substr(0, size - 1);
        if (r != want.size()) mc::fail("Format(size %zu) of %s returned %zu", size, show(full).c_str(), r);
        if (memcmp(b.p, want.c_str(), want.size() + 1)) mc::fail("Format(size %zu) of %s produced %s", size, show(full).c_str(), show(b.now()).c_str());
        mc::observe(r);
    }
}
[[maybe_unused]] void paths() {
    auto strs = all("a\\/", mc::thorough() ? 8 : 6);
    uint64_t lo, hi, n = 0;
    mc::slice(strs.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++)
        for (size_t size = 0; size <= 9; size++)
            for (int exact = 0; exact < 2; exact++) {
                one(size, '\\', exact, "%s", strs[k].c_str());
                one(size, 'Z', exact, strs[k].c_str());
                one(size, 'Z', exact, "\\%s\\", strs[k].c_str());
                n += 3;
            }
    mc::slice(400, &lo, &hi);
    for (uint64_t len = lo; len < hi; len++) {
        std::string s(len, '\\');
        for (size_t j = 0; j < s.size(); j += 3) s[j] = 'd';
        for (int d = -2; d <= 2; d++) if (int64_t(len) + 1 + d >= 0) { one(len + 1 + d, '\\', true, "%s", s.c_str()); n++; }
    }
    // every byte other than the foreign separator is kept
    mc::slice(256, &lo, &hi);
    for (uint64_t c = lo; c < hi; c++) if (c) { char t[] = {char(c), '\\', char(c), 0}; for (size_t size = 0; size < 6; size++) { one(size, '\\', true, "%s", t); n++; } }
    mc::evaluations(n);
    mc::op("paths");
}
[[maybe_unused]] void formats() {
    int kind = mc::choose(3);
    int k = mc::choose(kind == 0 ? fc::kSimple : kind == 1 ? fc::kNul : fc::kBad);
    mc::op("format %d/%d", kind, k);
    for (size_t size = 0; size < 40; size++)
        for (char fill : {'Z', '\\'})
            for (int exact = 0; exact < 2; exact++) {
                auto f = [&](const char* fmt, auto... a) { one(size, fill, exact, fmt, a...); };
                kind == 0 ? fc::simple(k, f) : kind == 1 ? fc::nul(k, f) : fc::bad(k, f);
                mc::evaluations(1);
            }
    mc::state(kind * 100 + k);
}
[[maybe_unused]] void errors() {
    std::vector<int> codes;
    for (int c = -300; c <= 1200; c++) codes.push_back(c);
    for (int c : {INT_MIN, INT_MIN + 1, INT_MAX, 99999, -99999, 1 << 20}) codes.push_back(c);
    uint64_t lo, hi, n = 0;
    mc::slice(codes.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) {
        int code = codes[k];
        char big[512];
        std::string full = strerror_r(code, big, sizeof big);
        for (size_t size = 0; size <= full.size() + 3; size++)
            for (int how = 0; how < 4; how++) {
                Buf b(size, how & 1, "", 'Z');
                if (how & 2) { errno = code; ke::FormatSystemError(b.p, size); }
                else { errno = how ? 0 : EINTR; ke::FormatSystemErrorCode(code, b.p, size); }
                if (!b.guards_intact()) mc::fail("error %d, size %zu: written outside the buffer", code, size);
                if (!size) { if (!b.untouched()) mc::fail("error %d: a zero-sized buffer was written", code); continue; }
                std::string want = full.substr(0, size - 1);
                if (!memchr(b.p, 0, size)) mc::fail("error %d, size %zu: not terminated", code, size);
                if (want != b.p) mc::fail("error %d, size %zu: text is %s, the system says %s", code, size, show(b.p).c_str(), show(full).c_str());
                n++;
            }
        mc::observe(mc::hash_str(full));
    }
    mc::evaluations(n);
    mc::op("errors");
}
[[maybe_unused]] void scale() {
    mc::for_sizes(300, 1 << 17, [](size_t n) {
        std::string s(n, 'd');
        for (size_t k = 0; k < n; k += 3) s[k] = '\\';
        if (n) s[n - 1] = '\\';
        for (size_t size : {n / 2 + 1, n, n + 1, n + 2, n + 100}) { one(size, '\\', true, "%s", s.c_str()); one(size, '\\', true, "%s\\%s", "root", s.c_str()); mc::evaluations(4); }
    });
    mc::op("scale");
}
// A buffer of more than 2^32 bytes (address space only).
[[maybe_unused]] void huge() {
    size_t size = (size_t(1) << (31 + mc::choose(2))) + 5 - mc::choose(10);
    mc::op("a buffer of %zu bytes", size);
    char* p = (char*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) mc::fail("no address space");
    strcpy(p, "ZZZZZZZZZZZZZZZZZZZZ");
    size_t r = ke::path::Format(p, size, "a\\%s\\%d", "b", 7);
    if (r != 5 || strcmp(p, "a/b/7")) mc::fail("with %zu bytes of room, Format returned %zu and left \"%.40s\"", size, r, p);
    strcpy(p, "ZZZZZZZZZZZZZZZZZZZZ");
    ke::FormatSystemErrorCode(ENOENT, p, size);
    if (strcmp(p, strerror(ENOENT))) mc::fail("with %zu bytes of room, the error text is \"%.40s\"", size, p);
    munmap(p, size);
}
}  // namespace

void mc_register() {
#ifdef ERRORS   // run without ASan: its strerror_r interceptor checks strlen(result) bytes of the caller's buffer,
                // although the GNU function returns a pointer elsewhere and writes at most maxlength bytes
    mc::add("errors", errors, 0, -1);
#else
    mc::add("paths", paths, 0, -1);
    mc::add("formats", formats, 0, 2);
    mc::add("scale", scale, 0, -1);
    mc::add("huge", huge, 0, 2);
#endif
}

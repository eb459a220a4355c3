// S02: allocating formatters return the complete formatted text.
#include <amtl/am-string.h>
#include "fmt_cases.h"
#include "str_common.h"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-zero-length"

using namespace sc;
namespace {
__attribute__((format(printf, 1, 0))) std::unique_ptr<char[]> raw_va(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::SprintfArgs(f, ap);
    va_end(ap);
    return r;
}
__attribute__((format(printf, 1, 0))) std::string str_va(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::StringPrintfVa(f, ap);
    va_end(ap);
    return r;
}
std::string ref(bool* ok, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = reference(ok, f, ap);
    va_end(ap);
    return s;
}
void raw(const char* what, std::unique_ptr<char[]> r, bool ok, const std::string& want) {
    if (!ok) { if (r) mc::fail("%s returned a buffer although formatting failed", what); return; }
    if (!r) mc::fail("%s returned no buffer for %s", what, show(want).c_str());
    // reading the terminator as well: the sanitizer catches a buffer that is too small
    if (memcmp(r.get(), want.c_str(), want.size() + 1)) mc::fail("%s of %s (%zu characters) differs", what, show(want).c_str(), want.size());
}
void str(const char* what, const std::string& r, bool ok, const std::string& want) {
    if (!ok) { if (!r.empty()) mc::fail("%s returned %s although formatting failed", what, show(r).c_str()); return; }
    if (r != want) mc::fail("%s returned %s (%zu characters), expected %s (%zu)", what, show(r).c_str(), r.size(), show(want).c_str(), want.size());
}
template <class... A> void all_forms(bool must, const char* fmt, A... a) {
    bool ok;
    std::string want = ref(&ok, fmt, a...);
    MC_CHECK(ok == must, "the C library %s '%s'", ok ? "accepts" : "rejects", fmt);
    raw("Sprintf", ke::Sprintf(fmt, a...), ok, want);
    raw("SprintfArgs", raw_va(fmt, a...), ok, want);
    str("StringPrintf", ke::StringPrintf(fmt, a...), ok, want);
    str("StringPrintfVa", str_va(fmt, a...), ok, want);
    mc::evaluations(4);
    mc::observe(mc::hash_str(want, ok));
}
void cases() {
    int kind = mc::choose(3);
    int k = mc::choose(kind == 0 ? fc::kSimple : kind == 1 ? fc::kNul : fc::kBad);
    mc::op("%s format %d", kind == 0 ? "plain" : kind == 1 ? "embedded NUL" : "failing", k);
    auto f = [&](const char* fmt, auto... a) { for (int rep = 0; rep < 3; rep++) all_forms(kind != 2, fmt, a...); };
    kind == 0 ? fc::simple(k, f) : kind == 1 ? fc::nul(k, f) : fc::bad(k, f);
    mc::state(kind * 100 + k);
}
// Every result length up to a bound and around powers of two, made of one piece or several, with and without NULs.
void lengths() {
    std::vector<size_t> ls;
    for (size_t n = 0; n < (mc::thorough() ? 6000 : 1500); n++) ls.push_back(n);
    for (int b = 11; b <= (mc::thorough() ? 24 : 20); b++) for (int d = -2; d <= 2; d++) ls.push_back((size_t(1) << b) + d);
    uint64_t lo, hi;
    mc::slice(ls.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) {
        size_t n = ls[k];
        std::string s(n, 'x');
        for (size_t j = 0; j < n; j += 7) s[j] = char('a' + j % 26);
        all_forms(true, "%s", s.c_str());
        all_forms(true, "%s%c%s", s.c_str(), 0, s.c_str());
        all_forms(true, "%*d", int(n), 5);
        all_forms(true, "%.*s", int(n / 2), s.c_str());
    }
    mc::op("%zu lengths", ls.size());
}
// Results are independent of each other and of their arguments.
void independent() {
    int a = mc::choose(4), b = mc::choose(4);
    char buf[16];
    strcpy(buf, "first");
    auto x = ke::Sprintf("%s-%d", buf, a);
    std::string sx = ke::StringPrintf("%s-%d", buf, a);
    strcpy(buf, "second");
    auto y = ke::Sprintf("%s-%d", buf, b);
    std::string sy = ke::StringPrintf("%s-%d", buf, b);
    MC_CHECK(x.get() != y.get() && std::string(x.get()) == "first-" + std::to_string(a) && std::string(y.get()) == "second-" + std::to_string(b), "buffers");
    MC_CHECK(sx == x.get() && sy == y.get(), "strings");
    y.reset();
    MC_CHECK(std::string(x.get()) == sx, "after destroying the other");
    mc::op("%d %d", a, b);
    mc::state(a * 4 + b);
}
}  // namespace

#if !defined(KE_WINDOWS)
// The format macros print every value of their type; the digits are computed here, not by the C library.
std::string digits(uint64_t v, unsigned base, bool minus = false) {
    std::string s;
    do s.insert(s.begin(), "0123456789abcdef"[v % base]); while (v /= base);
    return minus ? "-" + s : s;
}
void macros() {
    uint64_t v;
    int e = mc::choose(64), d = mc::choose(3), m = mc::choose(4);
    v = (uint64_t(1) << e) + uint64_t(d) - 1;
    if (mc::flip()) v = ~v;
    const char* const names[] = {"KE_FMT_SIZET", "KE_FMT_I64", "KE_FMT_U64", "KE_FMT_X64"};
    mc::op("%s of %#llx", names[m], (unsigned long long)v);
    bool minus = m == 1 && int64_t(v) < 0;
    std::string want = "<" + digits(minus ? 0 - v : v, m == 3 ? 16 : 10, minus) + ">", got;
    // another argument follows, which a wrong width would misread
    char buf[64];
    size_t n = 0;
    switch (m) {
        case 0: got = ke::StringPrintf("<%" KE_FMT_SIZET ">%c", size_t(v), '!'); n = ke::SafeSprintf(buf, sizeof buf, "<%" KE_FMT_SIZET ">%s", size_t(v), "!"); break;
        case 1: got = ke::StringPrintf("<%" KE_FMT_I64 ">%c", int64_t(v), '!'); n = ke::SafeSprintf(buf, sizeof buf, "<%" KE_FMT_I64 ">%s", int64_t(v), "!"); break;
        case 2: got = ke::StringPrintf("<%" KE_FMT_U64 ">%c", uint64_t(v), '!'); n = ke::SafeSprintf(buf, sizeof buf, "<%" KE_FMT_U64 ">%s", uint64_t(v), "!"); break;
        case 3: got = ke::StringPrintf("<%" KE_FMT_X64 ">%c", uint64_t(v), '!'); n = ke::SafeSprintf(buf, sizeof buf, "<%" KE_FMT_X64 ">%s", uint64_t(v), "!"); break;
    }
    want += "!";
    if (got != want) mc::fail("%s of %#llx printed %s, not %s", names[m], (unsigned long long)v, show(got).c_str(), want.c_str());
    if (n != want.size() || want != buf) mc::fail("%s of %#llx printed %s into a buffer, not %s", names[m], (unsigned long long)v, show(buf).c_str(), want.c_str());
    mc::state(v * 4 + m);
}
#endif

void mc_register() {
#if !defined(KE_WINDOWS)
    mc::add("macros", macros, 0, 2);
#endif
    mc::add("cases", cases, 0, 2);
    mc::add("lengths", lengths, 0, -1);
    mc::add("independent", independent, 0, 2);
}

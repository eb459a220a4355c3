// Exact heap buffers with guard bytes, and enumeration of all short strings.
#pragma once
#include <stdarg.h>
#include <string>
#include <vector>
#include <mc/core.h>

namespace sc {
// A buffer of exactly n bytes inside a larger block (so that stray writes are seen as changed guard bytes) or in a
// block of its own (so that stray reads are seen by the address sanitizer).
struct Buf {
    size_t n;
    bool exact;
    char* block;
    char* p;
    std::string before;      // the whole block at the start
    static constexpr size_t kGuard = 16;
    Buf(size_t n, bool exact, const std::string& content, char fill) : n(n), exact(exact) {
        size_t total = exact ? n : n + 2 * kGuard;
        block = (char*)malloc(total ? total : 1);
        p = exact ? block + (n ? 0 : 1) : block + kGuard;
        if (exact) memset(p, fill, n); else memset(block, fill, total);
        memcpy(p, content.data(), content.size());
        if (exact) before.assign(p, n); else before.assign(block, total);
    }
    ~Buf() { free(block); }
    Buf(const Buf&) = delete;
    std::string now() const { return exact ? std::string(p, n) : std::string(block, n + 2 * kGuard); }
    size_t base() const { return exact ? 0 : kGuard; }
    // Everything equals the starting contents except that `s` plus a terminator stands at the beginning of the buffer.
    bool is(const std::string& s) const {
        std::string want = before;
        want.replace(base(), s.size(), s);
        want[base() + s.size()] = '\0';
        return now() == want;
    }
    bool guards_intact() const {
        std::string a = now();
        if (exact) return true;
        return !a.compare(0, kGuard, before, 0, kGuard) && !a.compare(kGuard + n, kGuard, before, kGuard + n, kGuard);
    }
    bool untouched() const { return now() == before; }
};
// A source of exactly these bytes (terminator only if asked for).
struct Src {
    char* p;
    Src(const std::string& s, bool nul) {
        size_t n = s.size() + nul;
        char* b = (char*)malloc(n ? n : 1);
        memcpy(b, s.data(), s.size());
        if (nul) b[s.size()] = 0;
        p = b;
    }
    ~Src() { free(p); }
    Src(const Src&) = delete;
};
// All strings over an alphabet with length <= n, shortest first.
inline std::vector<std::string> all(const std::string& alpha, size_t n) {
    std::vector<std::string> v{""};
    size_t from = 0;
    for (size_t l = 1; l <= n; l++) {
        size_t to = v.size();
        for (size_t k = from; k < to; k++) for (char c : alpha) v.push_back(v[k] + c);
        from = to;
    }
    return v;
}
inline std::string show(const std::string& s) {
    std::string o = "\"";
    char t[8];
    for (unsigned char c : s.substr(0, 60)) { if (c >= 32 && c < 127) o += char(c); else { snprintf(t, sizeof t, "\\x%02x", c); o += t; } }
    return o + (s.size() > 60 ? "\"..." : "\"");
}
// What the C library produces; ok=false if it reports an error.
inline std::string reference(bool* ok, const char* fmt, va_list ap) {
    va_list two;
    va_copy(two, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap);
    *ok = n >= 0;
    std::string s(n < 0 ? 0 : n + 1, '?');
    if (n >= 0) { vsnprintf(&s[0], n + 1, fmt, two); s.resize(n); }
    va_end(two);
    return s;
}
}  // namespace sc

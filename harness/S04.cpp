// S04: prefix, suffix and case helpers match their definitions on every string.
#include <amtl/am-string.h>
#include "str_common.h"
#include <mc/sizes.h>

using namespace sc;
namespace {
bool ref_starts(const std::string& a, const std::string& b) { return a.size() >= b.size() && !a.compare(0, b.size(), b); }
bool ref_ends(const std::string& a, const std::string& b) { return a.size() >= b.size() && !a.compare(a.size() - b.size(), b.size(), b); }
char lo_c(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
char up_c(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
std::string fold(std::string s, bool up) { for (char& c : s) c = up ? up_c(c) : lo_c(c); return s; }

void affix_one(const std::string& a, const std::string& b) {
    bool anul = a.find('\0') != std::string::npos, bnul = b.find('\0') != std::string::npos;
    if (!bnul) {
        Src y(b, true);
        bool want = ref_starts(a, b);
        if (ke::StartsWith(a, y.p) != want) mc::fail("StartsWith(std::string %s, %s) is %d", show(a).c_str(), show(b).c_str(), !want);
        if (!anul) {
            Src x(a, true);
            if (ke::StartsWith(x.p, y.p) != want) mc::fail("StartsWith(%s, %s) is %d", show(a).c_str(), show(b).c_str(), !want);
        }
    }
    bool want = ref_ends(a, b);
    if (ke::EndsWith(a, b) != want) mc::fail("EndsWith(%s, %s) is %d", show(a).c_str(), show(b).c_str(), !want);
    mc::observe(want);
}
void affixes() {
    bool t = mc::thorough();
    uint64_t lo, hi, n = 0;
    struct { std::string alpha; size_t la, lb; } plans[] = {
        {"ab", size_t(t ? 9 : 7), size_t(t ? 8 : 6)}, {std::string("a\0", 2), 6, 5}, {"aA\xff", 5, 4}, {std::string("a\0\x80z", 4), 4, 3}};
    for (auto& p : plans) {
        auto as = all(p.alpha, p.la), bs = all(p.alpha, p.lb);
        mc::slice(as.size(), &lo, &hi);
        for (uint64_t k = lo; k < hi; k++) for (auto& b : bs) { affix_one(as[k], b); n++; }
    }
    // long strings differing at one place only
    mc::slice(70, &lo, &hi);
    for (uint64_t len = lo; len < hi; len++)
        for (uint64_t at = 0; at <= len; at++) {
            std::string a(len, 'm'), b = a;
            if (at < len) b[at] = 'n';
            for (uint64_t cut = 0; cut <= len; cut += 5) { affix_one(a, b.substr(0, cut)); affix_one(a, b.substr(cut)); affix_one(a + "t", b); affix_one("t" + a, b); affix_one(a, b + "t"); n += 5; }
        }
    mc::evaluations(n);
    mc::op("affixes");
}
void case_one(const std::string& s) {
    Src x(s, true);
    std::string u = ke::Uppercase(x.p), l = ke::Lowercase(x.p);
    if (u != fold(s, true)) mc::fail("Uppercase(%s) is %s", show(s).c_str(), show(u).c_str());
    if (l != fold(s, false)) mc::fail("Lowercase(%s) is %s", show(s).c_str(), show(l).c_str());
    if (s != x.p) mc::fail("the argument was changed");
    if (ke::StrCaseCmp(x.p, x.p) != 0 || ke::StrCaseCmp(x.p, u.c_str()) != 0 || ke::StrCaseCmp(l.c_str(), u.c_str()) != 0)
        mc::fail("StrCaseCmp distinguishes %s from its upper or lower case", show(s).c_str());
}
void cases() {
    uint64_t lo, hi, n = 0;
    mc::slice(65536, &lo, &hi);
    for (uint64_t v = lo; v < hi; v++) {
        std::string s;
        if (v & 255) s += char(v & 255); else s += 'q';
        if (v >> 8) s += char(v >> 8);
        case_one(s);
        case_one("Ab" + s + "Yz");
        n += 2;
    }
    auto strs = all("aZ@[\xe4", mc::thorough() ? 7 : 5);
    mc::slice(strs.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) { case_one(strs[k]); n++; }
    case_one(std::string(5000, 'k'));
    mc::evaluations(n);
    mc::op("case");
}
int sign(int v) { return v < 0 ? -1 : v > 0; }
void compare() {
    auto strs = all("aAbZ_\xc4", mc::thorough() ? 4 : 3);
    for (const char* s : {"[", "`", "{", "z", "@", "aaaaaaaaaaaaaaaaaaaaaaab", "AAAAAAAAAAAAAAAAAAAAAAAB", "AAAAAAAAAAAAAAAAAAAAAAAa", "\x01", "\xff"}) strs.push_back(s);
    uint64_t lo, hi, n = 0;
    mc::slice(strs.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++)
        for (auto& b : strs) {
            const std::string& a = strs[k];
            Src x(a, true), y(b, true);
            int c = ke::StrCaseCmp(x.p, y.p), d = ke::StrCaseCmp(y.p, x.p);
            bool eq = fold(a, false) == fold(b, false);
            if ((c == 0) != eq) mc::fail("StrCaseCmp(%s, %s) is %d", show(a).c_str(), show(b).c_str(), c);
            if (sign(c) != -sign(d)) mc::fail("StrCaseCmp(%s, %s) is %d but %d the other way round", show(a).c_str(), show(b).c_str(), c, d);
            if (sign(ke::StrCaseCmp(fold(a, true).c_str(), y.p)) != sign(c) || sign(ke::StrCaseCmp(x.p, fold(b, false).c_str())) != sign(c))
                mc::fail("StrCaseCmp(%s, %s) depends on the case", show(a).c_str(), show(b).c_str());
            n += 4;
            mc::observe(sign(c) + 1);
        }
    // transitivity over a smaller set
    std::vector<std::string> small = all("aB_\xc4", 2);
    mc::slice(small.size(), &lo, &hi);
    for (uint64_t k = lo; k < hi; k++)
        for (auto& b : small) for (auto& c : small) {
            auto lt = [](const std::string& p, const std::string& q) { return ke::StrCaseCmp(p.c_str(), q.c_str()) < 0; };
            if (lt(small[k], b) && lt(b, c) && !lt(small[k], c)) mc::fail("StrCaseCmp is not transitive on %s, %s, %s", show(small[k]).c_str(), show(b).c_str(), show(c).c_str());
            n++;
        }
    mc::evaluations(n);
    mc::op("compare");
}
void scale() {
    mc::for_sizes(300, 1 << 17, [](size_t n) {
        std::string a(n, 'm'), tail = a + "tZ", head = "Ah" + a, mixed;
        for (size_t k = 0; k < n; k++) mixed += "aBc-"[k % 4];
        for (size_t cut : {size_t(0), n / 2, n ? n - 1 : 0, n}) {
            affix_one(a, a.substr(cut)); affix_one(a.substr(cut), a); affix_one(tail, a.substr(0, cut)); affix_one(tail, tail.substr(cut)); affix_one(head, head.substr(0, cut + 2)); affix_one(head, a);
            std::string diff = a;
            if (cut < n) { diff[cut] = 'n'; affix_one(a, diff); affix_one(tail, diff); affix_one(head, diff); affix_one(a + a, diff);
                std::string up = mixed, other = mixed;
                up[cut] = 'y'; other[cut] = 'Z';
                if (!(ke::StrCaseCmp(up.c_str(), other.c_str()) < 0) || !(ke::StrCaseCmp(other.c_str(), up.c_str()) > 0)) mc::fail("StrCaseCmp of %zu characters that differ at %zu", n, cut); }
            mc::evaluations(10);
        }
        case_one(mixed);
        case_one(mixed + "Qq");
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    mc::add("affixes", affixes, 0, -1);
    mc::add("case", cases, 0, -1);
    mc::add("compare", compare, 0, -1);
    mc::add("scale", scale, 0, -1);
}

// S03: splitting and joining are exact inverses.
#include <amtl/am-string.h>
#include "str_common.h"
#include <mc/sizes.h>

using namespace sc;
using Strings = std::vector<std::string>;
namespace {
Strings ref_split(const std::string& s, const std::string& sep) {
    Strings out;
    if (s.empty()) return out;
    size_t at = 0;
    for (;;) {
        size_t m = s.find(sep, at);
        if (m == std::string::npos) { out.push_back(s.substr(at)); return out; }
        out.push_back(s.substr(at, m - at));
        at = m + sep.size();
    }
}
std::string ref_join(const Strings& v, const std::string& sep) {
    std::string o;
    for (size_t k = 0; k < v.size(); k++) { if (k) o += sep; o += v[k]; }
    return o;
}
std::string shows(const Strings& v) { std::string o = "["; for (auto& s : v) o += (o.size() > 1 ? ", " : "") + show(s); return o + "]"; }
void one(const std::string& s, const std::string& sep) {
    Src a(s, true), b(sep, true);
    Strings want = ref_split(s, sep);
    Strings got = ke::Split(a.p, b.p);
    if (got != want) mc::fail("Split(%s, %s) gave %s, expected %s", show(s).c_str(), show(sep).c_str(), shows(got).c_str(), shows(want).c_str());
    Strings got2 = ke::Split(s, b.p);
    if (got2 != want) mc::fail("Split(std::string %s, %s) gave %s, expected %s", show(s).c_str(), show(sep).c_str(), shows(got2).c_str(), shows(want).c_str());
    std::string back = ke::Join(got, b.p);
    if (back != s) mc::fail("Join(Split(%s, %s)) gave %s", show(s).c_str(), show(sep).c_str(), show(back).c_str());
    mc::state(mc::hash_str(ref_join(want, "\1"), want.size()));
}
void split_all() {
    bool t = mc::thorough();
    uint64_t lo, hi, n = 0;
    struct Plan { const char* alpha; size_t len, sep; } plans[] = {{"ab", size_t(t ? 16 : 11), 4}, {"a,b", size_t(t ? 10 : 7), 3}, {"ab\xff", size_t(t ? 9 : 6), 2}};
    for (auto& p : plans) {
        auto strs = all(p.alpha, p.len);
        auto seps = all(p.alpha, p.sep);
        seps.erase(seps.begin());
        seps.push_back("aaaaaaaaaaaaa");
        seps.push_back("zz");
        mc::slice(strs.size(), &lo, &hi);
        for (uint64_t k = lo; k < hi; k++) for (auto& sep : seps) { one(strs[k], sep); n++; }
    }
    // longer texts: many pieces, long pieces, separators longer than the usual buffers
    mc::slice(64, &lo, &hi);
    for (uint64_t k = lo; k < hi; k++) {
        std::string sep(1 + k % 8 * 5, '-');
        std::string s;
        for (uint64_t j = 0; j < k * 3; j++) s += std::string((j * k) % 40, 'p') + (j % 5 == 4 ? sep.substr(1) : sep);
        one(s, sep);
        one(s + "x", sep);
        n += 2;
    }
    mc::evaluations(n);
    mc::op("split");
}
void join_all() {
    bool t = mc::thorough();
    // pieces of any content, including NULs and the separator itself
    Strings atoms = {"", "a", ",", std::string("\0", 1), std::string("x\0y", 3), "ab,", std::string(40, 'L')};
    Strings seps = {"", ",", "ab", "a", std::string(33, 's')};
    int n = mc::choose(t ? 6 : 5);
    Strings v;
    for (int k = 0; k < n; k++) v.push_back(atoms[mc::choose(int(atoms.size()))]);
    int s = mc::choose(int(seps.size()));
    mc::op("join %d pieces by %s", n, show(seps[s]).c_str());
    Src sep(seps[s], true);
    Strings copy = v;
    std::string got = ke::Join(v, sep.p), want = ref_join(v, seps[s]);
    MC_CHECK(got == want, "Join(%s, %s) gave %s, expected %s", shows(v).c_str(), show(seps[s]).c_str(), show(got).c_str(), show(want).c_str());
    MC_CHECK(v == copy, "Join changed its argument");
    mc::state(mc::hash_str(want, n));
    mc::observe(mc::hash_str(want));
}
// Many pieces, long pieces, long separators.
void scale() {
    mc::for_sizes(300, 1 << 16, [](size_t n) {
        // Splitting into n pieces is quadratic under AddressSanitizer (its strstr measures the rest of the text).
        for (size_t seplen : {size_t(1), size_t(3)}) {
            if (n > 5000 && (seplen > 1 || ((n - 1) & (n - 2)) != 0)) continue;
            const std::string sep(seplen, ',');
            std::string pieces, empty;
            for (size_t k = 0; k < n; k++) { pieces += std::to_string(k % 13); if (k + 1 < n) pieces += sep; empty += sep; }
            one(pieces, sep);
            if (n < 5000) one(empty, sep);
        }
        const std::string piece(n, 'p'), sep(n + 1, ';');
        one(piece, ",");
        one(piece + "," + piece + ",x", ",");
        one("a" + sep + piece + sep, sep);
        if (n < 2000) one(piece + std::string(n, ';'), sep);
        mc::evaluations(8);
        Strings v{piece, "", piece + "q", "r"};
        if (ke::Join(v, sep.c_str()) != ref_join(v, sep)) mc::fail("Join of pieces of %zu characters", n);
        Strings many(n, "ab");
        if (ke::Join(many, "-") != ref_join(many, "-") || ke::Join(many, "") != ref_join(many, "")) mc::fail("Join of %zu pieces", n);
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    mc::add("split", split_all, 0, -1);
    mc::add("join", join_all, 0, 3);
    mc::add("scale", scale, 0, -1);
}

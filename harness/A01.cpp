// A01: the argument parser assigns every argument exactly as its grammar says.
#include "arg_common.h"
#include <mc/sizes.h>
using namespace ac;

namespace {
uint64_t g_n;
void run(const std::vector<Decl>& ds, const Config& c, const Args& a, int entry) {
    Result want = expect(ds, c, a);
    if (want.unspecified) return;
    Real r(ds, c);
    bool ok = parse(*r.p, a, entry);
    g_n++;
    if (ok != want.ok) mc::fail("{%s} %s (entry %d) is %s", c.str().c_str(), show(a).c_str(), entry, ok ? "accepted" : "rejected");
    if (!ok) return;
    std::string got = r.snapshot();
    if (got != want.snapshot) mc::fail("{%s} %s (entry %d) gives %s, not %s", c.str().c_str(), show(a).c_str(), entry, got.c_str(), want.snapshot.c_str());
    mc::observe(mc::hash_str(got));
}
// All vectors of exactly n tokens over the alphabet.
template <class F> void vectors(const std::vector<std::string>& t, int n, F f) {
    std::vector<size_t> ix(n, 0);
    Args a(n);
    for (;;) {
        for (int k = 0; k < n; k++) a[k] = t[ix[k]];
        f(a);
        int k = n - 1;
        while (k >= 0 && ++ix[k] == t.size()) ix[k--] = 0;
        if (k < 0) return;
    }
}
void pairs(int set) {          // every one- and two-token vector, every configuration, every entry point
#ifdef __SANITIZE_ADDRESS__
    static const int cfgs[] = {0, 31, 3, 26}, poss[] = {0, 2};
    int cfg = cfgs[mc::choose(4)], pos = poss[mc::choose(2)];
#else
    int cfg = mc::choose(32), pos = mc::choose(4);
#endif
    int part = mc::choose(4), turn = 0;
    Config c = Config::of(cfg);
    auto ds = set_of(set, pos);
    mc::op("set %d, %d positionals, {%s}, quarter %d", set, pos, c.str().c_str(), part);
    g_n = 0;
    for (int e = 0; e < kEntries; e++) {
        run(ds, c, {}, e);
        vectors(tokens(set), 1, [&](const Args& a) { run(ds, c, a, e); });
    }
    vectors(tokens(set), 2, [&](const Args& a) { if (turn++ % 4 != part) return; if (mc::thorough()) for (int e = 0; e < kEntries; e++) run(ds, c, a, e); else run(ds, c, a, int(g_n % kEntries)); });
    mc::evaluations(g_n);
    mc::state(((set * 32 + cfg) * 4 + pos) * 4 + part);
}
// Longer vectors over representative tokens: those whose meaning depends on what stands around them.
const std::vector<std::string>& core(int set) {
    static const std::vector<std::string> c0{"-s", "--str=x", "-sx", "-b", "true", "-e", "--no-enable", "-t", "-v", "-i", "-r", "5", "-5", "x", "--", "-h", "/s", "", "-n:6", "--no-q"};
    static const std::vector<std::string> c1{"-so", "-s", "-soo", "--x", "--no-x", "--no-y", "-y", "--flag", "false", "-D", "-DX=1", "-D:X=1", "-O", "-O2", "3", "word", "--", "--no-z", "--help"};
    static const std::vector<std::string> c2{"-c", "red", "-blue", "--paint", "--color=red", "-z", "5x", "--size=", "-v", "7", "-q", "true", "-k", "-p", "go", "stop", "-pstop", "--step=go", "-e", "--"};
    return set == 2 ? c2 : set ? c1 : c0;
}
void longer(int set, int n) {
    static const int cfgs[] = {0, 31, 1, 8, 16, 24, 2, 4, 9, 27, 30};
    int cfg = cfgs[mc::choose(mc::thorough() ? 11 : 5)], pos = mc::choose(mc::thorough() ? 4 : 3);
    auto& t = core(set);
    int first = mc::choose(int(t.size()));
    Config c = Config::of(cfg);
    auto ds = set_of(set, pos);
    mc::op("set %d, %d positionals, {%s}, %s ...", set, pos, c.str().c_str(), t[first].c_str());
    g_n = 0;
    vectors(t, n - 1, [&](const Args& rest) { Args a{t[first]}; a.insert(a.end(), rest.begin(), rest.end()); run(ds, c, a, int(g_n % kEntries)); });
    mc::evaluations(g_n);
    mc::state(((set * 32 + cfg) * 4 + pos) * 64 + first);
}
// Long vectors over very few tokens.
#ifdef __SANITIZE_ADDRESS__
const int kDeep = 4;
#else
const int kDeep = 6;
#endif
void deep(int which) {
    static const std::vector<std::string> sets[] = {{"-b", "false", "x", "--"}, {"-i", "--", "-r", "5"}, {"-s", "-i", "-n", "-5"}, {"--no-enable", "-v", "x", "-e"}, {"", "/i", "-ix", "-i:x"}};
    auto& t = sets[which];
#ifdef __SANITIZE_ADDRESS__
    static const int cfgs[] = {0, 31};
    int cfg = cfgs[mc::choose(2)], pos = mc::choose(3);
#else
    int cfg = mc::choose(32), pos = mc::choose(3);
#endif
    Config c = Config::of(cfg);
    auto ds = set_of(0, pos);
    mc::op("tokens %d, %d positionals, {%s}", which, pos, c.str().c_str());
    g_n = 0;
    for (int n = 3; n <= kDeep + mc::thorough(); n++) vectors(t, n, [&](const Args& a) { run(ds, c, a, int(g_n % kEntries)); });
    mc::evaluations(g_n);
    mc::state((which * 32 + cfg) * 4 + pos);
}
// Every argument that can be spelled with a few characters.
void spelled() {
    static const char* sym[] = {"-", "/", "=", ":", "s", "e", "n", "1", "no-"};
    static const std::vector<Decl> ds = {{STR, "s", "se", nullptr, -1}, {ENABLE, "e", "e", nullptr, 0}, {INT, "n", "n1", nullptr, -1}, {BOOL, "ss", "s", nullptr, -1}, {RSTR, "se", "1", nullptr, -1}};
    bool inl = mc::choose(2), slash = mc::choose(2), extra = mc::choose(2);
    int first = mc::choose(9), followed = mc::choose(2);
    Config c{extra, inl, slash, extra, slash};
    mc::op("%s... %s {%s}", sym[first], followed ? "[1]" : "", c.str().c_str());
    g_n = 0;
#ifdef __SANITIZE_ADDRESS__
    int max = 4 - followed + mc::thorough();
#else
    int max = 5 - followed + mc::thorough();
#endif
    std::vector<int> ix;
    for (;;) {
        Args a{sym[first]};
        for (int k : ix) a[0] += sym[k];
        if (followed) a.push_back("1");
        run(ds, c, a, int(g_n % kEntries));
        if (int(ix.size()) + 1 < max) { ix.push_back(0); continue; }
        while (!ix.empty() && ++ix.back() == 9) ix.pop_back();
        if (ix.empty()) break;
    }
    mc::evaluations(g_n);
    mc::state((inl * 4 + slash * 2 + extra) * 32 + first * 2 + followed);
}
// Long values and names, many arguments, repetitions, positionals and options.
void scale() {
    g_n = 0;
#ifdef __SANITIZE_ADDRESS__
    const size_t max = mc::thorough() ? 1 << 17 : 1 << 13;
#else
    const size_t max = mc::thorough() ? 1 << 18 : 1 << 17;
#endif
    mc::for_sizes(150, max, [](size_t n) {
        static const std::vector<Decl> ds = {{STR, "s", "str", nullptr, -1}, {ENABLE, "e", "enable", nullptr, 0}, {BOOL, "b", "bool", nullptr, -1}, {RSTR, "i", "inc", nullptr, -1}, {RINT, "r", "rep", nullptr, -1}, {INT, "n", "num", nullptr, -1}};
        std::string v(n, 'v');
        for (size_t k = 0; k < n; k++) v[k] = char('a' + k % 23);
        auto all = [](const std::vector<Decl>& ds, const Config& c, const Args& a) { for (int e = 0; e < (a.size() > 7 ? 3 : kEntries); e++) run(ds, c, a, e); };
        for (int k : {0, 31, 8 | 2}) {
            Config c = Config::of(k);
            // one long value, however given
            all(ds, c, {"-s", v});
            all(ds, c, {"--str=" + v});
            all(ds, c, {"-s=" + v, "-i", v, "--inc=" + v});
            all(ds, c, {"-s" + v});
            all(ds, c, {"--str:" + v});
            all(ds, c, {"/s:" + v});
            all(ds, c, {"-n", std::string(n, '0') + "5"});
            all(ds, c, {"-n=" + std::string(n, '1')});
            all(ds, c, {"-" + v});
            all(ds, c, {"--" + v, "-e"});
            all(ds, c, {"--no-" + v});
            all(ds, c, {"--enable" + v});
            all(ds, c, {v, v});
            all(ds, c, {"--", v, "-s"});
            if (n > 5000 && k != 31) continue;
            // n arguments
            Args extra, repeated, numbers, mixed, passed{"-e", "--"};
            for (size_t j = 0; j < n; j++) {
                std::string x = "x" + std::to_string(j);
                extra.push_back(x);
                repeated.push_back(j % 2 ? "--inc=" + x : "-i");
                if (!(j % 2)) repeated.push_back(x);
                numbers.push_back("--rep=" + std::to_string(j));
                mixed.push_back(j % 3 ? x : "-i" + x);
                passed.push_back(j % 3 ? x : "-s");
            }
            for (const Args& a : {extra, repeated, numbers, mixed, passed}) {
                all(ds, c, a);
                Args b = a;
                b.push_back("-s");
                b.push_back("end");
                all(ds, c, b);
                b.insert(b.begin(), "-e");
                b.pop_back();
                all(ds, c, b);
            }
            // names of n characters and their neighbours
            if (n > 1) {
                std::string shorter = v.substr(0, n - 1), other = shorter + "#";
                std::vector<Decl> named = {{STR, nullptr, v.c_str(), nullptr, -1}, {ENABLE, nullptr, other.c_str(), nullptr, 1}, {INT, shorter.c_str(), nullptr, nullptr, -1}};
                if (shorter == "h") continue;
                all(named, c, {"--" + v, "x"});
                all(named, c, {"--" + v + "=x", "--no-" + other});
                all(named, c, {"--" + other});
                all(named, c, {"-" + shorter, "5"});
                all(named, c, {"--" + shorter, "5"});
                all(named, c, {"-" + shorter + "=5", "--" + v, shorter});
                all(named, c, {"--" + v + "z=x"});
            }
            // n positionals, n options
            if (n > 600) continue;
            std::vector<std::string> names;
            for (size_t j = 0; j < n; j++) names.push_back("p" + std::to_string(j));
            std::vector<Decl> pos, opt;
            Args pv, ov;
            for (size_t j = 0; j < n; j++) {
                pos.push_back({STR, nullptr, nullptr, names[j].c_str(), -1});
                pv.push_back("v" + std::to_string(j * 3));
                opt.push_back({j % 3 ? INT : ENABLE, nullptr, names[j].c_str(), nullptr, -1});
                ov.push_back("--" + names[n - 1 - j] + ((n - 1 - j) % 3 ? "=" + std::to_string(j) : ""));
            }
            all(pos, c, pv);
            all(opt, c, ov);
            all(opt, c, {});
            if (n) {
                Args fewer(pv.begin(), pv.end() - 1);
                all(pos, c, fewer);
                pv.push_back("more");
                all(pos, c, pv);
                all(opt, c, {ov[0]});
            }
        }
        mc::state(n);
    });
    mc::evaluations(g_n);
    mc::op("scale");
}
}  // namespace

void mc_register() {
#ifdef __SANITIZE_ADDRESS__
    const int n = mc::thorough() ? 4 : 3;
#else
    const int n = mc::thorough() ? 5 : 4;
#endif
    mc::add("pairs0", [] { pairs(0); }, 0, 3);
    mc::add("pairs1", [] { pairs(1); }, 0, 3);
    mc::add("pairs2", [] { pairs(2); }, 0, 3);
    mc::add("longer0", [n] { longer(0, n); }, 0, 3);
    mc::add("longer1", [n] { longer(1, n); }, 0, 3);
    mc::add("longer2", [n] { longer(2, n); }, 0, 3);
    mc::add("spelled", spelled, 0, 2);
    for (int k = 0; k < 5; k++) mc::add("deep" + std::to_string(k), [k] { deep(k); }, 0, 2);
    mc::add("scale", scale, 0, -1);
}

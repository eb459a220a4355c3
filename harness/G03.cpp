// G03: what the platform headers conclude from the macros a compiler predefines.
// The sets of predefined macros are enumerated; the headers of the tree are preprocessed with nothing else predefined.
#include <mc/core.h>
#include <dirent.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace {
typedef std::vector<std::string> Words;
std::string repo() { const char* r = getenv("AMTL_REPO"); return r ? r : "/repo"; }
struct Scratch {
    std::string dir;
    Scratch() {
        char t[] = "/tmp/g03.XXXXXX";
        if (!mkdtemp(t)) mc::fail("driver: mkdtemp");
        dir = t;
    }
    ~Scratch() {
        for (const char* n : {"in.cpp", "out", "err"}) unlink((dir + "/" + n).c_str());
        rmdir(dir.c_str());
    }
};
struct Result { bool ok; std::string out, err; };
std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
// Preprocesses text as a compiler with these predefined macros would.
Result preprocess(const Words& predefined, const std::string& text) {
    Scratch d;
    std::string src;
    for (auto& w : predefined) src += "#define " + w.substr(0, w.find('=')) + " " + (w.find('=') == std::string::npos ? "1" : w.substr(w.find('=') + 1)) + "\n";
    std::ofstream(d.dir + "/in.cpp") << src + text;
    int st = system(("g++ -E -P -undef -nostdinc -nostdinc++ -x c++ -I" + repo() + " " + d.dir + "/in.cpp >" + d.dir + "/out 2>" + d.dir + "/err </dev/null").c_str());
    mc::transitions(1);
    return {WIFEXITED(st) && WEXITSTATUS(st) == 0, slurp(d.dir + "/out"), slurp(d.dir + "/err")};
}
std::string list(const Words& w) { std::string s; for (auto& x : w) s += (s.empty() ? "" : " ") + x; return s; }
// What is defined after the headers: asked one by one.
std::set<std::string> defined_of(const Result& r) {
    std::set<std::string> s;
    std::istringstream in(r.out);
    for (std::string w; in >> w;) if (w.compare(0, 3, "is_") == 0) s.insert(w.substr(3));
    return s;
}
const char* const kAsked[] = {"LINUX", "WINDOWS", "MACOSX", "FREEBSD", "NETBSD", "OPENBSD", "SOLARIS", "EMSCRIPTEN", "MACH", "BSD", "POSIX",
                              "ARCH_X64", "ARCH_X86", "ARCH_ARM64", "ARCH_ARM", "ARCH_UNKNOWN", "CXX_CLANG", "CXX_GCC", "CXX_MSVC", "CXX_LIKE_GCC"};
struct Fact { Words predefined, expected; };
const Fact kSystems[] = {
    {{"__linux__", "__linux", "__unix__", "__gnu_linux__"}, {"LINUX", "POSIX"}},
    {{"__linux__", "__ANDROID__", "__unix__"}, {"LINUX", "POSIX"}},
    {{"__EMSCRIPTEN__", "__unix__"}, {"EMSCRIPTEN", "POSIX"}},
    {{"__FreeBSD__=13", "__unix__"}, {"FREEBSD", "BSD", "POSIX"}},
    {{"__NetBSD__", "__unix__"}, {"NETBSD", "BSD", "POSIX"}},
    {{"__OpenBSD__", "__unix__"}, {"OPENBSD", "BSD", "POSIX"}},
    {{"__APPLE__", "__MACH__"}, {"MACOSX", "MACH", "BSD", "POSIX"}},
    {{"__MACH__"}, {"MACH", "BSD", "POSIX"}},
    {{"_WIN32", "_WIN64"}, {"WINDOWS"}},
    {{"_WIN32", "WIN32", "__MINGW32__"}, {"WINDOWS"}},
    {{"__sun__", "__sun", "__svr4__", "__unix__"}, {"SOLARIS", "POSIX"}},
};
const Fact kMachines[] = {
    {{"__x86_64", "__x86_64__", "__amd64", "__amd64__"}, {"ARCH_X64"}}, {{"__x86_64__"}, {"ARCH_X64"}}, {{"__amd64__"}, {"ARCH_X64"}}, {{"_M_X64=100"}, {"ARCH_X64"}},
    {{"__i386", "__i386__", "i386", "__i686", "__i686__"}, {"ARCH_X86"}}, {{"__i386__"}, {"ARCH_X86"}}, {{"_M_IX86=600"}, {"ARCH_X86"}},
    {{"__aarch64__", "__ARM_ARCH=8"}, {"ARCH_ARM64"}}, {{"_M_ARM64"}, {"ARCH_ARM64"}},
    {{"__arm__", "__ARM_ARCH=7"}, {"ARCH_ARM"}}, {{"_M_ARM=7"}, {"ARCH_ARM"}},
    {{"__riscv", "__riscv_xlen=64"}, {"ARCH_UNKNOWN"}}, {{"__powerpc64__"}, {"ARCH_UNKNOWN"}}, {{"__wasm__"}, {"ARCH_UNKNOWN"}},
};
const Fact kCompilers[] = {
    {{"__GNUC__=13", "__GNUC_MINOR__=3"}, {"CXX_GCC", "CXX_LIKE_GCC"}},
    {{"__clang__", "__clang_major__=18", "__clang_minor__=1", "__GNUC__=4", "__GNUC_MINOR__=2"}, {"CXX_CLANG", "CXX_LIKE_GCC"}},
    {{"__clang__", "__clang_major__=18", "__clang_minor__=1", "_MSC_VER=1930"}, {"CXX_CLANG", "CXX_LIKE_GCC"}},
    {{"_MSC_VER=1930"}, {"CXX_MSVC"}},
};
template <int N> int count(const Fact (&)[N]) { return N; }
void add(Words* w, const Words& more) { w->insert(w->end(), more.begin(), more.end()); }

void targets() {
    const Fact& s = kSystems[mc::choose(count(kSystems))];
    const Fact& m = kMachines[mc::choose(count(kMachines))];
    const Fact& c = kCompilers[mc::choose(count(kCompilers))];
    bool ms = list(c.predefined).find("_MSC_VER") != std::string::npos, win = s.expected[0] == "WINDOWS";
    // only Microsoft's (or a compatible) compiler names machines its way, and only on its system
    if (m.predefined[0].compare(0, 3, "_M_") == 0 && !ms) mc::prune();
    if (ms && (!win || list(s.predefined).find("MINGW") != std::string::npos)) mc::prune();
    Words pre, want;
    for (auto* f : {&s, &m, &c}) add(&pre, f->predefined), add(&want, f->expected);
    mc::op("predefined: %s", list(pre).c_str());
    std::string text;
    const char* const headers[] = {"am-platform.h", "am-linking.h", "am-cxx.h"};
    for (const char* h : headers) text += std::string("#include <amtl/") + h + ">\n";
    for (const char* a : kAsked) text += std::string("#ifdef KE_") + a + "\nis_" + a + "\n#endif\n";
    text += "LINKONCE KE_LINKONCE(int x)\nIMPORT KE_DLL_IMPORT\nEXPORT KE_DLL_EXPORT\nPRIVATE KE_DLL_PRIVATE\nEND\n";
    Result r = preprocess(pre, text);
    if (!r.ok) mc::fail("with %s: %s", list(pre).c_str(), r.err.substr(0, 300).c_str());
    std::set<std::string> have = defined_of(r), wanted(want.begin(), want.end());
    for (auto& x : wanted) if (!have.count(x)) mc::fail("KE_%s is missing with %s", x.c_str(), list(pre).c_str());
    for (auto& x : have) if (!wanted.count(x)) mc::fail("KE_%s is defined with %s", x.c_str(), list(pre).c_str());
    // How symbols are marked follows the compiler.
    std::map<std::string, std::string> line;
    std::string key, w;
    std::istringstream in(r.out.substr(r.out.find("LINKONCE")));
    while (in >> w) {
        if (w == "LINKONCE" || w == "IMPORT" || w == "EXPORT" || w == "PRIVATE" || w == "END") key = w;
        else line[key] += w + " ";
    }
    auto has = [&](const char* k, const char* t) { return line[k].find(t) != std::string::npos; };
    if (!has("LINKONCE", ms ? "selectany" : "weak") || !has("LINKONCE", "int x")) mc::fail("link-once is %s with %s", line["LINKONCE"].c_str(), list(pre).c_str());
    if (ms ? !has("IMPORT", "dllimport") || !has("EXPORT", "dllexport") || has("PRIVATE", "dllexport") : !has("EXPORT", "default") || !has("PRIVATE", "hidden") || has("IMPORT", "dll"))
        mc::fail("symbols are marked %s/ %s/ %swith %s", line["IMPORT"].c_str(), line["EXPORT"].c_str(), line["PRIVATE"].c_str(), list(pre).c_str());
    mc::state(mc::hash_str(list(pre)));
}

// Versions: a comparison is by major, then minor; what is too old is refused.
struct Version { int major, minor; };
const Version kVersions[] = {{3, 0}, {3, 3}, {3, 4}, {3, 5}, {3, 9}, {4, 0}, {4, 2}, {4, 8}, {4, 9}, {5, 0}, {5, 4}, {7, 5}, {9, 0}, {10, 1}, {13, 3}, {18, 1}, {99, 0}};
constexpr int kV = sizeof kVersions / sizeof *kVersions;
bool at_least(Version a, Version b) { return a.major != b.major ? a.major > b.major : a.minor >= b.minor; }
void versions() {
    bool clang = mc::flip();
    Version v = kVersions[mc::choose(kV)];
    Words pre = {"__linux__", "__x86_64__"};
    std::string a = "=" + std::to_string(v.major), b = "=" + std::to_string(v.minor);
    if (clang) add(&pre, {"__clang__", "__clang_major__" + a, "__clang_minor__" + b, "__GNUC__=4", "__GNUC_MINOR__=2"});
    else add(&pre, {"__GNUC__" + a, "__GNUC_MINOR__" + b});
    mc::op("%s %d.%d", clang ? "clang" : "gcc", v.major, v.minor);
    std::string text = "#include <amtl/am-cxx.h>\n", macro = clang ? "KE_CLANG_AT_LEAST" : "KE_GCC_AT_LEAST";
    for (int k = 0; k < kV; k++)
        for (int form = 0; form < 3; form++) {
            std::string x = std::to_string(kVersions[k].major), y = std::to_string(kVersions[k].minor);
            std::string call = form == 0 ? macro + "(" + x + ", " + y + ")" : form == 1 ? "!" + macro + "(" + x + ", " + y + ")" : macro + "(" + x + ", " + y + ") && 1";
            text += "#if " + call + "\nyes\n#else\nno\n#endif\n";
        }
    if (clang) text += "KE_CLANG_MAJOR KE_CLANG_MINOR\n";
    Result r = preprocess(pre, text);
    bool old = !at_least(v, clang ? Version{3, 4} : Version{4, 9});
    if (old) {
        if (r.ok) mc::fail("%s %d.%d is accepted", clang ? "clang" : "gcc", v.major, v.minor);
        return;
    }
    if (!r.ok) mc::fail("%s %d.%d: %s", clang ? "clang" : "gcc", v.major, v.minor, r.err.substr(0, 300).c_str());
    std::istringstream in(r.out);
    std::string w;
    for (int k = 0; k < kV; k++)
        for (int form = 0; form < 3; form++) {
            bool want = at_least(v, kVersions[k]) != (form == 1);
            if (!(in >> w) || w != (want ? "yes" : "no"))
                mc::fail("%s %d.%d: %s%s(%d, %d) is wrong", clang ? "clang" : "gcc", v.major, v.minor, form == 1 ? "!" : "", macro.c_str(), kVersions[k].major, kVersions[k].minor);
            mc::evaluations(1);
        }
    if (clang) {
        int a = -1, b = -1;
        in >> a >> b;
        if (a != v.major || b != v.minor) mc::fail("clang %d.%d is taken for %d.%d", v.major, v.minor, a, b);
    }
    mc::state(v.major * 1000 + v.minor * 2 + clang);
}
// Apple numbers its compilers otherwise; the header says which they are, and they are accepted and compared as that.
void apple() {
    static const struct { Version apple, real; } k[] = {{{4, 0}, {3, 1}}, {{4, 1}, {3, 2}}, {{5, 0}, {3, 3}}, {{5, 1}, {3, 4}}, {{6, 0}, {3, 5}}};
    auto& c = k[mc::choose(5)];
    Words pre = {"__APPLE__", "__MACH__", "__x86_64__", "__apple_build_version__=5030040", "__clang__", "__clang_major__=" + std::to_string(c.apple.major),
                 "__clang_minor__=" + std::to_string(c.apple.minor), "__GNUC__=4", "__GNUC_MINOR__=2"};
    mc::op("Apple clang %d.%d", c.apple.major, c.apple.minor);
    std::string text = "#include <amtl/am-cxx.h>\nKE_CLANG_MAJOR KE_CLANG_MINOR\n";
    for (auto& v : kVersions) text += "#if KE_CLANG_AT_LEAST(" + std::to_string(v.major) + ", " + std::to_string(v.minor) + ")\nyes\n#else\nno\n#endif\n";
    Result r = preprocess(pre, text);
    mc::state(c.apple.major * 10 + c.apple.minor);
    if (!at_least(c.real, {3, 4})) {
        if (r.ok) mc::fail("Apple's clang %d.%d, which is clang %d.%d, is accepted", c.apple.major, c.apple.minor, c.real.major, c.real.minor);
        return;
    }
    int a = -1, b = -1;
    std::istringstream in(r.out);
    in >> a >> b;
    if (!r.ok || a != c.real.major || b != c.real.minor) mc::fail("Apple's clang %d.%d is taken for %d.%d, not %d.%d", c.apple.major, c.apple.minor, a, b, c.real.major, c.real.minor);
    for (auto& v : kVersions) {
        std::string w;
        if (!(in >> w) || w != (at_least(c.real, v) ? "yes" : "no"))
            mc::fail("Apple's clang %d.%d, which is clang %d.%d: KE_CLANG_AT_LEAST(%d, %d) is wrong", c.apple.major, c.apple.minor, c.real.major, c.real.minor, v.major, v.minor);
        mc::evaluations(1);
    }
}
void unsupported() {
    static const struct { Words pre; bool ok; } k[] = {
        {{"_WIN32", "_M_X64=100", "_MSC_VER=1800"}, false}, {{"_WIN32", "_M_X64=100", "_MSC_VER=1899"}, false}, {{"_WIN32", "_M_X64=100", "_MSC_VER=1900"}, true},
        {{"_WIN32", "_M_X64=100", "_MSC_VER=1940"}, true}, {{"__sun__", "__SUNPRO_CC=0x5150"}, false}};
    auto& c = k[mc::choose(5)];
    mc::op("%s", list(c.pre).c_str());
    Result r = preprocess(c.pre, "#include <amtl/am-platform.h>\n#include <amtl/am-cxx.h>\n");
    if (r.ok != c.ok) mc::fail("%s is %s", list(c.pre).c_str(), r.ok ? "accepted" : ("refused: " + r.err.substr(0, 200)).c_str());
    mc::state(mc::hash_str(list(c.pre)));
}
}  // namespace

void mc_register() {
    mc::add("targets", targets, 0, 3);
    mc::add("versions", versions, 0, 2);
    mc::add("apple", apple, 0, 1);
    mc::add("unsupported", unsupported, 0, 1);
}

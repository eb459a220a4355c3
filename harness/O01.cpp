// O01: a shared library stays loaded exactly as long as it is referenced.
// The loader is a stand-in with every outcome (O01.cpp), or the real one (O01r.cpp).
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
#include <limits.h>
#include <stdlib.h>
#include <map>
#include <memory>
#include <optional>
#include <amtl/am-string.h>
#include "str_common.h"
#include <mc/sizes.h>

namespace ld {
void* open(const char* path, int flags);
int close(void* lib);
void* sym(void* lib, const char* name);
char* error();
}  // namespace ld
#ifndef REAL
#    define dlopen ld::open
#    define dlclose ld::close
#    define dlsym ld::sym
#    define dlerror ld::error
#endif
#include <amtl/os/am-shared-library.h>
#undef dlopen
#undef dlclose
#undef dlsym
#undef dlerror

using ke::RefPtr;
using ke::SharedLib;
namespace ld {
// POSIX loader: one handle per library, counted; the error text of the last failure until it is fetched.
struct Lib { int count = 0; int data[2]; };
Lib g_libs[3];
bool g_has_error;
std::string g_error;
std::string g_long;           // also a path of library 1 and a symbol in it
std::string g_message = "no such library";
int g_calls;
void reset() {
    for (Lib& l : g_libs) l.count = 0;
    g_has_error = false;
    g_calls = 0;
    g_message = "no such library";
    g_long.clear();
}
int index(void* h) {
    for (int k = 0; k < 3; k++) if (h == &g_libs[k]) return k;
    return -1;
}
void set_error(const std::string& s) { g_has_error = true; g_error = s; }
void* open(const char* path, int flags) {
    g_calls++;
    if (!path) mc::fail("dlopen of a null path");
    std::string p = path;
    if (p == "missing") { set_error(g_message); return nullptr; }
    if (p == "unresolved") { if (flags & RTLD_NOW) { set_error(g_message); return nullptr; } g_libs[2].count++; return &g_libs[2]; }
    if (!g_long.empty() && p == g_long) { g_libs[1].count++; return &g_libs[1]; }
    if (p != "lib0" && p != "lib1") mc::fail("dlopen of '%s'", path);
    Lib& l = g_libs[p[3] - '0'];
    l.count++;
    return &l;
}
int close(void* h) {
    g_calls++;
    int k = index(h);
    if (k < 0) mc::fail("dlclose of a handle that was never opened");
    if (!g_libs[k].count) mc::fail("library %d is unloaded once too often", k);
    g_libs[k].count--;
    return 0;
}
void* sym(void* h, const char* name) {
    g_calls++;
    int k = index(h);
    if (k < 0) mc::fail("dlsym of a handle that was never opened");
    if (!g_libs[k].count) mc::fail("dlsym of an unloaded library");
    std::string n = name;
    if (n == "x") return &g_libs[k].data[0];
    if (n == "y" && k == 1) return &g_libs[k].data[1];
    if (k == 1 && !g_long.empty() && n == g_long) return &g_libs[1].data[1];
    set_error("undefined symbol: " + n);
    return nullptr;
}
char* error() {
    g_calls++;
    if (!g_has_error) return nullptr;
    g_has_error = false;
    return &g_error[0];
}
}  // namespace ld

namespace {
using sc::Buf;
constexpr int N = 3;            // handle slots
struct Obj { int lib; int refs; };
struct World {
    RefPtr<SharedLib> slot[N];
    int obj[N] = {-1, -1, -1};  // model: which handle object each slot refers to
    std::map<int, Obj> objs;
    int next = 0, extra[3] = {0, 0, 0};    // extra: owned by the driver itself
    void drop(int s) {
        if (obj[s] >= 0 && !--objs[obj[s]].refs) objs.erase(obj[s]);
        obj[s] = -1;
    }
    void point(int s, int o) { if (o >= 0) objs[o].refs++; drop(s); obj[s] = o; }
    int fresh(int lib) { objs[next] = {lib, 0}; return next++; }
    void check() {
        int want[3] = {extra[0], extra[1], extra[2]};
        for (auto& [o, x] : objs) want[x.lib]++;
        uint64_t h = 0;
        for (int k = 0; k < 3; k++) {
            if (ld::g_libs[k].count != want[k]) mc::fail("library %d is loaded %d times, %d handles own it", k, ld::g_libs[k].count, want[k]);
            h = mc::mix(h, want[k]);
        }
        for (int s = 0; s < N; s++) {
            if (!!slot[s] != (obj[s] >= 0)) mc::fail("slot %d is %s", s, slot[s] ? "set" : "null");
            h = mc::mix(h, obj[s] < 0 ? 9 : objs[obj[s]].lib);
            if (obj[s] < 0) continue;
            if (!slot[s]->valid() || !*slot[s]) mc::fail("slot %d is not valid", s);
            for (int t = 0; t < s; t++) { if ((slot[s] == slot[t]) != (obj[s] == obj[t])) mc::fail("slots %d and %d", s, t); h = mc::mix(h, obj[s] == obj[t]); }
        }
        mc::state(h);
    }
    // open into an error buffer of every interesting size, or none
    void open(int s, const char* path, int lib) {
        static const int sizes[] = {-1, 0, 1, 2, 8, 40};
        int size = lib < 0 ? sizes[mc::choose(6)] : mc::flip() ? 8 : -1;
        mc::op("s%d = Open(%s, buffer %d)", s, path, size);
        if (lib < 0 && mc::flip()) ld::sym(&ld::g_libs[0], nullptr ? "" : "x");
        Buf b(size < 0 ? 0 : size, false, "", 'Z');
        if (size < 0) slot[s] = mc::flip() ? SharedLib::Open(path) : SharedLib::Open(path, nullptr, 10);
        else slot[s] = SharedLib::Open(path, b.p, size);
        if (!b.guards_intact()) mc::fail("error text written outside the buffer of %d", size);
        if (lib < 0 && size > 0 && !b.is(ld::g_message.substr(0, size - 1))) mc::fail("buffer of %d holds %s after \"%s\"", size, b.now().c_str(), ld::g_message.c_str());
        if (size == 0 && !b.untouched()) mc::fail("a zero-sized error buffer was written");
        drop(s);
        if (lib >= 0) { obj[s] = fresh(lib); objs[obj[s]].refs++; }
    }
    void lookups() {
        for (int s = 0; s < N; s++) {
            if (obj[s] < 0) continue;
            ld::Lib& l = ld::g_libs[objs[obj[s]].lib];
            if (slot[s]->lookup("x") != &l.data[0] || slot[s]->get<int*>("x") != &l.data[0]) mc::fail("lookup of x");
            void* y = &l == &ld::g_libs[1] ? &l.data[1] : nullptr;
            if (slot[s]->lookup("y") != y || slot[s]->get<void*>("y") != y) mc::fail("lookup of y");
            if (slot[s]->lookup("") || slot[s]->get<void (*)()>("z")) mc::fail("lookup of an absent symbol");
        }
        ld::g_has_error = false;
    }
    void body(int depth, int times = 1) {
        ld::reset();
        ld::g_libs[0].count = extra[0] = 0;
        mc::pump(depth, times, [&] {
            int s = mc::choose(N), k = mc::choose(11);
            switch (k) {
                case 0: open(s, "lib0", 0); break;
                case 1: open(s, "lib1", 1); break;
                case 2: { ld::g_libs[0].count++; open(s, "missing", -1); ld::g_libs[0].count--; break; }
                case 3: { ld::g_libs[0].count++; open(s, "unresolved", -1); ld::g_libs[0].count--; break; }
                case 4: { int t = (s + 1 + mc::choose(N)) % N; mc::op("s%d = s%d", s, t); slot[s] = slot[t]; point(s, obj[t]); break; }
                case 5: { int t = (s + 1 + mc::choose(N - 1)) % N; mc::op("s%d = move(s%d)", s, t); slot[s] = std::move(slot[t]); point(s, obj[t]); drop(t); break; }
                case 6: mc::op("s%d = null", s); slot[s] = nullptr; drop(s); break;
                case 7: mc::op("discard Open"); { auto a = SharedLib::Open("lib0"); ke::AlreadyRefed<SharedLib> b = std::move(a); } break;
                case 8: {   // a handle that adopts an already loaded library
                    mc::op("s%d = new SharedLib(handle)", s);
                    void* h = ld::open("lib1", RTLD_NOW);
                    slot[s] = new SharedLib(h);
                    drop(s);
                    obj[s] = fresh(1);
                    objs[obj[s]].refs++;
                    break;
                }
                case 9: {   // handles that are not counted
                    mc::op("local handles");
                    { SharedLib none; if (none.valid() || none) mc::fail("an empty handle is valid"); }
                    { SharedLib bad("missing"); if (bad.valid() || bad) mc::fail("a failed handle is valid"); }
                    { int before = ld::g_libs[0].count; SharedLib l("lib0"); if (!l.valid() || !l || l.lookup("x") != &ld::g_libs[0].data[0] || ld::g_libs[0].count != before + 1) mc::fail("a local handle is not valid"); }
                    ld::g_has_error = false;
                    break;
                }
                case 10: {
                    if (obj[s] < 0) mc::prune();
                    mc::op("steal s%d", s);
                    SharedLib* raw = slot[s].forget().take();
                    int o = obj[s];
                    objs[o].refs++;
                    drop(s);
                    check();
                    raw->Release();
                    if (!--objs[o].refs) objs.erase(o);
                    break;
                }
            }
            check();
            lookups();
        });
        for (int s = 0; s < N; s++) { slot[s] = nullptr; drop(s); check(); }
        mc::observe(ld::g_calls);
    }
};
[[maybe_unused]] void errors() {       // every message length x every buffer size
    ld::reset();
    uint64_t lo, hi, n = 0;
    mc::slice(mc::thorough() ? 600 : 200, &lo, &hi);
    for (uint64_t len = lo; len < hi; len++) {
        ld::g_message = std::string(len, 'e');
        for (size_t j = 0; j < len; j++) ld::g_message[j] = "%s\\d \n\377"[j % 8] ? "%s\\d \n\377"[j % 8] : '.';
        for (size_t size = 0; size <= len + 3; size++)
            for (int exact = 0; exact < 2; exact++) {
                Buf b(size, exact, "", 'Z');
                if (RefPtr<SharedLib>(SharedLib::Open("missing", b.p, size))) mc::fail("a missing library opened");
                if (size ? !b.is(ld::g_message.substr(0, size - 1)) : !b.untouched()) mc::fail("buffer of %zu after a message of %zu characters holds %s", size, size_t(len), sc::show(b.now()).c_str());
                n++;
            }
    }
    mc::evaluations(n);
    mc::op("error buffers");
}

[[maybe_unused]] void scale() {        // long paths, symbols and messages; many handles
    mc::for_sizes(300, 1 << 17, [](size_t n) {
        ld::reset();
        std::string name(n + 1, 'n');
        for (size_t k = 0; k < n; k++) name[k] = char('A' + k % 50);
        ld::g_long = name;
        {
            RefPtr<SharedLib> lib = SharedLib::Open(name.c_str());
            if (!lib || ld::g_libs[1].count != 1) mc::fail("a path of %zu characters", n + 1);
            if (lib->lookup(name.c_str()) != &ld::g_libs[1].data[1] || lib->get<int*>(name.c_str()) != &ld::g_libs[1].data[1]) mc::fail("a symbol of %zu characters", n + 1);
            if (lib->lookup((name + "x").c_str())) mc::fail("a symbol of %zu characters", n + 2);
            if (n && lib->lookup(name.substr(0, n).c_str())) mc::fail("a symbol of %zu characters", n);
            std::vector<RefPtr<SharedLib>> copies(n + 1, lib);
            lib = nullptr;
            if (ld::g_libs[1].count != 1) mc::fail("unloaded with %zu references left", n + 1);
            std::vector<RefPtr<SharedLib>> handles;
            for (size_t k = 0; k < n; k++) handles.push_back(SharedLib::Open("lib0"));
            if (ld::g_libs[0].count != int(n)) mc::fail("%d loads for %zu handles", ld::g_libs[0].count, n);
        }
        if (ld::g_libs[0].count || ld::g_libs[1].count) mc::fail("loaded after the last of %zu references", n);
        ld::g_message = name;
        for (size_t size : {size_t(1), n / 2 + 1, n, n + 1, n + 2, n + 3, 2 * n + 5}) {
            Buf b(size, true, "", 'Z');
            if (RefPtr<SharedLib>(SharedLib::Open("missing", b.p, size))) mc::fail("a missing library opened");
            if (size ? !b.is(name.substr(0, size - 1)) : !b.untouched()) mc::fail("buffer of %zu after a message of %zu characters holds %.200s", size, n + 1, b.p);
        }
        mc::evaluations(12);
        mc::state(n);
    });
    mc::op("scale");
}

// --- against the real loader ----------------------------------------------
[[maybe_unused]] const char* kReal[2] = {"libBrokenLocale.so.1", "libanl.so.1"};
[[maybe_unused]] bool loaded(int k) {
    void* h = ::dlopen(kReal[k], RTLD_NOW | RTLD_NOLOAD);
    if (h) ::dlclose(h);
    return h != nullptr;
}
[[maybe_unused]] void real() {
    mc::no_leak_check();       // the loader's own bookkeeping
    static int usable = -1;
    if (usable < 0) {
        usable = 1;
        for (auto p : kReal) { void* h = ::dlopen(p, RTLD_NOW); if (!h) usable = 0; else ::dlclose(h); }
        for (int k = 0; k < 2; k++) if (loaded(k)) usable = 0;
    }
    if (!usable) { mc::op("the sample libraries are not available here"); return; }
    RefPtr<SharedLib> s[2];
    int m[2] = {-1, -1};
    for (int d = 0; d < (mc::thorough() ? 5 : 4); d++) {
        int i = mc::choose(2), k = mc::choose(6);
        if (k < 2) { mc::op("s%d = Open(%s)", i, kReal[k]); s[i] = SharedLib::Open(kReal[k]); m[i] = k; }
        else if (k == 2) { mc::op("s%d = s%d", i, !i); s[i] = s[!i]; m[i] = m[!i]; }
        else if (k == 3) { mc::op("s%d = null", i); s[i] = nullptr; m[i] = -1; }
        else if (k == 4) { mc::op("s%d = move", i); s[i] = std::move(s[!i]); m[i] = m[!i]; m[!i] = -1; }
        else {
            mc::op("s%d = Open(absent)", i);
            ::dlerror();
            if (::dlopen("/nonexistent/library.so", RTLD_NOW)) mc::prune();
            std::string want = ::dlerror();
            size_t size = mc::flip() ? 20 : 300;
            Buf b(size, false, "", 'Z');
            s[i] = SharedLib::Open("/nonexistent/library.so", b.p, size);
            m[i] = -1;
            if (!b.is(want.substr(0, size - 1))) mc::fail("error text is %s, not %s", sc::show(b.now()).c_str(), want.c_str());
        }
        for (int j = 0; j < 2; j++) {
            if (!!s[j] != (m[j] >= 0)) mc::fail("slot %d", j);
            bool want = m[0] == j || m[1] == j;
            if (loaded(j) != want) mc::fail("%s is %s", kReal[j], want ? "not loaded although referenced" : "still loaded");
        }
        mc::state((m[0] + 1) * 3 + m[1] + 1);
    }
    for (int i = 0; i < 2; i++) s[i] = nullptr;
    for (int j = 0; j < 2; j++) if (loaded(j)) mc::fail("%s is still loaded when nothing refers to it", kReal[j]);
}

// --- own libraries in the real loader: two that define the same symbols, one with a symbol nobody defines
[[maybe_unused]] int g_count[8];           // [n]: library n initialised minus finalised, [n + 4]: finalised
[[maybe_unused]] std::string g_own[3];
[[maybe_unused]] bool build_own() {
    char dir[] = "/tmp/amtl-mc-o01-XXXXXX";
    if (!mkdtemp(dir)) return false;
    std::string d = dir, src = d + "/l.c";
    FILE* f = fopen(src.c_str(), "w");
    if (!f) { rmdir(dir); return false; }
    fputs("extern char* getenv(const char*); extern unsigned long strtoul(const char*, char**, int);\n"
          "static int* at(void) { const char* e = getenv(\"AMTL_MC_COUNTS\"); return e ? (int*)strtoul(e, 0, 16) : 0; }\n"
          "int which(void) { return N; }\nint ask(void) { return which(); }\nint value = 11 * N;\nint* ask_value(void) { return &value; }\n"
          "#if N == 3\nextern int no_such_function_in_any_library(void);\nint broken(void) { return no_such_function_in_any_library(); }\n#endif\n"
          "#if N == 2\nint only_second(void) { return 22; }\n#endif\n"
          "__attribute__((constructor)) static void in(void) { int* c = at(); if (c) c[N]++; }\n"
          "__attribute__((destructor)) static void out(void) { int* c = at(); if (c) c[N]--, c[N + 4]++; }\n", f);
    fclose(f);
    bool ok = true;
    for (int n = 1; n <= 3; n++) {
        std::string so = d + "/l" + std::to_string(n) + ".so";
        std::string cmd = "cc -w -shared -fPIC -O0 -DN=" + std::to_string(n) + " -o " + so + " " + src + " >/dev/null 2>&1";
        int fd = -1;
        FILE* in = system(cmd.c_str()) == 0 ? fopen(so.c_str(), "rb") : nullptr;
        if (in) fd = memfd_create("amtl-mc-lib", 0);
        char buf[4096];
        size_t got;
        while (in && fd >= 0 && (got = fread(buf, 1, sizeof buf, in)) > 0) ok &= write(fd, buf, got) == ssize_t(got);
        if (in) fclose(in);
        unlink(so.c_str());
        ok &= fd >= 0;
        g_own[n - 1] = "/proc/self/fd/" + std::to_string(fd);
    }
    unlink(src.c_str());
    rmdir(dir);
    char text[32];
    snprintf(text, sizeof text, "%lx", (unsigned long)g_count);
    setenv("AMTL_MC_COUNTS", text, 1);
    // usable only if the loader here can load and unload them at all
    for (int k = 0; k < 2 && ok; k++) {
        void* h = ::dlopen(g_own[k].c_str(), RTLD_NOW);
        ok = h && g_count[k + 1] == 1;
        if (h) ::dlclose(h);
        ok &= g_count[k + 1] == 0;
    }
    return ok;
}
[[maybe_unused]] bool g_own_usable;
[[maybe_unused]] void own() {
    mc::no_leak_check();
    if (!g_own_usable) { mc::op("the sample libraries cannot be built or loaded here"); return; }
    memset(g_count, 0, sizeof g_count);
    int finished[2] = {0, 0};
    {
        RefPtr<SharedLib> s[2];
        int m[2] = {-1, -1};
        auto settle = [&](int was0, int was1) {
            for (int j = 0; j < 2; j++) if ((was0 == j || was1 == j) && m[0] != j && m[1] != j) finished[j]++;
        };
        for (int d = 0; d < (mc::thorough() ? 5 : 4); d++) {
            int i = mc::choose(2), k = mc::choose(7), w0 = m[0], w1 = m[1];
            if (k < 2) {
                mc::op("s%d = Open(library %d)", i, k + 1);
                Buf b(64, false, "", 'Z');
                s[i] = SharedLib::Open(g_own[k].c_str(), b.p, 64);
                m[i] = k;
            } else if (k == 2) {
                mc::op("s%d = Open(library with an undefined symbol)", i);
                Buf b(400, false, "", 'Z');
                s[i] = SharedLib::Open(g_own[2].c_str(), b.p, 400);
                m[i] = -1;
                if (s[i]) mc::fail("a library loads although one of its symbols is defined nowhere");
                if (!strstr(b.p, "no_such_function_in_any_library")) mc::fail("error text %s", sc::show(b.now()).c_str());
            } else if (k == 3) { mc::op("s%d = s%d", i, !i); s[i] = s[!i]; m[i] = m[!i]; }
            else if (k == 4) { mc::op("s%d = null", i); s[i] = nullptr; m[i] = -1; }
            else if (k == 5) { mc::op("s%d = move", i); s[i] = std::move(s[!i]); m[i] = m[!i]; m[!i] = -1; }
            else { mc::op("s%d = s%d itself", i, i); auto& self = s[i]; s[i] = self; }
            settle(w0, w1);
            for (int j = 0; j < 2; j++) {
                int want = m[0] == j || m[1] == j;
                if (g_count[j + 1] != want) mc::fail("library %d is initialised %d times while %s", j + 1, g_count[j + 1], want ? "referenced" : "nothing refers to it");
                if (g_count[j + 5] != finished[j]) mc::fail("library %d was finalised %d times, not %d", j + 1, g_count[j + 5], finished[j]);
                if (!!s[j] != (m[j] >= 0)) mc::fail("slot %d", j);
                if (!s[j]) continue;
                int n = m[j] + 1;
                auto which = s[j]->get<int (*)()>("which"), ask = s[j]->get<int (*)()>("ask");
                auto value = s[j]->get<int*>("value");
                auto ask_value = s[j]->get<int* (*)()>("ask_value");
                if (!which || !ask || !value || !ask_value) mc::fail("a symbol of library %d is not found", n);
                if (which() != n || *value != 11 * n) mc::fail("library %d hands out another library's symbols", n);
                if (ask() != n || ask_value() != value) mc::fail("inside library %d another library's symbols are used", n);
                if (!!s[j]->lookup("only_second") != (n == 2)) mc::fail("only_second in library %d", n);
                if (s[j]->lookup("in") || s[j]->lookup("") || s[j]->lookup("whic")) mc::fail("a symbol library %d does not export", n);
            }
            if (g_count[3] || g_count[7]) mc::fail("the broken library ran");
            for (auto sym : {"which", "value", "only_second"}) if (::dlsym(RTLD_DEFAULT, sym)) mc::fail("%s became visible to the whole program", sym);
            mc::state((m[0] + 1) * 3 + m[1] + 1);
        }
        for (int j = 0; j < 2; j++) if (m[0] == j || m[1] == j) finished[j]++;
    }
    for (int j = 0; j < 2; j++) if (g_count[j + 1] || g_count[j + 5] != finished[j]) mc::fail("library %d is still loaded when nothing refers to it", j + 1);
}
}  // namespace

void mc_register() {
#ifdef REAL
    g_own_usable = build_own();
    mc::add("real-loader", real, 0, 2);
    mc::add("own-libraries", own, 0, 2);
#else
    mc::add("histories", [] { World().body(mc::thorough() ? 4 : 3); }, 0, 3);
    mc::add("loops1", [] { World().body(1, 3000); }, 0, 3);
    mc::add("loops2", [] { World().body(2, mc::thorough() ? 300 : 80); }, 0, 3);
    mc::add("errors", errors, 0, -1);
    mc::add("scale", scale, 0, -1);
#endif
}

// G01: release assertions, sinks, hints and linkage macros, in debug and release builds.
#include "G01.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <math.h>
#include <mc/core.h>
#include <stdio.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
#include <memory>
#include <string>

KE_LINKONCE(int g01_ordinary_second) = 2000;    // loses against the ordinary definition in G01b.cpp
int g01_ordinary_first = 11;

namespace {
// Runs f in a child; what it wrote to the pipe, and how it ended.
struct End { std::string out; bool killed; int sig, code; };
End child(const std::function<void(int)>& f) {
    fflush(nullptr);
    int p[2];
    if (pipe(p)) mc::fail("driver: pipe");
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 2);
        signal(SIGABRT, SIG_DFL);
        f(p[1]);
        _exit(0);
    }
    close(p[1]);
    End e;
    char buf[64];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) e.out.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    e.killed = WIFSIGNALED(st);
    e.sig = e.killed ? WTERMSIG(st) : 0;
    e.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    return e;
}
struct Flag { bool on; explicit operator bool() const { return on; } };
int g_fd, g_count;
void say(char c) { if (write(g_fd, &c, 1) != 1) _exit(9); }
template <class T> const T& once(const T& v) { g_count++; say('e'); return v; }
// Every place a statement can stand in.
template <class T> void placed(int place, const T& c) {
    switch (place) {
        case 0: KE_RELEASE_ASSERT(once(c)); break;
        case 1: if (g_fd >= 0) KE_RELEASE_ASSERT(once(c)); else say('x'); break;
        case 2: if (g_fd < 0) say('x'); else KE_RELEASE_ASSERT(once(c)); break;
        case 3: for (int k = 0; k < 3; k++) KE_RELEASE_ASSERT(once(c)); break;
        case 4: if (g_fd < 0) KE_RELEASE_ASSERT(once(c)); else say('s'); break;
        case 5: do KE_RELEASE_ASSERT(once(c)); while (false); break;
        case 6: [&] { KE_RELEASE_ASSERT(once(c)); }(); break;
        case 7: KE_RELEASE_ASSERT(once(c) || !once(c)); break;          // holds in any case
        case 8: KE_RELEASE_ASSERT(!once(c)); break;
        case 9: KE_RELEASE_ASSERT(once(c) ? true : false); break;
        case 10: KE_RELEASE_ASSERT(once(c) && "an explanation"); break;
        case 11: { KE_RELEASE_ASSERT(g_count == 0); KE_RELEASE_ASSERT(once(c)); } break;
        case 12: { bool both = once(c) ? true : false; KE_RELEASE_ASSERT(both | !both); } break;
    }
    say('d');
}
constexpr int kPlaces = 13;
template <class T> void conditions(std::initializer_list<std::pair<T, bool>> vs) {
    auto [v, truth] = vs.begin()[mc::choose(int(vs.size()))];
    int place = mc::choose(kPlaces);
    mc::op("condition is %d at place %d", truth, place);
    End e = child([&, v = v](int fd) { g_fd = fd; g_count = 0; placed(place, v); });
    bool ends = place == 7 || place == 4 || place == 12 ? false : place == 8 ? truth : !truth;
    std::string want = place == 4 ? "s" : place == 3 && truth ? "eee" : place == 7 && !truth ? "ee" : "e";
    if (!ends) want += "d";
    if (e.out != want) mc::fail("the condition is %d: ran \"%s\", not \"%s\"", truth, e.out.c_str(), want.c_str());
    mc::state(mc::hash_str(e.out, place * 64 + e.sig));
    if (ends ? !e.killed || e.sig != SIGABRT : e.killed || e.code != 0) mc::fail("the condition is %d: signal %d, exit code %d", truth, e.sig, e.code);
}
enum Color { kNone, kSome = 256 };
void release_asserts() {
    mc::no_leak_check();
    static int x;
    int t = mc::choose(9);
    mc::op("type %d", t);
    switch (t) {
        case 0: conditions<bool>({{false, false}, {true, true}}); break;
        case 1: conditions<int>({{0, false}, {1, true}, {-1, true}, {256, true}, {65536, true}, {INT_MIN, true}}); break;
        case 2: conditions<uint64_t>({{0, false}, {1, true}, {1ull << 32, true}, {1ull << 63, true}, {0xffffffff00000000ull, true}}); break;
        case 3: conditions<const void*>({{nullptr, false}, {&x, true}, {(const void*)(uintptr_t(1) << 32), true}}); break;
        case 4: conditions<double>({{0.0, false}, {-0.0, false}, {0.25, true}, {-1e-320, true}, {NAN, true}, {INFINITY, true}, {1e300, true}}); break;
        case 5: conditions<Color>({{kNone, false}, {kSome, true}}); break;
        case 6: conditions<Flag>({{Flag{false}, false}, {Flag{true}, true}}); break;
        case 7: conditions<char>({{0, false}, {'a', true}, {char(-128), true}}); break;
        case 8: conditions<float>({{0.f, false}, {1e-40f, true}, {-0.5f, true}}); break;
    }
}
// Hints and sinks evaluate their operand once and pass its truth on.
template <class T> void hint(std::initializer_list<std::pair<T, bool>> vs) {
    auto [v, truth] = vs.begin()[mc::choose(int(vs.size()))];
    int n = 0, other = 0;
    auto get = [&, v = v] { n++; return v; };
    if (KE_CRITICAL_LIKELY(get())) other = 1; else other = 2;
    if (n != 1 || other != (truth ? 1 : 2)) mc::fail("the likelihood of %d: branch %d, evaluated %d times", truth, other, n);
    n = 0;
    if (!KE_CRITICAL_LIKELY(get()) != !truth || n != 1) mc::fail("negated likelihood of %d", truth);
    n = 0;
    if ((KE_CRITICAL_LIKELY(get() ? true : false) && KE_CRITICAL_LIKELY(truth || n)) != truth || n != 1) mc::fail("likelihood of a compound condition that is %d", truth);
    int rounds = 0;
    while (KE_CRITICAL_LIKELY(rounds < (truth ? 3 : 0))) rounds++;
    if (rounds != (truth ? 3 : 0)) mc::fail("a loop with a likely condition ran %d times", rounds);
    mc::state(n + other * 8 + rounds * 64);
    n = 0;
    ke::Unused() << get();
    if (n != 1) mc::fail("an unused value is evaluated %d times", n);
}
struct Counted {                       // not copyable, not movable
    static int live;
    Counted() { live++; }
    ~Counted() { live--; }
    Counted(const Counted&) = delete;
};
int Counted::live;
void hints() {
    static int x;
    int t = mc::choose(6);
    mc::op("type %d", t);
    switch (t) {
        case 0: hint<bool>({{false, false}, {true, true}}); break;
        case 1: hint<int>({{0, false}, {1, true}, {2, true}, {-1, true}, {INT_MIN, true}, {256, true}}); break;
        case 2: hint<uint64_t>({{0, false}, {2, true}, {1ull << 32, true}, {1ull << 63, true}}); break;
        case 3: hint<const void*>({{nullptr, false}, {&x, true}}); break;
        case 4: hint<double>({{0.0, false}, {-0.0, false}, {0.25, true}, {NAN, true}}); break;
        case 5: {
            Counted c;
            ke::Unused() << c;
            ke::Unused() << Counted();
            ke::Unused() << std::unique_ptr<int>(new int(4));
            ke::Unused() << "text";
            if (Counted::live != 1) mc::fail("%d objects are left", Counted::live);
            int a[3] = {1, 2, 3};
            ke::Unused() << a;
            if (a[0] != 1 || a[2] != 3) mc::fail("an unused array changed");
        }
    }
    if (Counted::live) mc::fail("%d objects are left", Counted::live);
}
// Two units with the same link-once definitions, linked into one program built with hidden visibility.
void linkage() {
    Unit o = other_unit();
    if (o.shared != &g01_shared || o.zero != &g01_zero || o.count != &Holder::count || o.text != &Holder::text) mc::fail("the units do not share a link-once object");
    if (o.first != &g01_ordinary_first || o.second != &g01_ordinary_second) mc::fail("the units do not share an ordinary object");
    if (g01_ordinary_first != 11 || g01_ordinary_second != 22) mc::fail("a link-once definition wins over an ordinary one (%d, %d)", g01_ordinary_first, g01_ordinary_second);
    if (strcmp(Holder::text, "text")) mc::fail("a link-once object has another initial value");
    static bool first = true;
    if (first && (g01_shared != 41 || g01_zero != 0 || Holder::count != 7)) mc::fail("a link-once object has another initial value");
    first = false;
    int v = mc::choose(3) * 100;
    mc::op("set %d", v);
    if (mc::flip()) set_from_other(v); else g01_shared = v, g01_zero = v + 1, Holder::count = v + 2;
    if (g01_shared != v || g01_zero != v + 1 || Holder::count != v + 2) mc::fail("a value set in one unit is not seen in the other");
    mc::state(v);
    auto find = [](const char* s) { return ::dlsym(RTLD_DEFAULT, s); };
    auto e = (int (*)(int))find("g01_exported");
    auto e2 = (int (*)(int))find("g01_exported_too");
    if (!e || e(1) != 2 || !e2 || e2(1) != 5) mc::fail("an exported function is not visible to other modules");
    if (find("g01_exported_data") != &g01_exported_data) mc::fail("an exported object is not visible to other modules");
    if (!find("_ZN11G01Exported6methodEi") || !find("_ZTV11G01Exported")) mc::fail("an exported class is not visible to other modules");
    if (find("g01_private") || find("g01_private_data")) mc::fail("a private symbol is visible to other modules");
#ifdef DEFAULT_VISIBILITY
    if (!find("g01_plain")) mc::fail("driver: not built with default visibility");
#else
    if (find("g01_plain")) mc::fail("driver: not built with hidden visibility");
#endif
    if (g01_private(1) != 3 || g01_private_data != 6 || g01_plain(1) != 4 || G01Exported().method(1) != 8) mc::fail("calls inside the module");
}
}  // namespace

void mc_register() {
    mc::add("release-asserts", release_asserts, 0, 2);
    mc::add("hints", hints, 0, 2);
    mc::add("linkage", linkage, 0, 1);
}

// U01: macOS, BSD and other C libraries than glibc: thread names and error texts, over stand-ins for the calls whose
// contract differs there.  U_MAC: one-argument pthread_setname_np, a thread names only itself.  U_BSD, U_MUSL: the POSIX
// strerror_r, which always fills the buffer.
#include <assert.h>
#include <ctype.h>
#include <dlfcn.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <deque>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include <mc/core.h>

#undef __GLIBC__
#undef __GLIBC_MINOR__
#if defined(U_MAC) || defined(U_BSD)
#    undef __linux__
#    undef __linux
#    undef linux
#    undef __gnu_linux__
#endif
#if defined(U_MAC)
#    define __APPLE__ 1
#    define __MACH__ 1
#elif defined(U_BSD)
#    define __FreeBSD__ 13
#endif

namespace {
// ---- the simulated system ------------------------------------------------------------------------------------------
struct Named { pthread_t who; std::string name; };
std::mutex g_lock;
std::vector<Named> g_names;
int g_set_result;
void note(pthread_t who, const char* name) { std::lock_guard<std::mutex> l(g_lock); g_names.push_back({who, name}); }
#if defined(U_MAC)
const size_t kLimit = 63;
int u_setname(const char* name) { if (strlen(name) > kLimit) return ENAMETOOLONG; if (!g_set_result) note(pthread_self(), name); return g_set_result; }
#else
const size_t kLimit = 15;
int u_setname(pthread_t who, const char* name) { if (strlen(name) > kLimit) return ERANGE; if (!g_set_result) note(who, name); return g_set_result; }
#endif
std::string message(int code) { return strerror(code); }
int g_calls;
// POSIX: 0, or an error number (ERANGE: the text was cut; EINVAL: no such error); the buffer gets what fits, terminated.
int u_strerror_r(int code, char* buf, size_t n) {
    g_calls++;
    std::string m = message(code);
    bool known = m.compare(0, 13, "Unknown error");
    if (!n) return ERANGE;
    size_t k = std::min(n - 1, m.size());
    memcpy(buf, m.data(), k);
    buf[k] = 0;
    errno = 77;         // and it may disturb errno
    return !known ? EINVAL : k < m.size() ? ERANGE : 0;
}
}  // namespace
#define pthread_setname_np u_setname
#define strerror_r u_strerror_r

#include <amtl/os/am-system-errors.h>
#include <amtl/am-thread.h>
#include <amtl/os/am-fsutil.h>
#include <amtl/os/am-path.h>
#include <amtl/os/am-shared-library.h>
#include <amtl/am-threadlocal.h>
#include <amtl/am-mutex.h>
#include <amtl/am-float.h>
#include <amtl/am-bits.h>
#include <amtl/am-time.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/experimental/am-argparser.h>
#undef strerror_r
#undef pthread_setname_np

#if defined(U_MAC) && !(defined(KE_MACOSX) && defined(KE_BSD) && defined(KE_POSIX))
#    error "not the macOS branch"
#endif
#if defined(U_BSD) && !(defined(KE_FREEBSD) && defined(KE_BSD) && defined(KE_POSIX))
#    error "not the BSD branch"
#endif
#if !defined(U_MAC) && !defined(U_BSD) && !defined(KE_LINUX)
#    error "not the Linux branch"
#endif

namespace {
std::string name_of_length(size_t n) { std::string s; for (size_t k = 0; k < n; k++) s += char('a' + k % 26); return s; }
void expect_named(pthread_t who, const std::string& asked, const char* what) {
    if (g_names.empty()) { if (asked.size() <= kLimit && !g_set_result) mc::fail("%s: no name was set", what); return; }
    const Named& n = g_names.back();
    if (!pthread_equal(n.who, who)) mc::fail("%s: another thread was named", what);
    if (n.name != asked && (asked.size() <= kLimit || asked.compare(0, n.name.size(), n.name))) mc::fail("%s: the name is '%s', not '%s'", what, n.name.c_str(), asked.c_str());
    for (const Named& o : g_names) if (!pthread_equal(o.who, who)) mc::fail("%s: another thread was named, too", what);
}
void names() {
    static const size_t lens[] = {0, 1, 7, 14, 15, 16, 17, 31, 32, 62, 63, 64, 65, 200};
    size_t len = lens[mc::choose(14)];
    int form = mc::choose(3), refused = mc::choose(2);
    std::string asked = name_of_length(len);
    g_names.clear();
    g_set_result = refused ? EINVAL : 0;
    mc::op("name of %zu characters, form %d, %s", len, form, refused ? "refused" : "accepted");
    if (form == 0) {
        ke::SetThreadName(asked.c_str());
        expect_named(pthread_self(), asked, "the calling thread");
    } else if (form == 1) {
        std::mutex m;
        m.lock();
        std::thread t([&] { std::lock_guard<std::mutex> l(m); });
        ke::SetThreadName(&t, asked.c_str());
#if defined(U_MAC)
        MC_CHECK(g_names.empty(), "naming another thread is impossible here, yet '%s' was named", g_names.empty() ? "" : g_names[0].name.c_str());
#else
        expect_named(t.native_handle(), asked, "another thread");
#endif
        m.unlock();
        t.join();
    } else {
        int runs = 0, sum = 0;
        size_t named_before = 99;
        pthread_t self{};
        auto t = ke::NewThread(asked.c_str(), [&](int a, int b) { std::lock_guard<std::mutex> l(g_lock); runs++; sum = a * 10 + b; named_before = g_names.size(); self = pthread_self(); }, 4, 2);
        t->join();
        MC_CHECK(runs == 1 && sum == 42, "the function ran %d times, with %d", runs, sum);
        MC_CHECK(named_before == g_names.size(), "the thread was named after its function began");
        expect_named(self, asked, "the new thread");
    }
    mc::state(len * 6 + form * 2 + refused);
}
void errors() {
    static const int codes[] = {0, 1, 2, 11, 12, 13, 17, 22, 34, 40, 84, 110, 133, 134, 41, 1000, -1, -7, INT_MAX, INT_MIN};
    int code = codes[mc::choose(20)], form = mc::choose(2);
    mc::op("code %d, %s", code, form ? "errno" : "given");
    std::string m = message(code);
    for (size_t size = 0; size <= m.size() + 3; size++) {
        char buf[128];
        memset(buf, 'Z', sizeof buf);
        if (form) { errno = code; ke::FormatSystemError(buf + 8, size); } else { errno = 5; ke::FormatSystemErrorCode(code, buf + 8, size); }
        std::string want = size ? m.substr(0, size - 1) : "";
        if (size && strncmp(buf + 8, want.c_str(), want.size() + 1)) mc::fail("code %d in %zu bytes: '%.*s', not '%s'", code, size, int(size), buf + 8, want.c_str());
        for (size_t z = 0; z < sizeof buf; z++) if ((z < 8 || z >= 8 + size) && buf[z] != 'Z') mc::fail("code %d in %zu bytes: written outside the buffer", code, size);
        mc::evaluations(1);
    }
    mc::state(code * 2 + form);
}
// What the neighbouring headers do is the same on all of these systems: paths, files, libraries, slots.
void neighbours() {
    int k = mc::choose(4);
    if (k == 0) {
        char b[32];
        MC_CHECK(ke::path::Format(b, sizeof b, "a\\b/%s", "c\\d") == 7 && !strcmp(b, "a/b/c/d"), "path %s", b);
    } else if (k == 1) {
        MC_CHECK(ke::file::IsDirectory("/") && !ke::file::IsFile("/") && ke::file::PathExists("/") && !ke::file::PathExists("/no/such/file"), "file queries");
    } else if (k == 2) {
        char err[64] = "";
        auto none = ke::SharedLib::Open("/no/such/library.so", err, sizeof err);
        MC_CHECK((!none || !none->valid()) && err[0], "opening a missing library");
    } else {
        static ke::ThreadLocal<int> slot;
        slot.set(5);
        int other = -1;
        std::thread t([&] { other = slot.get(); slot.set(9); });
        t.join();
        MC_CHECK(slot.get() == 5 && other == 0, "thread-local values");
    }
    mc::op("neighbour %d", k);
    mc::state(k);
}
}  // namespace

void mc_register() {
    mc::add("names", names, 0, 2);
    mc::add("errors", errors, 0, 2);
    mc::add("neighbours", neighbours, 0, 1);
}

// T03, single-threaded builds: a ThreadLocal is one ordinary variable.
#define KE_SINGLE_THREADED 1
#include <amtl/am-threadlocal.h>
#include <limits.h>
#include <mc/core.h>

#include <memory>

namespace {
int g_targets[4];
enum Colour { RED, GREEN = 7, BLUE = -1 };
template <class T> T val(int k);
template <> int val<int>(int k) { static const int v[] = {0, -1, INT_MIN, INT_MAX}; return v[k]; }
template <> int* val<int*>(int k) { return k ? &g_targets[k] : nullptr; }
template <> bool val<bool>(int k) { return k & 1; }
template <> Colour val<Colour>(int k) { static const Colour v[] = {RED, GREEN, BLUE, GREEN}; return v[k]; }
template <class T> void plain() {
    std::unique_ptr<ke::ThreadLocal<T>> v[2];
    T want[2] = {T(), T()};
    for (auto& p : v) p.reset(new ke::ThreadLocal<T>());
    int len = mc::thorough() ? 6 : 4;
    for (int d = 0; d < len; d++) {
        int x = mc::choose(2), op = mc::choose(7);
        mc::op("variable %d operation %d", x, op);
        if (op < 4) { want[x] = val<T>(op); if (d & 1) v[x]->set(want[x]); else *v[x] = want[x]; }
        else if (op == 4) { if (!v[x]->allocate()) mc::fail("allocation is refused"); }
        else if (op == 5) { v[x].reset(); v[x].reset(new ke::ThreadLocal<T>()); want[x] = T(); }
        else {
            if (v[x]->get() != want[x] || **v[x] != want[x] || !(*v[x] == want[x]) || *v[x] != want[x] || !*v[x] != !want[x]) mc::fail("variable %d compares wrongly", x);
        }
        for (int k = 0; k < 2; k++) if (v[k]->get() != want[k]) mc::fail("variable %d has another value than stored", k);
        mc::state(d * 64 + x * 8 + op);
    }
}
}  // namespace

void mc_register() {
    mc::add("single-threaded-int", plain<int>, 0, 2);
    mc::add("single-threaded-pointer", plain<int*>, 0, 2);
    mc::add("single-threaded-bool", plain<bool>, 0, 2);
    mc::add("single-threaded-enum", plain<Colour>, 0, 2);
}

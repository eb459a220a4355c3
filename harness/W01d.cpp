// W01, memory: a debug build with Microsoft's runtime, whose <crtdbg.h> turns malloc and free into macros for its debug heap.
// Every block the containers take comes from that heap and goes back to it, and a refused request is reported.
#define W_MSVC
#include "win/env.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <new>
#ifndef _DEBUG
#    define _DEBUG
#endif
#define _CRTDBG_MAP_ALLOC
namespace {
std::set<void*> blocks;
int requests, refuse = -1;
void* real_malloc(size_t n) { return malloc(n); }
void real_free(void* p) { free(p); }
void* debug_malloc(size_t n, int, const char*, int) {
    if (requests++ == refuse) return nullptr;
    void* p = real_malloc(n);
    blocks.insert(p);
    return p;
}
void debug_free(void* p, int) {
    if (p && !blocks.erase(p)) mc::fail("a block that does not come from the debug heap is given back to it (or twice)");
    real_free(p);
}
}  // namespace
#define malloc(n) debug_malloc(n, 1, __FILE__, __LINE__)
#define free(p) debug_free(p, 1)
#include <amtl/am-allocator-policies.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-hashmap.h>
#undef malloc
#undef free

namespace {
struct IntPolicy {
    static uint32_t hash(int k) { return uint32_t(k) * 2654435761u; }
    static bool matches(int a, int b) { return a == b; }
};
void hash_histories() {
    blocks.clear();
    requests = 0;
    refuse = -1;
    {
        ke::HashMap<int, int, IntPolicy> m;
        std::map<int, int> model;
        MC_CHECK(m.init(16), "init");
        for (int d = 0; d < (mc::thorough() ? 5 : 4); d++) {
            int a = mc::choose(3);
            mc::op("%s", a == 0 ? "add 40" : a == 1 ? "remove half" : "clear");
            int base = int(model.size());
            if (a == 0)
                for (int k = base * 7; k < base * 7 + 40; k++) { auto i = m.findForAdd(k); if (!i.found()) m.add(i, k, k); model[k] = k; }
            else if (a == 1)
                for (auto it = model.begin(); it != model.end();) { m.removeIfExists(it->first); it = model.erase(it); if (it != model.end()) ++it; }
            else { m.clear(); model.clear(); }
            MC_CHECK(m.elements() == model.size(), "%zu elements, not %zu", size_t(m.elements()), model.size());
            for (auto& e : model) MC_CHECK(m.find(e.first).found(), "%d is gone", e.first);
            MC_CHECK(!blocks.empty(), "the table's memory does not come from the debug heap");
            mc::state(mc::mix(model.size(), uint64_t(requests)));
        }
    }
    MC_CHECK(blocks.empty(), "%zu blocks are not returned", blocks.size());
}
void arrays() {
    blocks.clear();
    requests = 0;
    refuse = -1;
    {
        ke::FixedArray<int> a(1 + mc::choose(3)), b;
        switch (mc::choose(3)) {
            case 0: b = a; break;
            case 1: b = std::move(a); break;
            case 2: a = ke::FixedArray<int>(5); break;
        }
        mc::state(requests);
    }
    MC_CHECK(requests > 0 && blocks.empty(), "%zu blocks are not returned", blocks.size());
}
void refused() {      // the policy ends the program when there is no memory
    mc::no_leak_check();
    int what = mc::choose(3), at = mc::choose(3);
    mc::op("case %d, request %d is refused", what, at);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        rlimit z{0, 0};
        setrlimit(RLIMIT_CORE, &z);
        if (!freopen("/dev/null", "w", stderr)) _exit(4);
        requests = 0;
        refuse = at;
        if (what == 0) { ke::SystemAllocatorPolicy q; for (int k = 0; k <= at; k++) if (!q.am_malloc(8)) _exit(3); }
        else if (what == 1) { ke::HashMap<int, int, IntPolicy> m; m.init(16); for (int k = 0; k < 200; k++) { auto i = m.findForAdd(k); m.add(i, k, k); } }
        else { ke::FixedArray<int> a(3); ke::FixedArray<int> b(a), c(b); }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    MC_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "a refused request did not end the program (status %#x)", st);
    mc::state(what * 3 + at);
}
}  // namespace

void mc_register() {
    mc::add("debug-heap-tables", hash_histories, 0, 1);
    mc::add("debug-heap-arrays", arrays, 0, 1);
    mc::add("debug-heap-refuses", refused, 0, 1);
}

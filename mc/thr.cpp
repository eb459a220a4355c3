// The runtime under the instrumented drivers: scheduler, memory, happens-before, pthreads.
#include "thr.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <new>
#include <string>
#include <vector>

#include "core.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {
constexpr int kT = 8;                   // threads per world
constexpr size_t kStack = 256 << 10;
constexpr size_t kArena = 4 << 20;
constexpr int kKeys = 1024;

// --- clocks -------------------------------------------------------------------
struct VC {
    uint32_t c[kT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < kT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { FREE, READY, BLOCKED, DONE };
enum Why { NONE, MUTEX, COND, JOIN, SPIN, ONCE };
struct Fiber {
    void* sp;
    char* stack;
    int state;
    int why;
    const void* on;            // mutex, condition, once control
    int on_thread;
    uint64_t spin_at;          // change counter when it last yielded
    bool yielded;              // since the last change
    uint32_t quiet_steps;      // scheduling points since anything changed
    uint64_t quiet_at;
    uint32_t steps;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined;
    char name[16];
    VC vc, acq, rel;           // acq: pending for an acquire fence; rel: at the last release fence
    void* key_val[32];
    int quiet;
    jmp_buf* assert_jmp;
    bool assert_hit;
    struct AtExit { void (*f)(void*); void* a; } at_exit[16];
    int n_at_exit;
    char* tls;
    void* once_callable;
    void* once_call;
    bool cond_signaled;
    uint32_t after;            // fairness: does not run before these have
    uint32_t yields, run_length;
};
Fiber g_f[kT];
int g_n, g_cur = -1;
bool g_in = false;             // inside a world, on one of its fibers
void* g_main_sp;
thr::Options g_opt;
uint64_t g_change;             // counts changes of shared state
uint32_t g_step;
bool g_abandon;
uint32_t g_gen = 1;            // generation: everything below is valid for one execution
bool g_forced_spin;            // only spinners are left: they run round robin
uint32_t g_forced_steps;
char* g_tls_base; const char* g_tls_img; size_t g_tls_size, g_tls_img_size;

// --- context switch -----------------------------------------------------------
extern "C" void thr_switch(void** from, void* to);
asm(R"(
.text
.globl thr_switch
.type thr_switch,@function
thr_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size thr_switch,.-thr_switch
)");

Fiber& cur() { return g_f[g_cur]; }

}  // namespace
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
namespace {

void tls_save(int t) {
    if (g_tls_size && g_f[t].tls) memcpy(g_f[t].tls, g_tls_base, g_tls_size);
    g_f[t].once_callable = std::__once_callable;
    g_f[t].once_call = (void*)std::__once_call;
}
void tls_load(int t) {
    if (g_tls_size && g_f[t].tls) memcpy(g_tls_base, g_f[t].tls, g_tls_size);
    std::__once_callable = g_f[t].once_callable;
    std::__once_call = (void (*)())g_f[t].once_call;
}
void switch_to(int t) {
    if (t == g_cur) return;
    int from = g_cur;
    tls_save(from);
    g_cur = t;
    tls_load(t);
    thr_switch(&g_f[from].sp, g_f[t].sp);
}
void to_main() {
    void* dummy;
    g_in = false;
    thr_switch(&dummy, g_main_sp);
    __builtin_unreachable();
}

// --- heap -----------------------------------------------------------------------
char* g_arena;
size_t g_bump;
struct Block { uint32_t off, size; int state; int by; };    // state 1 live, 2 freed
constexpr int kBlocks = 8192;
Block g_blk[kBlocks];
int g_nblk;
size_t g_live;
// granule (8 bytes) -> block + 1
uint16_t g_owner[kArena / 8];
bool in_arena(const void* p) { return (const char*)p >= g_arena && (const char*)p < g_arena + kArena; }
const char* where(const void* p, char* buf, size_t n) {
    if (in_arena(p)) {
        size_t off = (const char*)p - g_arena;
        int b = g_owner[off / 8];
        if (b) snprintf(buf, n, "block %d of %u bytes, offset %zd", b, g_blk[b - 1].size, ssize_t(off) - ssize_t(g_blk[b - 1].off));
        else snprintf(buf, n, "the heap, outside any block");
        return buf;
    }
    for (int t = 0; t < g_n; t++) if ((const char*)p >= g_f[t].stack && (const char*)p < g_f[t].stack + kStack) { snprintf(buf, n, "the stack of thread %d", t); return buf; }
    snprintf(buf, n, "static memory");
    return buf;
}
void check_heap(const void* p, size_t n, const char* what) {
    if (!in_arena(p)) return;
    size_t off = (const char*)p - g_arena;
    int b = g_owner[off / 8];
    char buf[128];
    if (!b || off < g_blk[b - 1].off || off + n > g_blk[b - 1].off + g_blk[b - 1].size)
        mc::fail("thread %d: %s of %zu bytes out of bounds, in %s", g_cur, what, n, where(p, buf, sizeof buf));
    if (g_blk[b - 1].state == 2) mc::fail("thread %d: %s after free, in %s (freed by thread %d)", g_cur, what, where(p, buf, sizeof buf), g_blk[b - 1].by);
}

// --- race detector ----------------------------------------------------------------
enum Kind { PR, PW, AR, AW };
struct Cell {
    uintptr_t key;
    uint32_t gen;
    uint32_t mask;              // nonzero: so far every access covered exactly these bytes, and row 0 stands for all of them
    uint32_t t[8][4][kT];       // byte, kind, thread: clock of the last access
};
constexpr size_t kCells = 1 << 13;
Cell* g_cell;
struct Sync { uintptr_t key; uint32_t gen; VC rel; };
constexpr size_t kSyncs = 1 << 11;
Sync* g_sync;
size_t hash_addr(uintptr_t a) { a *= 0x9E3779B97F4A7C15ULL; return a >> 40; }
Cell* cell(uintptr_t g) {
    size_t i = hash_addr(g) & (kCells - 1);
    for (size_t k = 0; k < kCells; k++, i = (i + 1) & (kCells - 1)) {
        Cell& c = g_cell[i];
        if (c.gen == g_gen) { if (c.key == g) return &c; continue; }
        c.gen = g_gen;
        c.key = g;
        c.mask = 0xffffffff;                    // untouched
        memset(c.t[0], 0, sizeof c.t[0]);
        return &c;
    }
    mc::fail("thread engine: too many memory cells");
}
Sync* sync_of(const void* p) {
    uintptr_t a = (uintptr_t)p;
    size_t i = hash_addr(a) & (kSyncs - 1);
    for (size_t k = 0; k < kSyncs; k++, i = (i + 1) & (kSyncs - 1)) {
        Sync& c = g_sync[i];
        if (c.gen == g_gen) { if (c.key == a) return &c; continue; }
        c.gen = g_gen;
        c.key = a;
        c.rel.clear();
        return &c;
    }
    mc::fail("thread engine: too many synchronisation objects");
}
bool tls_addr(const void* p) {
    if (p == &std::__once_callable || p == &std::__once_call) return true;
    return (const char*)p >= g_tls_base && (const char*)p < g_tls_base + g_tls_size;
}
[[noreturn]] void race(int k, int t, const void* p, size_t n, const char* what) {
    static const char* kn[] = {"read", "write", "atomic read", "atomic write"};
    char buf[128];
    mc::fail("data race: %s by thread %d and earlier %s by thread %d are unordered, %zu byte(s) in %s", what, g_cur, kn[k], t, n, where(p, buf, sizeof buf));
}
inline void check_row(uint32_t (*r)[kT], Kind kind, const void* p, size_t n, const char* what) {
    Fiber& me = cur();
    for (int t = 0; t < g_n; t++) {
        if (t == g_cur) continue;
        uint32_t seen = me.vc.c[t];
        switch (kind) {
            case PR: if (r[PW][t] > seen) race(PW, t, p, n, what); if (r[AW][t] > seen) race(AW, t, p, n, what); break;
            case PW: for (int k = 0; k < 4; k++) if (r[k][t] > seen) race(k, t, p, n, what); break;
            case AR: if (r[PW][t] > seen) race(PW, t, p, n, what); break;
            case AW: if (r[PW][t] > seen) race(PW, t, p, n, what); if (r[PR][t] > seen) race(PR, t, p, n, what); break;
        }
    }
    r[kind][g_cur] = me.vc.c[g_cur];
}
void access(const void* p, size_t n, Kind kind, const char* what) {
    check_heap(p, n, what);
    if (tls_addr(p)) return;
    uintptr_t a = (uintptr_t)p, end = a + n;
    while (a < end) {
        uintptr_t g = a >> 3, stop = (g + 1) << 3;
        if (stop > end) stop = end;
        uint32_t lo = a & 7, hi = uint32_t(stop - (g << 3));
        uint32_t mask = (1u << hi) - (1u << lo);
        Cell* c = cell(g);
        if (c->mask == 0xffffffff) c->mask = mask;
        if (c->mask && c->mask != mask) {       // from now on, byte by byte
            uint32_t old = c->mask;
            uint32_t row[4][kT];
            memcpy(row, c->t[0], sizeof row);
            for (int b = 0; b < 8; b++) if (old >> b & 1) memcpy(c->t[b], row, sizeof row); else memset(c->t[b], 0, sizeof row);
            c->mask = 0;
        }
        if (c->mask) check_row(c->t[0], kind, p, n, what);
        else for (uint32_t b = lo; b < hi; b++) check_row(c->t[b], kind, p, n, what);
        a = stop;
    }
}
void tick() { cur().vc.c[g_cur]++; }
void changed() { g_change++; }

void* arena_alloc(size_t n, size_t align) {
    if (align < 16) align = 16;
    size_t want = n ? n : 1;
    int b = -1;
    if (g_opt.reuse) {
        for (int i = g_nblk - 1; i >= 0 && b < 0; i--)
            if (g_blk[i].state == 2 && (g_blk[i].size + 15) / 16 == (want + 15) / 16 && (uintptr_t)(g_arena + g_blk[i].off) % align == 0) b = i;
    }
    if (b < 0) {
        size_t off = (g_bump + 32 + align - 1) / align * align;
        if (off + want + 64 > kArena || g_nblk == kBlocks) mc::fail("runaway allocation");
        b = g_nblk++;
        g_blk[b].off = off;
        g_bump = off + (want + 15) / 16 * 16;
    }
    g_blk[b].size = want;
    g_blk[b].state = 1;
    for (size_t o = g_blk[b].off / 8; o < (g_blk[b].off + (want + 15) / 16 * 16) / 8; o++) g_owner[o] = b + 1;
    char* p = g_arena + g_blk[b].off;
    memset(p, 0xA5, want);
    // fresh memory has no past: drop what its previous incarnation left
    for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + want - 1) >> 3; g++) {
        if (!g_opt.reuse) break;
        Cell* c = cell(g);
        c->mask = 0xffffffff;
        memset(c->t[0], 0, sizeof c->t[0]);
        for (int k = 0; k < 8; k++) {
            const void* a = (const void*)(g * 8 + k);
            sync_of(a)->rel.clear();
        }
    }
    g_live++;
    changed();
    return p;
}
void arena_free(void* p) {
    size_t off = (char*)p - g_arena;
    int b = g_owner[off / 8];
    char buf[128];
    if (!b || g_blk[b - 1].off != off) mc::fail("thread %d: free of something that is not a block: %s", g_cur, where(p, buf, sizeof buf));
    if (g_blk[b - 1].state == 2) mc::fail("thread %d: double free of block %d of %u bytes (freed by thread %d)", g_cur, b, g_blk[b - 1].size, g_blk[b - 1].by);
    if (g_in && !cur().quiet) access(p, g_blk[b - 1].size, PW, "free");
    g_blk[b - 1].state = 2;
    g_blk[b - 1].by = g_cur;
    memset(p, 0xDD, g_blk[b - 1].size);
    g_live--;
    changed();
}

// --- mutexes and friends --------------------------------------------------------
struct Mtx { const void* key; uint32_t gen; int owner; int count; VC vc; };
constexpr int kMtx = 64;
Mtx g_mtx[kMtx];
Mtx* mtx(const void* p) {
    for (Mtx& m : g_mtx) {
        if (m.gen == g_gen && m.key == p) return &m;
        if (m.gen != g_gen) { m.gen = g_gen; m.key = p; m.owner = -1; m.count = 0; m.vc.clear(); return &m; }
    }
    mc::fail("thread engine: too many mutexes");
}
struct Key { bool used; void (*dtor)(void*); };
Key g_key[kKeys];
int g_keys_live, g_keys_created;
struct KeyVal { int key; void* v; };
void* g_kv[kT][kKeys];
bool g_kv_dirty;

// --- the scheduler ----------------------------------------------------------------
bool spin_ready(const Fiber& f) { return f.spin_at != g_change || g_forced_spin; }
void deadlock() {
    std::string s;
    for (int t = 0; t < g_n; t++) {
        if (g_f[t].state != BLOCKED) continue;
        char b[96];
        static const char* w[] = {"?", "a mutex", "a condition", "a thread", "a change while spinning", "a once control"};
        snprintf(b, sizeof b, " thread %d waits for %s;", t, w[g_f[t].why]);
        s += b;
    }
    mc::fail("deadlock:%s", s.c_str());
}
bool enabled(const Fiber& f) { return f.state == READY || (f.state == BLOCKED && f.why == SPIN && spin_ready(f)); }
void record_state() {
    uint64_t h = mc::hash_bytes(g_arena, g_bump, g_cur);
    for (int t = 0; t < g_n; t++) h = mc::mix(h, (uint64_t(g_f[t].steps) << 8) | g_f[t].state << 4 | g_f[t].why);
    mc::state(h);
}
// Picks who runs next.  |free_switch|: the current thread cannot or does not insist to go on.
void reschedule(bool free_switch) {
    for (;;) {
        int list[kT], n = 0;
        uint32_t can = 0;
        for (int t = 0; t < g_n; t++) if (enabled(g_f[t])) can |= 1u << t;
        bool me = can >> g_cur & 1;
        if (me && !free_switch) list[n++] = g_cur;
        for (int fair = 1; fair >= 0 && n == 0 + (me && !free_switch); fair--)
            for (int k = 1; k <= g_n; k++) {
                int t = (g_cur + k) % g_n;
                if (t == g_cur && !(me && free_switch)) continue;
                if (!(can >> t & 1)) continue;
                if (fair && (g_f[t].after & can)) continue;
                list[n++] = t;
            }
        if (n == 0) {
            bool spinner = false, alive = false;
            for (int t = 0; t < g_n; t++) { alive |= g_f[t].state != DONE; spinner |= g_f[t].state == BLOCKED && g_f[t].why == SPIN; }
            if (!alive) to_main();
            if (!spinner) deadlock();
            // Only spinning threads are left: let them run on, in turn; if nothing changes for long, nothing ever will.
            g_forced_spin = true;
            continue;
        }
        int pick;
        if (g_forced_spin && n > 0) {
            pick = list[0];
            if (++g_forced_steps > 2000) mc::fail("livelock: every thread that is left spins without effect");
        } else {
            int c = n == 1 ? 0 : mc::choose_cost(n, (me && !free_switch) ? 1 : 0);
            pick = list[c];
        }
        Fiber& f = g_f[pick];
        if (f.state == BLOCKED && f.why == SPIN) { f.state = READY; f.why = NONE; }
        for (int t = 0; t < g_n; t++) g_f[t].after &= ~(1u << pick);
        f.run_length = pick == g_cur ? f.run_length + 1 : 0;
        if (pick != g_cur) mc::log("    -- thread %d runs", pick);
        switch_to(pick);
        return;
    }
}
void block(Why w, const void* on) {
    Fiber& f = cur();
    f.state = BLOCKED;
    f.why = w;
    f.on = on;
    reschedule(true);
}
void wake(Fiber& f) { f.state = READY; f.why = NONE; f.on = nullptr; }
void spin_wait() {
    Fiber& f = cur();
    if (++f.yields > 2) f.after = ((1u << g_n) - 1) & ~(1u << g_cur);
    if (f.yielded && f.spin_at == g_change) { f.state = BLOCKED; f.why = SPIN; reschedule(true); f.yielded = false; return; }
    f.yielded = true;
    f.spin_at = g_change;
    reschedule(true);
}
// Before every visible operation.
void point(const char* what, const void* p) {
    if (!g_in || cur().quiet) return;
    Fiber& f = cur();
    f.steps++;
    mc::transitions(1);
    if (++g_step > g_opt.max_steps) mc::fail("no end: %u steps", g_step);
    if (mc::logging()) { char buf[128]; mc::log("  T%d %s%s%s", g_cur, what, p ? " in " : "", p ? where(p, buf, sizeof buf) : ""); }
    record_state();
    if (f.quiet_at == g_change) {
        if (++f.quiet_steps > 40) { f.quiet_steps = 30; f.yielded = true; f.spin_at = g_change; spin_wait(); tick(); return; }
    } else {
        f.quiet_at = g_change;
        f.quiet_steps = 0;
        if (g_forced_spin) { g_forced_spin = false; g_forced_steps = 0; }
    }
    if (f.run_length > 500) { f.run_length = 0; spin_wait(); } else reschedule(false);
    tick();
}

void thread_main() {
    Fiber& f = cur();
    f.ret = f.fn(f.arg);
    for (int k = f.n_at_exit - 1; k >= 0; k--) f.at_exit[k].f(f.at_exit[k].a);
    for (int round = 0; round < 4; round++) {
        bool any = false;
        for (int k = 0; k < kKeys; k++) {
            void* v = g_kv[g_cur][k];
            if (!v || !g_key[k].used || !g_key[k].dtor) continue;
            g_kv[g_cur][k] = nullptr;
            any = true;
            g_key[k].dtor(v);
        }
        if (!any) break;
    }
    tick();
    f.state = DONE;
    changed();
    for (int t = 0; t < g_n; t++) if (g_f[t].state == BLOCKED && g_f[t].why == JOIN && g_f[t].on_thread == g_cur) wake(g_f[t]);
    mc::log("  T%d ends", g_cur);
    reschedule(true);
    __builtin_trap();
}
extern "C" void thr_entry() { thread_main(); }

int new_fiber(void* (*fn)(void*), void* arg) {
    if (g_n == kT) mc::fail("thread engine: more than %d threads", kT);
    int t = g_n++;
    Fiber& f = g_f[t];
    char* stack = f.stack;
    char* tls = f.tls;
    f = Fiber();
    f.stack = stack;
    f.tls = tls;
    if (!f.stack) {
        f.stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f.stack, 4096, PROT_NONE);
        f.tls = (char*)__libc_malloc(g_tls_size + 1);
    }
    if (g_tls_size) { memset(f.tls, 0, g_tls_size); memcpy(f.tls, g_tls_img, g_tls_img_size); }
    f.fn = fn;
    f.arg = arg;
    f.state = READY;
    uintptr_t* sp = (uintptr_t*)(f.stack + kStack - 64);
    *--sp = 0;                                  // alignment: rsp % 16 == 8 on entry
    *--sp = (uintptr_t)thr_entry;
    for (int k = 0; k < 6; k++) *--sp = 0;
    f.sp = sp;
    f.vc.c[t] = 1;
    if (t) { f.vc.join(cur().vc); f.vc.c[t] = 1; tick(); }
    return t;
}
int find_tls(dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; k++) {
        if (i->dlpi_phdr[k].p_type != PT_TLS) continue;
        g_tls_img = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
        g_tls_img_size = i->dlpi_phdr[k].p_filesz;
        g_tls_size = i->dlpi_phdr[k].p_memsz;
        g_tls_base = (char*)i->dlpi_tls_data;
    }
    return 1;                                   // the first one is the program itself
}
void prune_in_world() {
    if (!g_in) return;
    g_abandon = true;
    to_main();
}
void init_once() {
    static bool done;
    if (done) return;
    done = true;
    __libc_single_threaded = 0;
    dl_iterate_phdr(find_tls, nullptr);
    g_arena = (char*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_cell = (Cell*)mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_sync = (Sync*)mmap(nullptr, sizeof(Sync) * kSyncs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mc::prune_hook = prune_in_world;
}
const std::function<void()>* g_body;
void* body_main(void*) {
    (*g_body)();
    return nullptr;
}
}  // namespace

namespace thr {
void run(const std::function<void()>& body, const Options& o) {
    init_once();
    g_opt = o;
    g_gen++;
    if (g_bump) memset(g_owner, 0, (g_bump / 8 + 16) * sizeof g_owner[0]);
    g_bump = 0;
    g_nblk = 0;
    g_live = 0;
    g_n = 0;
    g_change = 1;
    g_step = 0;
    g_abandon = false;
    g_forced_spin = false;
    g_forced_steps = 0;
    g_keys_live = g_keys_created = 0;
    if (g_kv_dirty) { memset(g_kv, 0, sizeof g_kv); memset(g_key, 0, sizeof g_key); g_kv_dirty = false; }
    g_body = &body;
    g_cur = -1;
    int t = new_fiber(body_main, nullptr);
    g_cur = t;
    std::string tls_main(g_tls_base ? g_tls_base : "", g_tls_size);
    void* oc = std::__once_callable;
    void (*ocl)() = std::__once_call;
    tls_load(t);
    g_in = true;
    thr_switch(&g_main_sp, g_f[t].sp);
    g_in = false;
    if (g_tls_size) memcpy(g_tls_base, tls_main.data(), g_tls_size);
    std::__once_callable = oc;
    std::__once_call = ocl;
    if (g_abandon) { g_cur = -1; mc::prune(); }
    if (o.leak_check) {
        for (int k = 0; k < g_nblk; k++) if (g_blk[k].state == 1) mc::fail("leak: block %d of %u bytes (%zu in all)", k + 1, g_blk[k].size, g_live);
        if (g_keys_live) mc::fail("%d thread-local slots were not given back", g_keys_live);
        for (int k = 0; k < g_n; k++) if (k && !g_f[k].joined && !g_f[k].detached) mc::fail("thread %d was neither joined nor detached", k);
    }
    g_cur = -1;
}
void parallel(std::initializer_list<std::function<void()>> fs) {
    int id[kT], n = 0;
    for (auto& f : fs)
        id[n++] = new_fiber([](void* a) -> void* { (*(const std::function<void()>*)a)(); return nullptr; }, (void*)&f);
    changed();
    for (int k = 0; k < n; k++) {
        while (g_f[id[k]].state != DONE) { cur().on_thread = id[k]; block(JOIN, nullptr); }
        g_f[id[k]].joined = true;
        cur().vc.join(g_f[id[k]].vc);
    }
    tick();
}
Quiet::Quiet() { if (g_in) cur().quiet++; }
Quiet::~Quiet() { if (g_in && on) cur().quiet--; }
void Quiet::end() { if (g_in && on) cur().quiet--; on = false; }
int self() { return g_cur; }
const char* name_of(int t) { return t < g_n ? g_f[t].name : ""; }
int keys_live() { return g_keys_live; }
int keys_created() { return g_keys_created; }
size_t heap_live() { return g_live; }
void sched_point() { point("step", nullptr); }
void progress() { changed(); }
uint64_t now() { return g_step; }
bool threads_done_except_self() {
    for (int t = 0; t < g_n; t++) if (t != g_cur && g_f[t].state != DONE) return false;
    return true;
}
bool asserts(const std::function<void()>& f) {
    jmp_buf jb;
    Fiber& me = cur();
    jmp_buf* old = me.assert_jmp;
    int q = me.quiet;
    me.assert_jmp = &jb;
    volatile bool hit = false;
    if (setjmp(jb) == 0) f();
    else hit = true;
    cur().assert_jmp = old;
    cur().quiet = q;
    return hit;
}
}  // namespace thr

// --- memory accesses ---------------------------------------------------------------
namespace {
inline bool on() { return g_in && !cur().quiet; }
inline void rd(const void* p, size_t n) { if (on()) access(p, n, PR, "read"); }
inline void wr(const void* p, size_t n) {
    if (!on()) return;
    access(p, n, PW, "write");
}
inline void vrd(const void* p, size_t n) { if (on()) { point("volatile read", p); access(p, n, AR, "volatile read"); } }
inline void vwr(const void* p, size_t n) { if (on()) { point("volatile write", p); access(p, n, AW, "volatile write"); changed(); } }
bool acq(int mo) { mo &= 0xff; return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { mo &= 0xff; return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void sync_load(const void* p, int mo) {
    Sync* s = sync_of(p);
    if (acq(mo)) cur().vc.join(s->rel); else cur().acq.join(s->rel);
}
void sync_store(const void* p, int mo) {
    Sync* s = sync_of(p);
    s->rel = rel(mo) ? cur().vc : cur().rel;
}
void sync_rmw(const void* p, int mo) {
    Sync* s = sync_of(p);
    if (acq(mo)) cur().vc.join(s->rel); else cur().acq.join(s->rel);
    s->rel.join(rel(mo) ? cur().vc : cur().rel);
}
template <class T> T a_load(const volatile T* p, int mo) {
    if (!on()) return *p;
    point("atomic load", (void*)p);
    access((void*)p, sizeof(T), AR, "atomic read");
    sync_load((void*)p, mo);
    return *p;
}
template <class T> void a_store(volatile T* p, T v, int mo) {
    if (!on()) { *p = v; return; }
    point("atomic store", (void*)p);
    access((void*)p, sizeof(T), AW, "atomic write");
    sync_store((void*)p, mo);
    if (*p != v) changed();
    *p = v;
}
template <class T, class F> T a_rmw(volatile T* p, int mo, const char* what, F f) {
    T old = *p;
    if (!on()) { *p = f(old); return old; }
    point(what, (void*)p);
    access((void*)p, sizeof(T), AW, "atomic update");
    sync_rmw((void*)p, mo);
    old = *p;
    T v = f(old);
    if (v != old) changed();
    *p = v;
    return old;
}
template <class T> bool a_cas(volatile T* p, T* expected, T v, int mo, int fmo, bool weak) {
    if (!on()) { if (*p == *expected) { *p = v; return true; } *expected = *p; return false; }
    point("compare-and-swap", (void*)p);
    bool spurious = weak && g_opt.spurious && *p == *expected && mc::choose_dev(2) == 1;
    if (*p == *expected && !spurious) {
        access((void*)p, sizeof(T), AW, "atomic update");
        sync_rmw((void*)p, mo);
        if (*p != v) changed();
        *p = v;
        return true;
    }
    access((void*)p, sizeof(T), AR, "atomic read");
    sync_load((void*)p, fmo);
    *expected = *p;
    return false;
}
typedef uint8_t a1;
typedef uint16_t a2;
typedef uint32_t a4;
typedef uint64_t a8;
typedef unsigned __int128 a16;
}  // namespace

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { wr(p, 8); }
void __tsan_vptr_read(void** p) { rd(p, 8); }
void __tsan_read_range(void* p, size_t n) { rd(p, n); }
void __tsan_write_range(void* p, size_t n) { wr(p, n); }
#define RW(n)                                                     \
    void __tsan_read##n(void* p) { rd(p, n); }                    \
    void __tsan_write##n(void* p) { wr(p, n); }                   \
    void __tsan_unaligned_read##n(void* p) { rd(p, n); }          \
    void __tsan_unaligned_write##n(void* p) { wr(p, n); }         \
    void __tsan_volatile_read##n(void* p) { vrd(p, n); }          \
    void __tsan_volatile_write##n(void* p) { vwr(p, n); }         \
    void __tsan_unaligned_volatile_read##n(void* p) { vrd(p, n); }\
    void __tsan_unaligned_volatile_write##n(void* p) { vwr(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(bits, T)                                                                                                                          \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load(p, mo); }                                                       \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store(p, v, mo); }                                                       \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return a_rmw(p, mo, "atomic exchange", [v](T) { return v; }); }            \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return a_rmw(p, mo, "atomic add", [v](T o) { return T(o + v); }); }       \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw(p, mo, "atomic sub", [v](T o) { return T(o - v); }); }       \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return a_rmw(p, mo, "atomic and", [v](T o) { return T(o & v); }); }       \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return a_rmw(p, mo, "atomic or", [v](T o) { return T(o | v); }); }         \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw(p, mo, "atomic xor", [v](T o) { return T(o ^ v); }); }       \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw(p, mo, "atomic nand", [v](T o) { return T(~(o & v)); }); }  \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas(p, e, v, mo, fmo, false); }  \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas(p, e, v, mo, fmo, true); }     \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { a_cas(p, &e, v, mo, fmo, false); return e; }
AT(8, a1) AT(16, a2) AT(32, a4) AT(64, a8) AT(128, a16)
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    point("fence", nullptr);
    if (acq(mo)) cur().vc.join(cur().acq);
    if (rel(mo)) cur().rel = cur().vc;
}
void __tsan_atomic_signal_fence(int) {}

// --- heap entry points ---------------------------------------------------------
void* malloc(size_t n) { return g_in ? arena_alloc(n, 16) : __libc_malloc(n); }
void* calloc(size_t a, size_t b) {
    if (!g_in) return __libc_calloc(a, b);
    void* p = arena_alloc(a * b, 16);
    memset(p, 0, a * b);
    return p;
}
void free(void* p) {
    if (!p) return;
    if (g_arena && in_arena(p)) arena_free(p); else __libc_free(p);
}
void* realloc(void* p, size_t n) {
    if (p ? !(g_arena && in_arena(p)) : !g_in) return __libc_realloc(p, n);
    void* q = arena_alloc(n, 16);
    if (p) {
        size_t old = g_blk[g_owner[((char*)p - g_arena) / 8] - 1].size;
        memcpy(q, p, old < n ? old : n);
        arena_free(p);
    }
    return q;
}
int posix_memalign(void** out, size_t al, size_t n) {
    *out = g_in ? arena_alloc(n, al) : __libc_memalign(al, n);
    return *out ? 0 : ENOMEM;
}
void* aligned_alloc(size_t al, size_t n) { return g_in ? arena_alloc(n, al) : __libc_memalign(al, n); }

// --- pthreads ----------------------------------------------------------------------
static void* real(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) abort();
    return p;
}
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!g_in) return ((int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))real("pthread_create"))(out, attr, fn, arg);
    point("pthread_create", nullptr);
    if (g_opt.create_faults == 2 || (g_opt.create_faults == 1 && mc::choose_dev(2) == 1)) { mc::log("  T%d pthread_create fails", g_cur); return EAGAIN; }
    int t = new_fiber(fn, arg);
    if (attr) { int d = 0; pthread_attr_getdetachstate(attr, &d); g_f[t].detached = d == PTHREAD_CREATE_DETACHED; }
    *out = (pthread_t)(t + 1);
    changed();
    point("thread created", nullptr);
    return 0;
}
static int tid_of(pthread_t h) {
    if (h == 0 || h > (pthread_t)g_n) mc::fail("thread %d: a thread handle that names no thread", g_cur);
    return int(h) - 1;
}
int pthread_join(pthread_t h, void** ret) {
    if (!g_in) return ((int (*)(pthread_t, void**))real("pthread_join"))(h, ret);
    point("pthread_join", nullptr);
    int t = tid_of(h);
    if (g_f[t].joined || g_f[t].detached) mc::fail("thread %d joins thread %d, which was already joined or detached", g_cur, t);
    if (t == g_cur) return EDEADLK;
    while (g_f[t].state != DONE) { cur().on_thread = t; block(JOIN, nullptr); }
    g_f[t].joined = true;
    cur().vc.join(g_f[t].vc);
    changed();
    if (ret) *ret = g_f[t].ret;
    return 0;
}
int pthread_detach(pthread_t h) {
    if (!g_in) return ((int (*)(pthread_t))real("pthread_detach"))(h);
    int t = tid_of(h);
    if (g_f[t].joined || g_f[t].detached) mc::fail("thread %d detaches thread %d, which was already joined or detached", g_cur, t);
    g_f[t].detached = true;
    return 0;
}
pthread_t pthread_self() {
    if (!g_in) { static pthread_t (*r)(); if (!r) r = (pthread_t(*)())real("pthread_self"); return r(); }
    return (pthread_t)(g_cur + 1);
}
static int set_name(int t, const char* n) {
    point("set thread name", nullptr);
    size_t len = strlen(n);
    if (on()) access(n, len + 1, PR, "read of a thread name");
    if (len > 15) return ERANGE;
    memcpy(g_f[t].name, n, len + 1);
    return 0;
}
int pthread_setname_np(pthread_t h, const char* n) {
    if (!g_in) return 0;
    int t = tid_of(h);
    if (g_f[t].joined || (g_f[t].detached && g_f[t].state == DONE)) mc::fail("thread %d names a thread that is gone", g_cur);
    return set_name(t, n);
}
int pthread_getname_np(pthread_t h, char* buf, size_t n) {
    if (!g_in) return EINVAL;
    int t = tid_of(h);
    if (strlen(g_f[t].name) >= n) return ERANGE;
    strcpy(buf, g_f[t].name);
    return 0;
}
int prctl(int op, ...) {
    va_list ap;
    va_start(ap, op);
    unsigned long a = va_arg(ap, unsigned long), b = va_arg(ap, unsigned long), c = va_arg(ap, unsigned long), d = va_arg(ap, unsigned long);
    va_end(ap);
    if (g_in && op == PR_SET_NAME) { char t[16]; snprintf(t, sizeof t, "%s", (const char*)a); return set_name(g_cur, t); }
    if (g_in && op == PR_GET_NAME) { strcpy((char*)a, g_f[g_cur].name); return 0; }
    return (int)syscall(SYS_prctl, op, a, b, c, d);
}
int sched_yield() {
    if (!g_in) return 0;
    if (cur().quiet) return 0;
    Fiber& f = cur();
    f.steps++;
    mc::transitions(1);
    if (++g_step > g_opt.max_steps) mc::fail("no end: %u steps", g_step);
    mc::log("  T%d yields", g_cur);
    spin_wait();
    tick();
    return 0;
}
int nanosleep(const timespec* a, timespec* b) { return g_in ? sched_yield() : (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) { return g_in ? sched_yield() : (int)syscall(SYS_clock_nanosleep, c, fl, a, b) ? errno : 0; }
int usleep(useconds_t us) {
    if (g_in) return sched_yield();
    timespec ts{time_t(us / 1000000), long(us % 1000000) * 1000};
    return (int)syscall(SYS_nanosleep, &ts, nullptr);
}

static void m_check(const void* m, size_t n, const char* w) {
    if (on()) check_heap(m, n, w);
}
static int m_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int m_lock(pthread_mutex_t* m, bool wait) {
    Mtx* x = mtx(m);
    if (x->owner == g_cur) {
        if (m_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
        if (!wait) return EBUSY;
        if (m_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (x->owner >= 0) {
        if (!wait) return EBUSY;
        block(MUTEX, m);
        x = mtx(m);
    }
    x->owner = g_cur;
    x->count = 1;
    cur().vc.join(x->vc);
    changed();
    return 0;
}
static int m_unlock(pthread_mutex_t* m) {
    Mtx* x = mtx(m);
    if (x->owner != g_cur) {
        if (m_kind(m) == PTHREAD_MUTEX_ERRORCHECK || m_kind(m) == PTHREAD_MUTEX_RECURSIVE) return EPERM;
        mc::fail("thread %d unlocks a mutex that %s", g_cur, x->owner < 0 ? "is not locked" : "another thread holds");
    }
    if (--x->count) return 0;
    x->owner = -1;
    x->vc = cur().vc;
    tick();
    changed();
    for (int t = 0; t < g_n; t++) if (g_f[t].state == BLOCKED && g_f[t].why == MUTEX && g_f[t].on == m) wake(g_f[t]);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!g_in) return 0;
    point("mutex lock", m);
    m_check(m, sizeof *m, "mutex lock");
    return m_lock(m, true);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!g_in) return 0;
    point("mutex try-lock", m);
    m_check(m, sizeof *m, "mutex try-lock");
    return m_lock(m, false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) {
    point("mutex timed lock", m);
    m_check(m, sizeof *m, "mutex timed lock");
    if (m_lock(m, false) == 0) return 0;
    if (mc::choose(2)) return ETIMEDOUT;
    return m_lock(m, true);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, t); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!g_in) return 0;
    point("mutex unlock", m);
    m_check(m, sizeof *m, "mutex unlock");
    return m_unlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!g_in) return 0;
    if (mtx(m)->owner >= 0) mc::fail("thread %d destroys a locked mutex", g_cur);
    mtx(m)->vc.clear();
    return 0;
}
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    point("condition wait", c);
    m_check(c, sizeof *c, "condition wait");
    int r = m_unlock(m);
    if (r) return r;
    cur().cond_signaled = false;
    bool timeout = timed && mc::choose(2) == 1;
    if (!timeout) block(COND, c); else reschedule(true);
    if (m_lock(m, true)) mc::fail("condition wait: the mutex could not be taken back");
    return timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return g_in ? c_wait(c, m, false) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return g_in ? c_wait(c, m, true) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return g_in ? c_wait(c, m, true) : 0; }
static void c_wake(pthread_cond_t* c, bool all) {
    m_check(c, sizeof *c, "condition signal");
    int w[kT], n = 0;
    for (int t = 0; t < g_n; t++) if (g_f[t].state == BLOCKED && g_f[t].why == COND && g_f[t].on == c) w[n++] = t;
    if (!n) return;
    changed();
    if (all) { for (int k = 0; k < n; k++) wake(g_f[w[k]]); return; }
    wake(g_f[w[n == 1 ? 0 : mc::choose(n)]]);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!g_in) return 0;
    point("condition signal", c);
    c_wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!g_in) return 0;
    point("condition broadcast", c);
    c_wake(c, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!g_in) return 0;
    for (int t = 0; t < g_n; t++) if (g_f[t].state == BLOCKED && g_f[t].why == COND && g_f[t].on == c) mc::fail("thread %d destroys a condition others wait on", g_cur);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!g_in) return ((int (*)(pthread_once_t*, void (*)()))real("pthread_once"))(o, f);
    point("once", o);
    Sync* s = sync_of(o);
    while (*o == 1) block(ONCE, o);
    if (*o == 2) { cur().vc.join(s->rel); return 0; }
    *o = 1;
    f();
    *o = 2;
    sync_of(o)->rel = cur().vc;
    tick();
    changed();
    for (int t = 0; t < g_n; t++) if (g_f[t].state == BLOCKED && g_f[t].why == ONCE && g_f[t].on == o) wake(g_f[t]);
    return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
    if (g_in && !cur().quiet) {
        point("static initialisation", g);
        while (((char*)g)[1] == 1) block(ONCE, g);
        if (((char*)g)[0]) cur().vc.join(sync_of(g)->rel);
    }
    if (((char*)g)[0]) return 0;
    ((char*)g)[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    ((char*)g)[0] = 1;
    ((char*)g)[1] = 0;
    if (!g_in) return;
    sync_of(g)->rel = cur().vc;
    tick();
    changed();
    for (int t = 0; t < g_n; t++) if (g_f[t].state == BLOCKED && g_f[t].why == ONCE && g_f[t].on == g) wake(g_f[t]);
}
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; }
int __cxa_thread_atexit(void (*f)(void*), void* a, void*) {
    if (!g_in) return 0;
    if (cur().n_at_exit == 16) mc::fail("thread engine: too many thread_local destructors");
    cur().at_exit[cur().n_at_exit++] = {f, a};
    return 0;
}

int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    if (!g_in) return ((int (*)(pthread_key_t*, void (*)(void*)))real("pthread_key_create"))(k, d);
    point("key create", nullptr);
    if (g_opt.key_faults == 2 || g_keys_live >= g_opt.max_keys || (g_opt.key_faults == 1 && mc::choose_dev(2) == 1)) { mc::log("  T%d key create fails", g_cur); return mc::choose(2) ? ENOMEM : EAGAIN; }
    for (int i = 0; i < kKeys; i++) {
        if (g_key[i].used) continue;
        g_kv_dirty = true;
        g_key[i] = {true, d};
        for (int t = 0; t < kT; t++) g_kv[t][i] = nullptr;
        g_keys_live++;
        g_keys_created++;
        changed();
        *k = i;                                 // (the caller's plain write: checked below)
        if (on()) access(k, sizeof *k, PW, "write of a key");
        return 0;
    }
    return EAGAIN;
}
int pthread_key_delete(pthread_key_t k) {
    if (!g_in) return ((int (*)(pthread_key_t))real("pthread_key_delete"))(k);
    point("key delete", nullptr);
    if (k >= kKeys || !g_key[k].used) mc::fail("thread %d gives back a thread-local slot that is not in use (%u)", g_cur, k);
    g_key[k].used = false;
    g_keys_live--;
    changed();
    return 0;
}
void* pthread_getspecific(pthread_key_t k) {
    if (!g_in) return ((void* (*)(pthread_key_t))real("pthread_getspecific"))(k);
    if (k >= kKeys || !g_key[k].used) mc::fail("thread %d reads a thread-local slot that does not exist (%u)", g_cur, k);
    return g_kv[g_cur][k];
}
int pthread_setspecific(pthread_key_t k, const void* v) {
    if (!g_in) return ((int (*)(pthread_key_t, const void*))real("pthread_setspecific"))(k, v);
    if (k >= kKeys || !g_key[k].used) mc::fail("thread %d writes a thread-local slot that does not exist (%u)", g_cur, k);
    g_kv_dirty = true;
    g_kv[g_cur][k] = (void*)v;
    return 0;
}
void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
    if (g_in && cur().assert_jmp) longjmp(*cur().assert_jmp, 1);
    if (g_in) mc::fail("thread %d: assertion \"%s\" failed in %s", g_cur, e, fn ? fn : "?");
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, e);
    abort();
}
}  // extern "C"

// operator new/delete go through malloc/free above (libstdc++'s own definitions call them)

// H04: hash containers survive any allocation failure and report it; memory goes through the given policy.
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "hash_common.h"

namespace hc { int g_kind; }
using namespace hc;

namespace {
using AP = mc::ArenaPolicy;
using mc::MTok;
using mc::Tok;
mc::Arena arena[2] = {{"a"}, {"b"}};

template <class Box>
struct Fault {
    using C = typename Box::C;
    Dict<Box> d;
    int next = 1;
    mc::Arena* own;
    int k_of_mode = 0;

    void init() {
        static const int caps[] = {0, 16, 32};
        int cap = caps[mc::choose(3)];
        MC_CHECK(&d.c->allocPolicy() != nullptr && d.c->allocPolicy().arena == own, "the accessor exposes a policy other than the one given");
        const C& cc = *d.c;
        MC_CHECK(cc.allocPolicy().arena == own, "the const accessor exposes a policy other than the one given");
        for (int tries = 0;; tries++) {
            int64_t ref = own->refused;
            bool ok = d.c->init(cap);
            mc::op("init(%d): %d", cap, ok);
            MC_CHECK(ok == (own->refused == ref), "init returned %d although the allocator %s", ok, own->refused == ref ? "agreed" : "refused");
            if (ok) { d.ready = true; break; }
            MC_CHECK(d.c->elements() == 0, "count after failed init");
            if (mc::choose(2) == 0) return;     // destroyed without ever working
            MC_CHECK(tries < 3, "tries");
        }
        MC_CHECK(d.c->estimateMemoryUse() >= 16, "memory estimate");
    }
    void put(int k, int form) {
        auto before = d.m;
        size_t mem = d.c->estimateMemoryUse();
        int64_t ref = own->refused, ovf = own->overflows, blocks = own->blocks;
        bool ok = d.put(k, next++, form);
        if (before.count(k)) { MC_CHECK(ok, "overwrite"); return; }
        MC_CHECK(own->overflows == ovf, "overflow reported");
        MC_CHECK(ok == (own->refused == ref), "insertion of key %d returned %d although the allocator %s", k, ok, own->refused == ref ? "agreed" : "refused");
        if (!ok) {
            mc::log("  failed");
            MC_CHECK(d.m == before, "model");
            MC_CHECK(d.c->estimateMemoryUse() == mem && own->blocks == blocks, "a failed insertion changed the memory in use");
            d.full(-2, 8);
            d.iterate();
            if (mc::choose(2)) {   // memory becomes available: the same insertion succeeds
                bool inj = own->inject;
                own->inject = false;
                mc::op("again, with memory");
                MC_CHECK(d.put(k, next++, form), "insertion fails although memory is available");
                own->inject = inj;
            }
        }
    }
    void density() {
        size_t mem = d.c->estimateMemoryUse();
        int64_t ref = own->refused, blocks = own->blocks;
        bool ok = Box::density(*d.c);
        MC_CHECK(ok == (own->refused == ref), "checkDensity returned %d although the allocator %s", ok, own->refused == ref ? "agreed" : "refused");
        MC_CHECK(own->blocks == blocks, "checkDensity changed the number of blocks");
        if (!ok) MC_CHECK(d.c->estimateMemoryUse() == mem, "a failed resize changed the memory in use");
        d.full(-1, 6);
    }
    void fill_to_brink(int n) {
        own->inject = false;
        for (int k = 0; k < n; k++) MC_CHECK(d.put(100 + k, next++), "fill");
        own->inject = true;
    }
    void step() {
        switch (mc::choose(8 + Box::has_density)) {
            case 8: { mc::op("check the density"); density(); break; }
            case 0: { int k = mc::choose(3); mc::op("put %d", k); put(k, 0); break; }
            case 1: { mc::op("put three fillers"); for (int k = 0; k < 3; k++) put(200 + next, k); break; }
            case 2: { int k = mc::choose(2) ? 1 : 104; mc::op("remove %d", k); d.erase(k, 0); break; }
            case 3: { mc::op("clear"); d.clear(); break; }
            case 4: { mc::op("find all"); d.full(-1, 6); break; }
            case 5: {
                mc::op("move through a temporary");
                C t(std::move(*d.c));
                MC_CHECK(t.allocPolicy().arena == own, "a moved container lost its policy");
                d.c.reset();
                d.c.emplace(std::move(t));
                break;
            }
            case 6: { mc::op("remove most, then insert"); std::vector<int> ks; for (auto& e : d.m) ks.push_back(e.first); for (size_t k = 2; k < ks.size(); k++) d.erase(ks[k], int(k) % 3); put(400 + next, 0); break; }
            case 7: { mc::op("put 2 (blank)"); put(2, 2); break; }
        }
    }
    void body(int depth) {
        mc::life_reset();
        arena[0] = mc::Arena{"a"};
        arena[1] = mc::Arena{"b"};
        own = &arena[mc::choose(2)];
        mc::g_default_arena = nullptr;
        static const int kinds[] = {kIdentity, kConstant, kLastSlot, kReserved};
        int ks = mc::thorough() ? 4 : 2;
        d.c.emplace(AP(own));
        own->inject = true;
        init();
        if (d.ready) {
            g_kind = kinds[mc::choose(ks)];
            static const int fills[] = {0, 11, 12, 13, 24};
            int n = fills[mc::choose(5)];
            mc::op("%s hash, fill %d", kind_name(g_kind), n);
            fill_to_brink(n);
            for (int s = 0; s < depth; s++) { step(); mc::state(mc::mix(d.model_hash(), own->refused)); }
            d.full(-1, 6);
            mc::observe(mc::mix(d.model_hash(), own->refused));
            own->inject = false;
            for (int k = 0; k < 20; k++) MC_CHECK(d.put(3000 + k, next++), "insertion fails although memory is available");
            d.full(-1, 6);
        }
        own->inject = false;
        d.c.reset();
        mc::life_expect_live(0, "end");
        MC_CHECK(arena[0].blocks == 0 && arena[1].blocks == 0, "memory is not returned");
    }
};

// ---- sizes near and beyond the representable limit ---------------------------------------------------------------
// A policy that never has memory for large requests and records what it is asked for.
struct Recorder { size_t largest = 0, calls = 0; int overflows = 0, oom = 0; };
Recorder rec;
struct RecordPolicy {
    void reportOutOfMemory() { rec.oom++; }
    void reportAllocationOverflow() { rec.overflows++; }
    void* am_malloc(size_t n) {
        rec.calls++;
        if (n > rec.largest) rec.largest = n;
        if (n > (size_t(1) << 33)) { rec.oom++; return nullptr; }
        void* p = malloc(n);
        if (!p) rec.oom++;
        return p;
    }
    void am_free(void* p) { free(p); }
};
template <size_t N> struct Blob { int k; char fill[N - sizeof(int)]; Blob() {} Blob(Blob&& o) : k(o.k) {} };
template <size_t N> struct BlobPolicy {
    typedef Blob<N> Payload;
    static uint32_t hash(int k) { return uint32_t(k) * 1000003; }
    static bool matches(int k, const Payload& p) { return p.k == k; }
};
// init() with every power-of-two capacity: beyond INT_MAX bytes the table must say overflow and not allocate.
template <size_t N>
void init_sizes() {
    using T = ke::HashTable<BlobPolicy<N>, RecordPolicy>;
    int bits = 4 + mc::choose(60);
    size_t cap = size_t(1) << bits;
    size_t probe = 0;
    {   // slot size as the table itself reports it
        T t;
        rec = {};
        if (N * 16 <= (size_t(1) << 28)) { if (t.init(16)) probe = t.estimateMemoryUse() / 16; }
        if (!probe) probe = N + 8;
    }
    bool over = cap > size_t(INT_MAX) / probe;
    bool huge = !over && cap * probe > (size_t(1) << 27);
    mc::op("payload %zu, init(2^%d)", N, bits);
    rec = {};
    T t;
    if (huge) mc::prune();      // representable, but too slow to touch here
    bool ok = t.init(cap);
    if (over) {
        MC_CHECK(!ok, "init(2^%d) of %zu-byte slots succeeded", bits, probe);
        MC_CHECK(rec.overflows == 1, "init(2^%d) of %zu-byte slots: overflow reported %d times", bits, probe, rec.overflows);
        MC_CHECK(rec.calls == 0, "an unrepresentable size (2^%d slots) was requested from the allocator as %zu bytes", bits, rec.largest);
    } else {
        MC_CHECK(ok && rec.overflows == 0, "init(2^%d) of %zu-byte slots failed", bits, probe);
        MC_CHECK(rec.largest >= cap * N, "table of 2^%d slots got %zu bytes", bits, rec.largest);
        MC_CHECK(t.estimateMemoryUse() >= cap * N, "memory estimate");
    }
    mc::state(cap + N);
    mc::observe(over);
}
// Growth at the limit: with a payload so large that 16 slots are representable and 32 are not, the thirteenth insertion
// must report overflow, fail, and leave the table as it was.
template <size_t N>
void grow_limit() {
    using T = ke::HashTable<BlobPolicy<N>, RecordPolicy>;
    rec = {};
    size_t cap = 16;
    while (cap * 2 * (N + 8) <= size_t(INT_MAX)) cap *= 2;
    mc::op("payload %zu, %zu slots, grow", N, cap);
    T t;
    MC_CHECK(t.init(cap), "init");
    size_t k = 0, limit = cap;
    for (; k < limit; k++) {
        auto i = t.findForAdd(int(k));
        MC_CHECK(!i.found(), "absent key %zu", k);
        size_t calls = rec.calls;
        if (!t.add(i)) { MC_CHECK(rec.calls == calls, "overflowing growth was attempted"); break; }
        i->k = int(k);
    }
    mc::transitions(k);
    MC_CHECK(k < limit, "the table never reported that it cannot grow");
    MC_CHECK(rec.overflows == 1, "overflow reported %d times", rec.overflows);
    MC_CHECK(rec.largest <= size_t(INT_MAX), "%zu bytes were requested", rec.largest);
    MC_CHECK(t.elements() == k, "count after refusal");
    for (size_t j = 0; j < k; j++) { auto r = t.find(int(j)); MC_CHECK(r.found() && r->k == int(j), "key %zu lost", j); }
    MC_CHECK(!t.find(int(k)).found(), "refused key present");
    t.removeIfExists(3);
    auto i = t.findForAdd(3);
    MC_CHECK(!i.found() && t.add(i), "reinsertion over a removed slot");
    i->k = 3;
    MC_CHECK(t.elements() == k, "count");
    mc::state(k);
    mc::evaluations(k);
}

// ---- the default policy terminates the process ----------------------------------------------------------------------
int child(const std::function<void()>& f) {
    fflush(nullptr);
    pid_t p = fork();
    if (!p) {
        rlimit z{0, 0};
        setrlimit(RLIMIT_CORE, &z);
        if (!freopen("/dev/null", "w", stderr)) _exit(4);
        f();
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return st;
}
void default_policy() {
    mc::no_leak_check();
    int what = mc::choose(4);
    int st = -1;
    switch (what) {
        case 0: st = child([] { ke::SystemAllocatorPolicy p; p.reportOutOfMemory(); }); break;
        case 1: st = child([] { ke::SystemAllocatorPolicy p; p.reportAllocationOverflow(); }); break;
        case 2: st = child([] { ke::SystemAllocatorPolicy p; void* x = p.am_malloc(size_t(1) << 46); if (x) _exit(3); }); break;
        case 3: st = child([] { ke::HashMap<int, int, IntPolicy> m; m.init(size_t(1) << 40); }); break;
    }
    mc::op("case %d: %#x", what, st);
    if (what == 2) {   // ASan's own allocator may end the process in its own way; what matters is that the call does not return null
        MC_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "a refused allocation returned to the caller");
    } else
        MC_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "the default policy did not abort");
    void* p = ke::SystemAllocatorPolicy().am_malloc(24);
    MC_CHECK(p, "allocation");
    ke::SystemAllocatorPolicy().am_free(p);
    ke::SystemAllocatorPolicy().am_free(nullptr);
    mc::state(what);
}
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    int depth = t ? 3 : 2, dev = t ? 3 : 2;
    mc::add("map", [depth] { Fault<MapBox<int, int, AP>>().body(depth); }, dev, 4);
    mc::add("map-tracked", [depth] { Fault<MapBox<Tok, Tok, AP>>().body(depth); }, dev, 4);
    mc::add("set-moveonly", [depth] { Fault<SetBox<MTok, AP>>().body(depth); }, dev, 4);
    mc::add("table", [depth] { Fault<TableBox<MTok, MTok, AP>>().body(depth); }, dev, 4);
    mc::add("init-sizes-4", init_sizes<4>, 0, 1);
    mc::add("init-sizes-40", init_sizes<40>, 0, 1);
    mc::add("init-sizes-1M", init_sizes<(1 << 20)>, 0, 1);
    mc::add("init-sizes-100M", init_sizes<100000000>, 0, 1);
    mc::add("init-sizes-200M", init_sizes<200000000>, 0, 1);
    mc::add("grow-limit-100M", grow_limit<100000000>, 0, 0);
    mc::add("grow-limit-64M", grow_limit<(64 << 20)>, 0, 0);
    mc::add("grow-limit-4M", grow_limit<(4 << 20)>, 0, 0);
    mc::add("default-policy", default_policy, 0, 1);
}

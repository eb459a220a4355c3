// T01: thread-safe reference counts, every interleaving up to a preemption bound.
#include <amtl/am-refcounting-threadsafe.h>
#include <mc/core.h>
#include <mc/thr.h>

namespace {
// What the references should be, kept outside the code under test.
struct World {
    int held[4];             // references held by threads, per object
    int destroyed[4];
    int releasing[8];        // object + 1 the thread is releasing, directly or through a handle
    int destroyed_by[4];
    int next_id;
} W;
void reset_world() { memset(&W, 0, sizeof W); memset(W.destroyed_by, -1, sizeof W.destroyed_by); }

struct Payload {
    int id;
    int seen[4];             // written by the threads that use the object
    Payload() { thr::Quiet q; id = W.next_id++; }
    void create() { for (int& s : seen) s = 0; }
    // Runs in the destructor: reads everything that users wrote.
    void destroy() {
        int sum = 0;
        for (int k = 0; k < 4; k++) sum += seen[k];
        thr::Quiet q;
        if (W.destroyed[id]++) mc::fail("object %d is destroyed twice", id);
        W.destroyed_by[id] = thr::self();
        if (W.held[id] > 0) mc::fail("object %d is destroyed by thread %d while %d reference(s) are held", id, thr::self(), W.held[id]);
        mc::log("  object %d destroyed by thread %d", id, thr::self());
        mc::observe(thr::self() * 4 + id);
        (void)sum;
    }
    void use(int t) {
        seen[t & 3]++;
        thr::Quiet q;
        if (W.destroyed[id]) mc::fail("object %d is used after its destruction", id);
    }
};
struct Plain : ke::RefcountedThreadsafe<Plain>, Payload {
    Plain() { create(); }
    ~Plain() { destroy(); }
    static constexpr bool reports = true;
};
struct Virtual : ke::VirtualRefcountedThreadsafe, Payload {
    Virtual() { create(); }
    ~Virtual() override { destroy(); }
    static constexpr bool reports = false;
};
struct Iface : ke::IRefcounted {};
struct Mixed : Iface, ke::RefcountedThreadsafe<Mixed>, Payload {
    KE_IMPL_REFCOUNTING_TS(Mixed)
    Mixed() { create(); }
    ~Mixed() override { destroy(); }
    static constexpr bool reports = false;
};
template <class T> void retain(T* o) {
    o->AddRef();
    thr::Quiet q;
    W.held[o->id]++;
}
template <class T> void release(T* o) {
    int id;
    {
        thr::Quiet q;
        id = o->id;
        W.held[id]--;
        if (W.held[id] < 0) mc::fail("driver: too many releases");
        W.destroyed_by[id] = W.destroyed[id] ? W.destroyed_by[id] : -1;
    }
    if constexpr (T::reports) {
        bool survived = o->Release();
        thr::Quiet q;
        bool mine = W.destroyed[id] && W.destroyed_by[id] == thr::self();
        if (survived == mine) mc::fail("Release() returned %d to thread %d, which %s the object", survived, thr::self(), mine ? "destroyed" : "did not destroy");
    } else {
        o->Release();
    }
}
// programs of one thread that starts with one reference and ends with none: R retain, L release, U use
const char* kPrograms[] = {"L", "UL", "RLL", "RULL", "URLL", "RLUL", "RRLLL", "RLRLL"};
template <class T> void run_program(T* o, const char* p) {
    for (; *p; p++) {
        switch (*p) {
            case 'R': retain(o); break;
            case 'L': release(o); break;
            case 'U': o->use(thr::self()); break;
        }
    }
}
template <class T> void direct(int nthreads, int nprograms) {
    int pr[3] = {0, 0, 0}, n = nthreads;
    for (int k = 0; k < n; k++) pr[k] = mc::choose(nprograms);
    for (int k = 1; k < n; k++) if (pr[k] < pr[k - 1]) mc::prune();      // symmetric
    bool main_too = mc::flip();
    mc::op("programs %s %s %s, the creator %s", kPrograms[pr[0]], n > 1 ? kPrograms[pr[1]] : "", n > 2 ? kPrograms[pr[2]] : "", main_too ? "keeps a reference" : "keeps none");
    reset_world();
    thr::run([&] {
        T* o = new T();
        for (int k = 0; k < n + main_too; k++) retain(o);
        auto f = [&](int k) { return [o, &pr, k] { run_program(o, kPrograms[pr[k]]); }; };
        if (n == 2) thr::parallel({f(0), f(1)});
        else thr::parallel({f(0), f(1), f(2)});
        if (main_too) {
            if (W.destroyed[0]) mc::fail("destroyed while the creator holds a reference");
            o->use(0);
            release(o);
        }
        if (W.destroyed[0] != 1) mc::fail("destroyed %d times", W.destroyed[0]);
    });
}
// Owning handles on up to two objects; each thread has two handles and runs a chosen sequence.
template <class T> struct Handles {
    ke::RefPtr<T> h[2];
    int model[2] = {-1, -1};
    static void drop(int& m) { if (m >= 0) W.held[m]--; m = -1; }
    void step(int op) {
        int a = op & 1, b = !a;
        // A handle's references are counted down before and up after the operation.
        int will[2] = {model[0], model[1]};
        switch (op / 2) {
            case 0: will[a] = model[b]; break;
            case 1: will[a] = -1; break;
            case 2: will[a] = model[b]; will[b] = -1; break;
            case 3: break;
            case 4: break;
        }
        { thr::Quiet q; for (int k = 0; k < 2; k++) if (will[k] != model[k] && model[k] >= 0) { W.held[model[k]]--; model[k] = -1; } }
        switch (op / 2) {
            case 0: h[a] = h[b]; break;
            case 1: h[a] = nullptr_of(); break;
            case 2: h[a] = std::move(h[b]); break;
            case 3: { ke::RefPtr<T> c(h[a]); if (c) c->use(thr::self()); } break;
            case 4: { ke::RefPtr<T> c(h[a]); h[a] = c.forget(); } break;
        }
        thr::Quiet q;
        for (int k = 0; k < 2; k++) {
            if (will[k] != model[k] && will[k] >= 0) { W.held[will[k]]++; model[k] = will[k]; }
            int have = h[k].get() ? h[k]->id : -1;
            if (have != model[k]) mc::fail("handle %d of thread %d refers to object %d, not %d", k, thr::self(), have, model[k]);
            if (have >= 0 && W.destroyed[have]) mc::fail("handle %d of thread %d refers to a destroyed object", k, thr::self());
        }
    }
    static T* nullptr_of() { return nullptr; }
    void clear() {
        { thr::Quiet q; drop(model[0]); drop(model[1]); }
        h[0] = nullptr_of();
        h[1] = nullptr_of();
    }
};
constexpr int kOps = 10;
template <class T> void handles(int nthreads, int len) {
    int ops[3][4] = {}, n = nthreads;
    for (int t = 0; t < n; t++) for (int k = 0; k < len; k++) ops[t][k] = mc::choose(kOps);
    if (n == 2 && memcmp(ops[0], ops[1], sizeof ops[0]) > 0) mc::prune();
    bool keep = n == 2 && len == 1 && mc::flip();
    mc::op("%d threads, operations %d,%d / %d,%d / %d,%d", n, ops[0][0], ops[0][1], ops[1][0], ops[1][1], ops[2][0], ops[2][1]);
    reset_world();
    thr::run([&] {
        Handles<T> own[3];
        {
            ke::RefPtr<T> x(new T()), y(new T());
            thr::Quiet q;
            for (int t = 0; t < n; t++) {
                own[t].h[0] = x;
                own[t].h[1] = y;
                own[t].model[0] = x->id;
                own[t].model[1] = y->id;
                W.held[0]++;
                W.held[1]++;
            }
            if (keep) { W.held[0]++; retain(*y), retain(*x); W.held[0]--; }
        }
        auto f = [&](int t) { return [&own, &ops, t, len] { for (int k = 0; k < len; k++) own[t].step(ops[t][k]); own[t].clear(); }; };
        if (n == 2) thr::parallel({f(0), f(1)});
        else thr::parallel({f(0), f(1), f(2)});
        for (int o = 0; o < 2; o++) if (!keep && W.destroyed[o] != 1) mc::fail("object %d was destroyed %d times", o, W.destroyed[o]);
        if (keep) for (int o = 0; o < 2; o++) if (W.destroyed[o]) mc::fail("object %d was destroyed while a reference was held", o);
    }, [&] { thr::Options o; o.leak_check = !keep; return o; }());
}
// A thread passes its reference on to another one through a flag; whoever is last destroys.
template <class T> void hand_over() {
    int relay = mc::choose(2), extra = mc::choose(2);
    reset_world();
    thr::run([&] {
        T* o = new T();
        retain(o);
        std::atomic<T*> box{nullptr};
        thr::parallel({[&] {
                           o->use(1);
                           if (extra) retain(o);
                           box.store(o, std::memory_order_release);
                           if (extra) { o->use(1); release(o); }
                       },
                       [&] {
                           T* p;
                           while (!(p = box.load(std::memory_order_acquire))) std::this_thread::yield();
                           if (relay) retain(p);
                           p->use(2);
                           release(p);
                           if (relay) { p->use(2); release(p); }
                       }});
        if (W.destroyed[0] != 1) mc::fail("destroyed %d times", W.destroyed[0]);
    });
}
// n references to one object, shared by threads: n of each thread's.
template <class T> void many(int nthreads) {
    static const int ns[] = {127, 129, 255, 256, 257, 300, 511, 513, 32769, 65535, 65536, 65537, 65600};
    int n = ns[mc::choose(mc::thorough() || nthreads == 1 ? 13 : 8)];
    mc::op("%d thread(s), %d references each", nthreads, n);
    reset_world();
    thr::Options o;
    o.max_steps = 1000000;
    o.spurious = false;
    thr::run([&] {
        T* x = new T();
        auto f = [&] {
            return [x, n] {
                for (int k = 0; k < n; k++) thr::progress(), retain(x);
                x->use(thr::self());
                for (int k = 0; k < n; k++) thr::progress(), release(x);
                release(x);
            };
        };
        for (int k = 0; k < nthreads; k++) retain(x);
        if (nthreads == 1) f()();
        else thr::parallel({f(), f()});
        if (W.destroyed[0] != 1) mc::fail("destroyed %d times", W.destroyed[0]);
    }, o);
}
template <class T> void all(const char* name, bool deep) {
    bool t = mc::thorough();
    std::string s(name);
    mc::add(s + "-direct-2", [t] { direct<T>(2, 8); }, t ? 12 : 7, 8);
    mc::add(s + "-direct-3", [t] { direct<T>(3, t ? 8 : 5); }, t ? 4 : 3, 8);
    mc::add(s + "-handles-2", [t, deep] { handles<T>(2, 2); }, t ? (deep ? 4 : 3) : deep ? 2 : 1, 8);
    mc::add(s + "-handles-2x1", [] { handles<T>(2, 1); }, t ? 7 : 4, 8);
    mc::add(s + "-handles-3", [] { handles<T>(3, 1); }, t ? 3 : 1, 8);
    mc::add(s + "-many-1", [] { many<T>(1); }, 0, 8);
    mc::add(s + "-many-2", [] { many<T>(2); }, 0, 8);
    mc::add(s + "-hand-over", [] { hand_over<T>(); }, t ? 12 : 8, 8);
}
}  // namespace

void mc_register() {
    all<Plain>("plain", true);
    all<Virtual>("virtual", false);
    all<Mixed>("macro", false);
}

// T04: the mutex: mutual exclusion, try-lock, visibility, truth of the ownership assertion, in every interleaving.
#include <amtl/am-mutex.h>
#include <mc/core.h>
#include <mc/thr.h>

#include <condition_variable>
#include <memory>
#include <mutex>

namespace {
#ifdef NDEBUG
constexpr bool kDebug = false;
#else
constexpr bool kDebug = true;
#endif
// What must hold, kept outside the monitored world.
struct Shadow {
    int inside = 0;         // threads certain to hold it
    int holder = -1;
    int maybe = 0;          // threads that may hold it: from before they ask until after they gave it back
    unsigned asks = 0;
};
struct Shared {
    ke::Mutex m[2];
    Shadow s[2];
    long data[2] = {0, 0};  // plain: protected by the mutex, or the race detector says so
    int done = 0;
};
void owned(Shared& w, int x) {
    if (thr::asserts([&] { w.m[x].AssertCurrentThreadOwns(); })) mc::fail("thread %d holds mutex %d, but the ownership assertion fails", thr::self(), x);
}
void not_owned(Shared& w, int x) {
    bool fired = thr::asserts([&] { w.m[x].AssertCurrentThreadOwns(); });
    if (fired != kDebug) mc::fail("thread %d does not hold mutex %d, and the ownership assertion %s", thr::self(), x, fired ? "fires in a release build" : "passes");
}
void ask(Shared& w, int x) { Shadow& s = w.s[x]; thr::Quiet q; s.maybe++, s.asks++; }
void entered(Shared& w, int x) {
    thr::Quiet q;
    Shadow& s = w.s[x];
    if (s.inside) mc::fail("threads %d and %d hold mutex %d at once", s.holder, thr::self(), x);
    s.inside = 1;
    s.holder = thr::self();
}
void leaving(Shared& w, int x) { thr::Quiet q; w.s[x].inside = 0; w.s[x].holder = -1; }
void left(Shared& w, int x) { thr::Quiet q; w.s[x].maybe--; }
void critical(Shared& w, int x, bool deep) {
    owned(w, x);
    long v = w.data[x];
    thr::sched_point();
    w.data[x] = v + 1;
    if (deep) owned(w, x);
    { thr::Quiet q; w.done++; }
}
// An attempt that must not wait: |t| makes it.
template <class F> bool attempt(Shared& w, int x, F t) {
    bool surely_free;
    unsigned asks;
    { thr::Quiet q; surely_free = w.s[x].maybe == 0; asks = ++w.s[x].asks; w.s[x].maybe++; }
    bool got = t();
    { thr::Quiet q; if (!got && surely_free && w.s[x].asks == asks) mc::fail("thread %d: an attempt to lock mutex %d is refused, but it is free", thr::self(), x); }
    if (!got) left(w, x);
    return got;
}
const char* const kName[] = {"lock", "try_lock", "lock_guard", "unique_lock", "unique_lock, try", "unique_lock, unlock, lock", "try, then lock", "assert", "std::lock both", "scoped_lock both", "lock, and try again by another"};
constexpr int kBoth = 8;
void act(Shared& w, int op, int x, bool deep) {
    ke::Mutex& m = w.m[x];
    switch (op) {
        case 0: ask(w, x); m.lock(); entered(w, x); critical(w, x, deep); leaving(w, x); m.unlock(); left(w, x); break;
        case 1:
            if (attempt(w, x, [&] { return m.try_lock(); })) { entered(w, x); critical(w, x, deep); leaving(w, x); m.unlock(); left(w, x); }
            else not_owned(w, x);
            break;
        case 2: ask(w, x); { std::lock_guard<ke::Mutex> g(m); entered(w, x); critical(w, x, deep); leaving(w, x); } left(w, x); break;
        case 3: ask(w, x); { std::unique_lock<ke::Mutex> g(m); entered(w, x); critical(w, x, deep); leaving(w, x); } left(w, x); break;
        case 4: {
            std::unique_lock<ke::Mutex> g(m, std::defer_lock);
            if (attempt(w, x, [&] { return g.try_lock(); })) { entered(w, x); critical(w, x, deep); leaving(w, x); g.unlock(); left(w, x); }
            break;
        }
        case 5: {
            ask(w, x);
            {
                std::unique_lock<ke::Mutex> g(m);
                entered(w, x), critical(w, x, false), leaving(w, x);
                g.unlock();
                not_owned(w, x);
                g.lock();
                entered(w, x), owned(w, x), leaving(w, x);
            }
            left(w, x);
            break;
        }
        case 6:
            if (!attempt(w, x, [&] { return m.try_lock(); })) { ask(w, x); m.lock(); }
            entered(w, x), critical(w, x, deep), leaving(w, x);
            m.unlock();
            left(w, x);
            break;
        case 7: not_owned(w, x); break;
        case 8: {
            ask(w, 0), ask(w, 1);
            if (x) std::lock(w.m[1], w.m[0]); else std::lock(w.m[0], w.m[1]);
            entered(w, 0), entered(w, 1), critical(w, 0, false), critical(w, 1, false), leaving(w, 0), leaving(w, 1);
            w.m[0].unlock(), owned(w, 1), w.m[1].unlock();
            left(w, 0), left(w, 1);
            break;
        }
        case 9: {
            ask(w, 0), ask(w, 1);
            {
                std::scoped_lock<ke::Mutex, ke::Mutex> g(w.m[x], w.m[1 - x]);
                entered(w, 0), entered(w, 1), critical(w, 0, false), critical(w, 1, false), leaving(w, 0), leaving(w, 1);
            }
            left(w, 0), left(w, 1);
            break;
        }
    }
    if (deep) not_owned(w, x);
}
void programs(int n, int len, int kinds, int mutexes) {
    int ops[3][3] = {};
    for (int t = 0; t < n; t++)
        for (int k = 0; k < len; k++) {
            ops[t][k] = mc::choose(kinds * mutexes);
            if (k && ops[t][k] % kinds == 7 && ops[t][k - 1] % kinds == 7) mc::prune();
        }
    for (int t = 1; t < n; t++) if (memcmp(ops[t - 1], ops[t], sizeof ops[t]) > 0) mc::prune();
    for (int t = 0; t < n; t++) for (int k = 0; k < len; k++) mc::op("T%d %s%s", t + 1, kName[ops[t][k] % kinds], ops[t][k] / kinds ? " (mutex 1)" : "");
    thr::run([&] {
        auto w = std::make_unique<Shared>();
        auto f = [&](int t) { return [&, t] { for (int k = 0; k < len; k++) act(*w, ops[t][k] % kinds, ops[t][k] / kinds, len == 1); }; };
        if (n == 2) thr::parallel({f(0), f(1)});
        else thr::parallel({f(0), f(1), f(2)});
        for (int x = 0; x < 2; x++) {
            not_owned(*w, x);
            if (!attempt(*w, x, [&] { return w->m[x].try_lock(); })) mc::fail("mutex %d is still locked when all is done", x);
            entered(*w, x), owned(*w, x);
            leaving(*w, x), w->m[x].unlock();
            not_owned(*w, x);
        }
        if (w->data[0] + w->data[1] != w->done) mc::fail("%ld updates are left of %d made inside the critical section", w->data[0] + w->data[1], w->done);
        mc::observe(w->done);
    });
}
// One thread holds it for long, however acquired; the others ask, assert, and fail to get it.
void held() {
    int how = mc::choose(4), a = mc::choose(3), b = mc::choose(3);
    mc::op("holder %d, others %d %d", how, a, b);
    thr::run([&] {
        auto w = std::make_unique<Shared>();
        bool holding = false, release = false;
        auto hold = [&] {
            ask(*w, 0);
            std::unique_lock<ke::Mutex> u(w->m[0], std::defer_lock);
            switch (how) {
                case 0: w->m[0].lock(); break;
                case 1: if (!w->m[0].try_lock()) mc::fail("a free mutex is refused"); break;
                case 2: u.lock(); break;
                case 3: if (!u.try_lock()) mc::fail("a free mutex is refused"); break;
            }
            entered(*w, 0);
            { thr::Quiet q; holding = true; }
            owned(*w, 0);
            thr::sched_point();
            owned(*w, 0);
            thr::sched_point();
            owned(*w, 0);
            { thr::Quiet q; release = true; }
            leaving(*w, 0);
            if (how < 2) w->m[0].unlock(); else u.unlock();
            left(*w, 0);
            not_owned(*w, 0);
        };
        auto other = [&](int what) { return [&, what] {
            bool before, after;
            { thr::Quiet q; before = holding && !release; }
            if (!before) { return; }
            bool got = false;
            if (what == 0) not_owned(*w, 0);
            if (what == 1) { got = w->m[0].try_lock(); }
            if (what == 2) { std::unique_lock<ke::Mutex> u(w->m[0], std::try_to_lock); got = u.owns_lock(); u.release(); }
            { thr::Quiet q; after = !release; }
            if (got && after) mc::fail("an attempt succeeds although another thread holds the mutex");
            if (got) { owned(*w, 0); w->m[0].unlock(); }
            not_owned(*w, 0);
            mc::observe(got);
        }; };
        thr::parallel({hold, other(a), other(b)});
    });
}
// Waiting on a condition gives the mutex up and takes it again; ownership follows.
void conditions() {
    int consumers = 1 + mc::choose(2), items = 1 + mc::choose(2);
    bool all = mc::flip();
    mc::op("%d consumers, %d items each, notify %s", consumers, items, all ? "all" : "one");
    thr::run([&] {
        auto w = std::make_unique<Shared>();
        std::condition_variable_any cv;
        int ready = 0, taken = 0;
        auto consume = [&] {
            for (int k = 0; k < items; k++) {
                std::unique_lock<ke::Mutex> g(w->m[0]);
                owned(*w, 0);
                while (!ready) { cv.wait(g); owned(*w, 0); }
                ready--, taken++;
                owned(*w, 0);
            }
            not_owned(*w, 0);
        };
        auto produce = [&] {
            for (int k = 0; k < items * consumers; k++) {
                {
                    std::lock_guard<ke::Mutex> g(w->m[0]);
                    owned(*w, 0);
                    ready++;
                }
                not_owned(*w, 0);
                if (all) cv.notify_all(); else cv.notify_one();
            }
        };
        if (consumers == 1) thr::parallel({consume, produce});
        else thr::parallel({consume, consume, produce});
        if (ready || taken != items * consumers) mc::fail("%d items taken, %d left", taken, ready);
        not_owned(*w, 0);
    });
}
// Very many times.
void many() {
    int n = 255 + mc::choose(4), how = mc::choose(3), threads = 1 + mc::choose(2);
    thr::Options o;
    o.max_steps = 1000000;
    mc::op("%d thread(s), %d times, way %d", threads, n, how);
    thr::run([&] {
        auto w = std::make_unique<Shared>();
        auto f = [&] {
            for (int k = 0; k < n; k++) {
                if (how == 0) w->m[0].lock();
                else if (how == 1) { while (!w->m[0].try_lock()) thr::sched_point(); }
                else { std::unique_lock<ke::Mutex> u(w->m[0]); u.release(); }
                thr::progress();
                entered(*w, 0);
                owned(*w, 0);
                leaving(*w, 0);
                w->m[0].unlock();
                left(*w, 0);
            }
            not_owned(*w, 0);
        };
        if (threads == 1) f();
        else thr::parallel({f, f});
    }, o);
}
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    mc::add("2-threads-1-deep", [] { programs(2, 1, 8, 1); }, t ? 8 : 4, 6);
    mc::add("2-threads-2", [] { programs(2, 2, 8, 1); }, t ? 4 : 2, 6);
    mc::add("2-threads-both", [] { programs(2, 1, 10, 2); }, t ? 4 : 2, 6);
    if (t) mc::add("2-threads-2-both", [] { programs(2, 2, 10, 2); }, 1, 6);
    mc::add("3-threads-1", [] { programs(3, 1, 8, 1); }, t ? 4 : 2, 6);
    if (t) mc::add("3-threads-1-both", [] { programs(3, 1, 10, 2); }, 2, 6);
    mc::add("many", many, 0, 3);
    mc::add("held", [] { held(); }, t ? 4 : 2, 6);
    mc::add("conditions", [] { conditions(); }, t ? 3 : 1, 6);
}

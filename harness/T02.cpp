// T02: AtomicRef as a linearizable register of strong references, every interleaving up to a preemption bound.
#include <amtl/am-refcounting-threadsafe.h>
#include <mc/core.h>
#include <mc/thr.h>

namespace {
constexpr int kObj = 12;
struct Event { char op; int arg; int in, out; };      // arg: object + 1 stored or read, 0 null
struct World {
    int destroyed[kObj], held[kObj], next_id, clock, nev;
    Event ev[16];
    int on_death;              // what destructors do with the cell: 0 nothing, 1 read it, 2 store null, 3 store a new object
    void (*death)();
} W;

template <class Base> struct Obj : Base {
    int id;
    int value;                 // written once by the creator, before publication
    bool mine;                 // acts when destroyed
    Obj() { { thr::Quiet q; mine = W.next_id > 0; id = W.next_id++; if (W.next_id > kObj) mc::fail("driver: too many objects"); } value = 100 + id; }
    ~Obj() {
        int v = value;
        thr::Quiet q;
        if (v != 100 + id) mc::fail("object %d holds %d at its destruction", id, v);
        if (W.destroyed[id]++) mc::fail("object %d is destroyed twice", id);
        if (W.held[id]) mc::fail("object %d is destroyed by thread %d while threads hold %d reference(s)", id, thr::self(), W.held[id]);
        mc::log("  object %d destroyed by thread %d", id, thr::self());
        if (!W.on_death || !mine) return;
        q.end();
        W.death();
    }
};
struct P;
typedef ke::RefcountedThreadsafe<P> PBase;
struct P : Obj<PBase> {};
struct V : Obj<ke::VirtualRefcountedThreadsafe> {};

// A strong reference a thread owns, with the model's count.
template <class T> struct Own {
    ke::RefPtr<T> p;
    void adopt(ke::RefPtr<T>&& x) {
        drop();
        p = std::move(x);
        thr::Quiet q;
        if (p) W.held[p->id]++;
    }
    void drop() {
        { thr::Quiet q; if (p) W.held[p->id]--; }
        p = static_cast<T*>(nullptr);
    }
    ~Own() { drop(); }
};
int invoke() { thr::Quiet q; return ++W.clock; }
void done(char op, int arg, int in) {
    thr::Quiet q;
    W.ev[W.nev++] = {op, arg, in, ++W.clock};
    mc::log("  thread %d: %s %d", thr::self(), op == 'r' ? "read" : "stored", arg - 1);
    mc::observe(arg * 8 + thr::self());
}
template <class T> void store(ke::AtomicRef<T>& cell, T* p) {
    int arg;
    { thr::Quiet q; arg = p ? p->id + 1 : 0; }
    int in = invoke();
    cell = p;
    done('w', arg, in);
}
template <class T> void fetch(ke::AtomicRef<T>& cell, Own<T>& into) {
    int in = invoke();
    ke::RefPtr<T> r(cell.get());
    int arg = 0;
    if (r) {
        int v = r->value;            // must be visible
        thr::Quiet q;
        if (v != 100 + r->id) mc::fail("read object %d, which holds %d", r->id, v);
        if (W.destroyed[r->id]) mc::fail("thread %d read object %d after its destruction", thr::self(), r->id);
        arg = r->id + 1;
    }
    done('r', arg, in);
    into.adopt(std::move(r));
}
// Is there an order of the events, consistent with real time, in which every read gives the last store?
bool linear(int value, unsigned left) {
    if (!left) return true;
    int first_out = 1 << 30;
    for (int k = 0; k < W.nev; k++) if (left >> k & 1 && W.ev[k].out < first_out) first_out = W.ev[k].out;
    for (int k = 0; k < W.nev; k++) {
        if (!(left >> k & 1) || W.ev[k].in > first_out) continue;
        if (W.ev[k].op == 'r' && W.ev[k].arg != value) continue;
        if (linear(W.ev[k].op == 'w' ? W.ev[k].arg : value, left & ~(1u << k))) return true;
    }
    return false;
}
// operations: 0 read and keep, 1 read and drop, 2 store a new object, 3 store null, 4 store the shared object, 5 store what was read last
constexpr int kOps = 6;
template <class T> struct Actor {
    Own<T> kept;
    void step(ke::AtomicRef<T>& cell, int op, T* shared) {
        switch (op) {
            case 0: fetch(cell, kept); break;
            case 1: { Own<T> o; fetch(cell, o); } break;
            case 2: store(cell, new T()); break;        // the cell's is the only reference
            case 3: store(cell, static_cast<T*>(nullptr)); break;
            case 4: store(cell, shared); break;
            case 5: store(cell, *kept.p); break;
        }
    }
};
template <class T> void registers(int n, int len, bool reuse, bool few = false) {
    static const int chosen[] = {2, 1, 0, 4};
    int ops[3][3] = {};
    for (int t = 0; t < n; t++) for (int k = 0; k < len; k++) ops[t][k] = few ? chosen[mc::choose(3)] : mc::choose(kOps);
    for (int t = 1; t < n; t++) if (memcmp(ops[t - 1], ops[t], sizeof ops[t]) > 0) mc::prune();     // symmetric
    int start = few ? 1 : mc::choose(2), late = mc::flip();      // two ways of winding up
    static const char* on[] = {"get", "get+drop", "=new", "=null", "=shared", "=kept"};
    for (int t = 0; t < n; t++) for (int k = 0; k < len; k++) mc::op("T%d %s", t + 1, on[ops[t][k]]);
    memset(&W, 0, sizeof W);
    thr::Options o;
    o.reuse = reuse;
    thr::run([&] {
        int final_id = -1, shared_id;
        {
            Own<T> shared;
            shared.adopt(ke::RefPtr<T>(new T()));
            shared_id = shared.p->id;
            auto cell = std::make_unique<ke::AtomicRef<T>>(start ? *shared.p : nullptr);
            {
                // late: kept references are dropped by the creator after the threads are gone, otherwise by the threads
                Actor<T> a[3];
                auto f = [&](int t) { return [&, t] { for (int k = 0; k < len; k++) a[t].step(*cell, ops[t][k], *shared.p); if (!late) a[t].kept.drop(); }; };
                if (n == 2) thr::parallel({f(0), f(1)});
                else thr::parallel({f(0), f(1), f(2)});
                if (!linear(start ? shared_id + 1 : 0, (1u << W.nev) - 1)) {
                    std::string s;
                    for (int k = 0; k < W.nev; k++) s += std::string(" ") + W.ev[k].op + std::to_string(W.ev[k].arg - 1) + "[" + std::to_string(W.ev[k].in) + "," + std::to_string(W.ev[k].out) + "]";
                    mc::fail("not linearizable from %d:%s", start ? shared_id : -1, s.c_str());
                }
                Own<T> last;
                fetch(*cell, last);
                if (last.p) final_id = last.p->id;
                if (!linear(start ? shared_id + 1 : 0, (1u << W.nev) - 1)) mc::fail("the value left in the cell (%d) fits no order of the operations", final_id);
                for (int k = 0; k < W.next_id; k++) {
                    bool alive = W.held[k] || k == final_id;
                    if (W.destroyed[k] != !alive) mc::fail("object %d is %s, %s", k, W.destroyed[k] ? "destroyed" : "alive", alive ? "although it is owned" : "although nobody owns it");
                }
            }
            if (late) {
                cell.reset();
                for (int k = 0; k < W.next_id; k++) if (W.destroyed[k] != (k != shared_id)) mc::fail("after the cell is gone object %d is %s", k, W.destroyed[k] ? "destroyed" : "alive");
                shared.drop();
            } else {
                shared.drop();
                if (W.destroyed[shared_id] != (final_id != shared_id)) mc::fail("the shared object is %s", W.destroyed[shared_id] ? "destroyed although the cell owns it" : "alive although nobody owns it");
                cell.reset();
            }
        }
        for (int k = 0; k < W.next_id; k++) if (W.destroyed[k] != 1) mc::fail("object %d was destroyed %d times", k, W.destroyed[k]);
    }, o);
}
// Objects that use the cell when they are destroyed, as a replaced object or by its last reader.
template <class T> ke::AtomicRef<T>* g_cell;
template <class T> void on_death() {
    ke::AtomicRef<T>& cell = *g_cell<T>;
    switch (W.on_death) {
        case 1: { Own<T> o; fetch(cell, o); break; }
        case 2: store(cell, static_cast<T*>(nullptr)); break;
        case 3: { T* p = new T(); { thr::Quiet q; p->mine = false; } store(cell, p); break; }
    }
}
template <class T> void dying(int n, int len) {
    static const int chosen[] = {2, 1, 3};
    int ops[2][3] = {};
    for (int t = 0; t < n; t++) for (int k = 0; k < len; k++) ops[t][k] = chosen[mc::choose(3)];
    if (n == 2 && memcmp(ops[0], ops[1], sizeof ops[1]) > 0) mc::prune();
    int act = 1 + mc::choose(3);
    static const char* on[] = {"get", "get+drop", "=new", "=null"};
    for (int t = 0; t < n; t++) for (int k = 0; k < len; k++) mc::op("T%d %s", t + 1, on[ops[t][k]]);
    mc::op("dying objects %s", act == 1 ? "read the cell" : act == 2 ? "clear the cell" : "store into the cell");
    memset(&W, 0, sizeof W);
    thr::run([&] {
        {
            Own<T> shared;
            shared.adopt(ke::RefPtr<T>(new T()));
            ke::AtomicRef<T> cell;
            g_cell<T> = &cell;
            W.death = on_death<T>;
            W.on_death = act;
            store(cell, new T());
            Actor<T> a[2];
            auto f = [&](int t) { return [&, t] { for (int k = 0; k < len; k++) a[t].step(cell, ops[t][k], *shared.p); }; };
            if (n == 1) thr::parallel({f(0)});
            else thr::parallel({f(0), f(1)});
            W.on_death = 0;
            {
                Own<T> last;
                fetch(cell, last);
                if (!linear(0, (1u << W.nev) - 1)) mc::fail("the operations and the value left in the cell fit no order");
            }
        }
        for (int k = 0; k < W.next_id; k++) if (W.destroyed[k] != 1) mc::fail("object %d was destroyed %d times", k, W.destroyed[k]);
    });
}
// One thread alone, longer sequences: a register of strong references.
template <class T> void alone() {
    int len = mc::thorough() ? 6 : 5, start = mc::choose(2);
    memset(&W, 0, sizeof W);
    thr::Options o;
    o.reuse = mc::flip();
    thr::run([&] {
        {
            Own<T> shared;
            shared.adopt(ke::RefPtr<T>(new T()));
            ke::AtomicRef<T> cell(start ? *shared.p : nullptr);
            if (!start && mc::flip()) { ke::AtomicRef<T> empty; if (!!empty.get()) mc::fail("a new cell is not empty"); }
            int value = start ? 0 : -1;
            Actor<T> a;
            for (int k = 0; k < len; k++) {
                int op = mc::choose(kOps);
                int kept = a.kept.p ? a.kept.p->id : -1, next = W.next_id;
                a.step(cell, op, *shared.p);
                if (op == 2) value = next;
                if (op == 3) value = -1;
                if (op == 4) value = 0;
                if (op == 5) value = kept;
                int got = a.kept.p ? a.kept.p->id : -1;
                if (op == 0 && got != value) mc::fail("read object %d, not %d", got, value);
                for (int j = 0; j < W.next_id; j++) {
                    bool alive = j == 0 || j == value || j == got;
                    if (W.destroyed[j] != !alive) mc::fail("object %d is %s", j, alive ? "destroyed" : "alive although nobody owns it");
                }
            }
        }
        for (int k = 0; k < W.next_id; k++) if (W.destroyed[k] != 1) mc::fail("object %d was destroyed %d times", k, W.destroyed[k]);
    }, o);
}
// Very many operations, alone and against another thread's.
template <class T> void many(int nthreads) {
    static const int ns[] = {255, 257, 1000, 65537};
    int n = ns[mc::choose(nthreads == 1 ? 4 : 2)], loop = mc::choose(5);
    mc::op("%d thread(s), %d rounds of loop %d", nthreads, n, loop);
    memset(&W, 0, sizeof W);
    thr::Options o;
    o.max_steps = 2000000;
    o.spurious = false;
    thr::run([&] {
        {
            Own<T> a, b;
            a.adopt(ke::RefPtr<T>(new T()));
            b.adopt(ke::RefPtr<T>(new T()));
            ke::AtomicRef<T> cell(*a.p);
            auto f = [&] {
                ke::RefPtr<T> kept;
                for (int k = 0; k < n; k++) {
                    thr::progress();
                    switch (loop) {
                        case 0: cell = k % 2 ? *a.p : *b.p; break;
                        case 1: kept = cell.get(); if (!kept || kept->id > 1) mc::fail("read %d of %d", k, n); break;
                        case 2: cell = nullptr; cell = *a.p; break;
                        case 3: cell = *a.p; break;
                        case 4: kept = cell.get(); cell = k % 3 ? *b.p : *a.p; kept = nullptr; break;
                    }
                }
            };
            if (nthreads == 1) f();
            else thr::parallel({f, f});
            for (int k = 0; k < 2; k++) if (W.destroyed[k]) mc::fail("object %d is destroyed while it is owned", k);
        }
        for (int k = 0; k < 2; k++) if (W.destroyed[k] != 1) mc::fail("object %d was destroyed %d times", k, W.destroyed[k]);
    }, o);
}
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    mc::add("two-threads-one-operation", [] { registers<P>(2, 1, false); }, t ? 8 : 4, 8);
    mc::add("two-threads-one-operation-reuse", [] { registers<P>(2, 1, true); }, t ? 8 : 4, 8);
    mc::add("two-threads-two-operations", [] { registers<P>(2, 2, false); }, t ? 3 : 1, 8);
    mc::add("two-threads-two-operations-reuse", [] { registers<P>(2, 2, true); }, t ? 4 : 1, 8);
    mc::add("three-threads-one-operation", [] { registers<P>(3, 1, false); }, t ? 3 : 1, 8);
    mc::add("three-threads-one-operation-reuse", [t] { registers<P>(3, 1, true, !t); }, t ? 3 : 2, 8);
    mc::add("virtual-two-threads", [] { registers<V>(2, 1, false); }, t ? 6 : 3, 8);
    mc::add("virtual-two-threads-two", [] { registers<V>(2, 2, true); }, t ? 3 : 1, 8);
    mc::add("dying-objects-alone", [] { dying<P>(1, 3); }, 1, 5);
    mc::add("dying-objects", [] { dying<P>(2, 1); }, t ? 4 : 2, 8);
    mc::add("dying-objects-virtual", [] { dying<V>(2, 1); }, t ? 4 : 1, 8);
    if (t) mc::add("dying-objects-two", [] { dying<P>(2, 2); }, 1, 8);
    mc::add("many-1", [] { many<P>(1); }, 0, 4);
    mc::add("many-2", [] { many<P>(2); }, 0, 4);
    mc::add("alone", [] { alone<P>(); }, 0, 4);
    mc::add("alone-virtual", [] { alone<V>(); }, 0, 4);
}

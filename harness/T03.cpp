// T03: thread-local variables: every interleaving from the very first use, slot-allocation failures, slot accounting.
#include <amtl/am-threadlocal.h>
#include <limits.h>
#include <mc/core.h>
#include <mc/thr.h>

#include <initializer_list>
#include <limits>
#include <memory>
#include <vector>

namespace {
int g_targets[64];
template <class T> struct Vals;
template <> struct Vals<int> { static int of(int t, int k) { static const int v[] = {-1, 7, INT_MIN, INT_MAX, 0, -300}; return v[(t * 2 + k) % 6] ^ (t << 4); } };
template <> struct Vals<intptr_t> { static intptr_t of(int t, int k) { static const intptr_t v[] = {INTPTR_MIN, -2, INTPTR_MAX, 1, 0}; return v[(t * 2 + k) % 5] ^ (t << 4); } };
template <> struct Vals<int*> { static int* of(int t, int k) { return k == 3 ? nullptr : &g_targets[(t * 8 + k) % 64]; } };

// One thread's view of two variables: what it must read back.
template <class T> struct View {
    ke::ThreadLocal<T>* v[2];
    T want[2] = {T(), T()};
    int n = 0;
    bool faults = false;
    // operations: 0 read, 1 store, 2 allocate, 3 compare and dereference (all on variable x)
    void step(int op, int x) {
        ke::ThreadLocal<T>& var = *v[x];
        int t = thr::self();
        switch (op) {
            case 0: {
                T got = var.get();
                if (got != want[x]) mc::fail("thread %d reads %lld from variable %d, not %lld", t, (long long)(intptr_t)got, x, (long long)(intptr_t)want[x]);
                break;
            }
            case 1: {
                T val = Vals<T>::of(t, n++ + x * 2);
                if (faults && !var.allocate()) { mc::observe(77); break; }
                if (n & 1) var.set(val); else var = val;
                want[x] = val;
                break;
            }
            case 2: {
                bool ok = var.allocate();
                if (!ok && !faults) mc::fail("thread %d: allocation is refused although slots are available", t);
                mc::observe(ok);
                break;
            }
            case 3: {
                if (!(var == want[x]) || var != want[x] || *var != want[x] || !var != !want[x]) mc::fail("thread %d: variable %d compares wrongly", t, x);
                if (x == 0) { if (want[1] == want[0] ? !(*v[1] == *var) : (*v[1] == *var)) mc::fail("thread %d: the variables compare wrongly", t); }
                break;
            }
        }
    }
    void final() { step(0, 0), step(0, 1); }
    void thorough_final() { for (int x = 0; x < 2; x++) step(0, x), step(3, x); }
};
constexpr int kOps = 5;      // read 0, store 0, allocate 0, read 1, store 1
void act(int op, int* what, int* x) { static const int w[] = {1, 0, 2, 1, 0}, y[] = {0, 0, 0, 1, 1}; *what = w[op]; *x = y[op]; }

template <class T> void threads(int n, int len, int faults) {
    int ops[3][4] = {};
    for (int t = 0; t < n; t++) for (int k = 0; k < len; k++) ops[t][k] = mc::choose(kOps);
    for (int t = 1; t < n; t++) if (memcmp(ops[t - 1], ops[t], sizeof ops[t]) > 0) mc::prune();
    int first = mc::choose(3);          // the creator stores before (1), reads before (2), or neither
    static const char* on[] = {"store a", "read a", "allocate a", "store b", "read b"};
    for (int t = 0; t < n; t++) for (int k = 0; k < len; k++) mc::op("T%d %s", t + 1, on[ops[t][k]]);
    thr::Options o;
    o.key_faults = faults;
    o.reuse = true;                     // a later variable may live where an earlier one did
    thr::run([&] {
        auto a = std::make_unique<ke::ThreadLocal<T>>();
        auto b = std::make_unique<ke::ThreadLocal<T>>();
        View<T> mine{{a.get(), b.get()}};
        mine.faults = faults;
        if (first) mine.step(first == 1 ? 1 : 0, 0);
        auto f = [&](int t) { return [&, t] {
            View<T> v{{a.get(), b.get()}};
            v.faults = faults;
            for (int k = 0; k < len; k++) { int w, x; act(ops[t][k], &w, &x); v.step(w, x); }
            v.final();
        }; };
        if (n == 2) thr::parallel({f(0), f(1)});
        else thr::parallel({f(0), f(1), f(2)});
        mine.final();
        mine.step(1, 1);
        mine.final();
        if (mc::flip()) std::swap(a, b);
        a.reset();
        // a variable created now may get the slot of the one that is gone, but none of its values
        auto c = std::make_unique<ke::ThreadLocal<T>>();
        if (!(c->get() == T())) mc::fail("a new variable starts with %lld", (long long)(intptr_t)c->get());
        if (!faults || c->allocate()) {
            if (!(c->get() == T())) mc::fail("a new variable starts with %lld once it has a slot", (long long)(intptr_t)c->get());
        }
    }, o);
}
// Slots run out: explicit allocation fails, reads give the default; it works again when a slot is given back.
template <class T> void exhaustion() {
    int slots = mc::choose(3), len = mc::thorough() ? 6 : 5;
    thr::Options o;
    o.max_keys = slots;
    o.reuse = true;
    thr::run([&] {
        std::unique_ptr<ke::ThreadLocal<T>> v[3];
        T want[3];
        bool has[3] = {};
        int used = 0;
        for (int k = 0; k < 3; k++) v[k].reset(new ke::ThreadLocal<T>()), want[k] = T();
        for (int d = 0; d < len; d++) {
            int x = mc::choose(3), op = mc::choose(3);
            mc::op("variable %d: %s", x, op == 0 ? "allocate" : op == 1 ? "allocate and store" : "destroy, create");
            if (op < 2) {
                bool can = has[x] || used < slots;
                if (v[x]->allocate() != can) mc::fail("allocation %s with %d of %d slots used", can ? "refused" : "reported to succeed", used, slots);
                if (can && !has[x]) has[x] = true, used++;
                if (op == 1 && can) { want[x] = Vals<T>::of(d, x); v[x]->set(want[x]); }
            } else {
                v[x].reset();
                if (has[x]) used--;
                has[x] = false;
                want[x] = T();
                v[x].reset(new ke::ThreadLocal<T>());
            }
            if (thr::keys_live() != used) mc::fail("%d system slots are in use, not %d", thr::keys_live(), used);
            for (int k = 0; k < 3; k++) if (v[k]->get() != want[k]) mc::fail("variable %d reads %lld, not %lld", k, (long long)(intptr_t)v[k]->get(), (long long)(intptr_t)want[k]);
        }
    }, o);
}
// Threads that come and go: a later thread never sees what an earlier one stored.
template <class T> void generations() {
    int ops[3], n = 3;
    for (int t = 0; t < n; t++) ops[t] = mc::choose(kOps);
    thr::run([&] {
        ke::ThreadLocal<T> a, b;
        View<T> mine{{&a, &b}};
        for (int t = 0; t < n; t++) {
            auto f = [&] { View<T> v{{&a, &b}}; int w, x; v.thorough_final(); act(ops[t], &w, &x); v.step(w, x); v.thorough_final(); };
            thr::parallel({f});
            mine.thorough_final();
            int w, x;
            act(ops[(t + 1) % n], &w, &x);
            mine.step(w, x);
        }
        mine.thorough_final();
    });
}
// Many variables, many stores, many lifetimes.
template <class T> void many() {
    int how = mc::choose(3), threads = 1 + mc::choose(2);
    static const int ns[] = {33, 65, 129, 257, 400};
    int n = ns[mc::choose(5)];
    mc::op("%d thread(s), %d %s", threads, n, how == 0 ? "variables" : how == 1 ? "stores" : "lifetimes");
    thr::Options o;
    o.max_steps = 1000000;
    thr::run([&] {
        std::vector<std::unique_ptr<ke::ThreadLocal<T>>> v(how == 0 ? n : 1);
        for (auto& x : v) x.reset(new ke::ThreadLocal<T>());
        auto f = [&](int t) {
            return [&, t] {
                auto value = [&](int k) { return Vals<T>::of(k % 7, (k + t) % 2); };
                if (how == 0) {
                    for (int k = 0; k < n; k++) { thr::progress(); if (v[k]->get() != T()) mc::fail("variable %d starts with another's value", k); *v[k] = value(k); }
                    for (int k = 0; k < n; k++) if (thr::progress(), v[k]->get() != value(k)) mc::fail("variable %d of %d", k, n);
                } else if (how == 1) {
                    for (int k = 0; k < n; k++) { thr::progress(); v[0]->set(value(k)); if (v[0]->get() != value(k)) mc::fail("store %d of %d", k, n); }
                } else {
                    for (int k = 0; k < n; k++) { thr::progress(); ke::ThreadLocal<T> x; if (x.get() != T()) mc::fail("lifetime %d starts with another's value", k); x = value(k); if (x.get() != value(k)) mc::fail("lifetime %d", k); }
                }
            };
        };
        if (threads == 1) f(0)();
        else thr::parallel({f(0), f(1)});
        int want = how == 0 ? n : how == 1 ? 1 : 0;
        if (thr::keys_live() != want) mc::fail("%d slots are in use, not %d", thr::keys_live(), want);
    }, o);
}
// Every kind of value a variable can hold, at its extremes.
enum Colour { kRed = -1, kGreen = 0, kBlue = 70000 };
enum class Small : signed char { a = -128, b = 0, c = 127 };
int fn_a(int x) { return x + 1; }
int fn_b(int x) { return x - 1; }
template <class V> void extremes(std::initializer_list<V> vs) {
    int n = int(vs.size()), i = mc::choose(n), j = mc::choose(n), k = mc::choose(n);
    V a = vs.begin()[i], b = vs.begin()[j], c = vs.begin()[k];
    thr::run([&] {
        auto v = std::make_unique<ke::ThreadLocal<V>>();
        auto w = std::make_unique<ke::ThreadLocal<V>>();
        std::vector<V> all(vs);
        auto is = [&all](ke::ThreadLocal<V>& x, V y) {
            if (x.get() != y || *x != y) return false;
            if constexpr (std::is_pointer<V>::value) if (x.operator->() != y) return false;
            if constexpr (std::is_convertible<V, bool>::value) if (!x != !y) return false;
            for (V z : all) if ((x == z) != (y == z) || (x != z) != (y != z)) return false;
            return true;
        };
        auto f = [&](V mine, V then) {
            return [&, mine, then] {
                if (!is(*v, V())) mc::fail("a fresh variable does not hold the default");
                *v = mine;
                if (!is(*v, mine) || !is(*w, V())) mc::fail("value %d is not kept", i);
                w->set(then);
                if (!is(*v, mine) || !is(*w, then)) mc::fail("values %d and %d", i, j);
                *v = then;
                if (!is(*v, then) || !is(*w, then)) mc::fail("value %d is not kept", j);
            };
        };
        thr::parallel({f(a, b), f(b, c)});
        if (!is(*v, V()) || !is(*w, V())) mc::fail("another thread's value is seen");
    });
}
template <class V> void integers() { typedef std::numeric_limits<V> L; extremes<V>({V(0), V(1), V(-1), L::min(), L::max(), V(L::max() / 2 + 1), V(L::min() + 1)}); }
void types() {
    int t = mc::choose(17);
    mc::op("type %d", t);
    switch (t) {
        case 0: integers<char>(); break;
        case 1: integers<signed char>(); break;
        case 2: integers<unsigned char>(); break;
        case 3: integers<short>(); break;
        case 4: integers<unsigned short>(); break;
        case 5: integers<int>(); break;
        case 6: integers<unsigned>(); break;
        case 7: integers<long>(); break;
        case 8: integers<unsigned long>(); break;
        case 9: integers<long long>(); break;
        case 10: integers<unsigned long long>(); break;
        case 11: integers<wchar_t>(); break;
        case 12: extremes<bool>({false, true}); break;
        case 13: extremes<Colour>({kRed, kGreen, kBlue}); break;
        case 14: extremes<Small>({Small::a, Small::b, Small::c}); break;
        case 15: extremes<void*>({nullptr, g_targets, (void*)UINTPTR_MAX, (void*)1, (void*)(UINTPTR_MAX / 2 + 1)}); break;
        case 16: extremes<int (*)(int)>({nullptr, fn_a, fn_b}); break;
    }
}
int deep_len() { return mc::thorough() ? 2 : 1; }
template <class T> void all(const char* name, bool deep) {
    std::string s(name);
    bool t = mc::thorough();
    mc::add(s + "-2-threads", [t, deep] { threads<T>(2, t && deep ? 3 : 2, 0); }, t ? (deep ? 3 : 4) : deep ? 3 : 2, 8);
    mc::add(s + "-2-threads-1", [] { threads<T>(2, 1, 0); }, t ? 10 : 6, 5);
    mc::add(s + "-3-threads-1", [] { threads<T>(3, 1, 0); }, t ? 4 : 2, 6);
    if (t) mc::add(s + "-3-threads", [] { threads<T>(3, 2, 0); }, deep ? 2 : 1, 8);
    mc::add(s + "-faults-2-threads", [] { threads<T>(2, deep_len(), 1); }, t ? 4 : 3, 6);
    mc::add(s + "-faults-3-threads", [] { threads<T>(3, 1, 1); }, t ? 3 : 1, 6);
    mc::add(s + "-no-slots", [] { threads<T>(2, deep_len(), 2); }, t ? 3 : 1, 6);
    mc::add(s + "-exhaustion", [] { exhaustion<T>(); }, 0, 3);
    mc::add(s + "-many", [] { many<T>(); }, 0, 3);
    mc::add(s + "-generations", [] { generations<T>(); }, 1, 3);
}
}  // namespace

void mc_register() {
    mc::add("types", types, mc::thorough() ? 1 : 0, 4);
    all<int>("int", true);
    all<int*>("pointer", false);
    all<intptr_t>("intptr", false);
}

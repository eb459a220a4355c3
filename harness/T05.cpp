// T05: started threads: callable, arguments and name are the thread's own; run once; finished when joined.
#include <amtl/am-thread.h>
#include <mc/core.h>
#include <mc/thr.h>

#include <memory>
#include <string>
#include <system_error>
#include <vector>

namespace {
// A value whose every copy is counted; its content is on the heap, where the engine watches it.
int g_live;
struct Tok {
    std::unique_ptr<int> p;
    explicit Tok(int v) : p(new int(v)) { thr::Quiet q; g_live++; }
    Tok(const Tok& o) : p(o.p ? new int(*o.p) : nullptr) { thr::Quiet q; g_live++; }
    Tok(Tok&& o) : p(std::move(o.p)) { thr::Quiet q; g_live++; }
    Tok& operator=(const Tok& o) { p.reset(o.p ? new int(*o.p) : nullptr); return *this; }
    ~Tok() { thr::Quiet q; g_live--; }
    int get() const { return p ? *p : -1; }
    void set(int v) { if (p) *p = v; else p.reset(new int(v)); }
};
const char* const kNames[] = {"", "a", "worker-thread-1", "exactly-16-chars", "a name that is far too long", "x y\t\x7f\xc3\xa9", "fourteen-chars"};
constexpr int kNameCount = sizeof kNames / sizeof *kNames;

// What one started thread is expected to be like; outcome written by the callable, read after the join.
struct Expect {
    const char* name;
    int caller;
    int state, a1 = 0, a2 = 0, a3 = 0, nargs = 0;
    Tok* by_ref = nullptr;
    int runs = 0;               // plain: only join orders it
    bool finished = false;
    int ran_on = -1;
};
void body(Expect* e, int state, int n, int a, int b, int c) {
    if (thr::self() == e->caller) mc::fail("the callable runs on the thread that started it");
    if (strlen(e->name) < 16 && strcmp(thr::name_of(thr::self()), e->name)) mc::fail("the callable begins on a thread named \"%s\", not \"%s\"", thr::name_of(thr::self()), e->name);
    if (n != e->nargs) mc::fail("the callable gets %d arguments", n);
    if (state != e->state) mc::fail("the callable's own state is %d, not %d", state, e->state);
    if (n > 0 && a != e->a1) mc::fail("argument 1 is %d, not %d", a, e->a1);
    if (n > 1 && b != e->a2) mc::fail("argument 2 is %d, not %d", b, e->a2);
    if (n > 2 && c != e->a3) mc::fail("argument 3 is %d, not %d", c, e->a3);
    if (e->runs++) mc::fail("the callable runs again");
    e->ran_on = thr::self();
    thr::sched_point();
    e->finished = true;
}
struct Fn {
    Tok state;
    Expect* e;
    void operator()() { thr::sched_point(); body(e, state.get(), 0, 0, 0, 0); }
    void operator()(const Tok& a) { thr::sched_point(); body(e, state.get(), 1, a.get(), 0, 0); }
    void operator()(const Tok& a, const std::string& b) { thr::sched_point(); body(e, state.get(), 2, a.get(), atoi(b.c_str()), 0); }
    void operator()(const Tok& a, const std::string& b, int c) { thr::sched_point(); body(e, state.get(), 3, a.get(), atoi(b.c_str()), c); }
};
Expect* g_free_expect;          // one at a time: for callables with no room for a pointer
void free_fn0() { thr::sched_point(); body(g_free_expect, 0, 0, 0, 0, 0); }
void free_fn1(Expect* e, Tok a) { thr::sched_point(); body(e, 0, 1, a.get(), 0, 0); }
struct Obj {
    Tok t{5};
    Expect* e;
    void run(int a) { thr::sched_point(); body(e, t.get(), 1, a, 0, 0); }
    void run_const(const std::string& a) const { thr::sched_point(); body(e, t.get(), 1, atoi(a.c_str()), 0, 0); }
};

// A name in a buffer that is scribbled over and freed as soon as the thread has been started.
struct Name {
    char* buf;
    size_t n;
    explicit Name(const char* s) : n(strlen(s) + 1) { buf = new char[n]; memcpy(buf, s, n); }
    ~Name() { for (size_t k = 0; k + 1 < n; k++) buf[k] = '#'; delete[] buf; }
};

constexpr int kKinds = 12;
const char* const kKindName[] = {"functor()", "functor(lvalue)", "functor(lvalue, string)", "functor(lvalue, string, int)", "moved functor(rvalue)", "function", "function(pointer, lvalue)",
                                 "member(int)", "member through a copy(string)", "lambda with a move-only capture", "lambda(std::ref)", "lambda(move-only argument)"};
std::unique_ptr<std::thread> start(int kind, Expect* e, Tok* shared) {
    e->caller = thr::self();
    std::unique_ptr<std::thread> th;
    Name name(e->name);
    struct Pause { ~Pause() { thr::sched_point(); } } pause;
    switch (kind) {
        case 0: case 1: case 2: case 3: case 4: {
            Fn f{Tok(40 + kind), e};
            Tok a(11);
            std::string b("1234567890123456789012 a string on the heap");
            b = b.substr(6);        // "7890123456789012 ..."
            b = "22 " + b;
            int c = 33;
            e->state = 40 + kind, e->a1 = 11, e->a2 = 22, e->a3 = 33, e->nargs = kind == 4 ? 1 : kind;
            switch (kind) {
                case 0: th = ke::NewThread(name.buf, f); break;
                case 1: th = ke::NewThread(name.buf, f, a); break;
                case 2: th = ke::NewThread(name.buf, f, a, b); break;
                case 3: th = ke::NewThread(name.buf, f, a, b, c); break;
                case 4: th = ke::NewThread(name.buf, std::move(f), std::move(a)); break;
            }
            if (kind < 4 && (f.state.get() != 40 + kind || a.get() != 11 || atoi(b.c_str()) != 22)) mc::fail("starting the thread changes the caller's own callable or arguments");
            thr::sched_point();
            f.state.set(-7), a.set(-8), b[0] = 'x', b = "gone", c = -9;
            thr::sched_point();
            f.e = nullptr;
            break;
        }
        case 5: {
            { thr::Quiet q; g_free_expect = e; }
            e->state = 0;
            th = ke::NewThread(name.buf, free_fn0);
            break;
        }
        case 6: {
            Tok a(66);
            e->state = 0, e->nargs = 1, e->a1 = 66;
            Expect* arg = e;
            th = ke::NewThread(name.buf, free_fn1, arg, a);
            if (a.get() != 66) mc::fail("starting the thread changes the caller's argument");
            thr::sched_point();
            a.set(-1), arg = nullptr;
            break;
        }
        case 7: {
            // the object stays: it is passed by address
            static Obj* o;
            { thr::Quiet q; o = nullptr; }
            auto own = std::make_unique<Obj>();
            own->e = e;
            e->state = 5, e->nargs = 1, e->a1 = 77;
            int a = 77;
            th = ke::NewThread(name.buf, &Obj::run, own.get(), a);
            a = 0;
            th->join();             // so join here
            own.reset();
            break;
        }
        case 8: {
            Obj o;
            o.e = e;
            std::string a("88");
            e->state = 5, e->nargs = 1, e->a1 = 88;
            th = ke::NewThread(name.buf, &Obj::run_const, o, a);
            if (a != "88" || o.t.get() != 5) mc::fail("starting the thread changes the caller's object or argument");
            thr::sched_point();
            o.t.set(-1), o.e = nullptr, a[0] = 'z';
            break;
        }
        case 9: {
            auto p = std::make_unique<Tok>(99);
            e->state = 99;
            th = ke::NewThread(name.buf, [e, p = std::move(p)]() mutable { body(e, p->get(), 0, 0, 0, 0); p.reset(); });
            if (p) mc::fail("a moved pointer is still there");
            break;
        }
        case 10: {
            e->state = 0, e->nargs = 1, e->a1 = 10;
            th = ke::NewThread(name.buf, [e, shared](Tok& t) { if (&t != shared) mc::fail("a reference argument refers to something else"); body(e, 0, 1, t.get(), 0, 0); t.set(1010); }, std::ref(*shared));
            break;
        }
        case 11: {
            auto p = std::make_unique<Tok>(111);
            Tok* raw = p.get();
            e->state = 0, e->nargs = 1, e->a1 = 111;
            th = ke::NewThread(name.buf, [e, raw](std::unique_ptr<Tok>& p) { if (p.get() != raw) mc::fail("a moved argument is not the caller's"); body(e, 0, 1, p->get(), 0, 0); }, std::move(p));
            if (p) mc::fail("a moved pointer is still there");
            break;
        }
    }
    if (!th) mc::fail("no thread object is returned");
    return th;
}
void check_joined(const Expect& e) {
    if (e.runs != 1) mc::fail("joined, and the callable ran %d times", e.runs);
    if (!e.finished) mc::fail("joined, and the callable has not finished");
}
void finish(std::unique_ptr<std::thread>& th, Expect& e) {
    if (th->joinable()) {
        if (th->get_id() == std::this_thread::get_id()) mc::fail("the thread object names the caller");
        th->join();
    } else if (!e.finished) mc::fail("the thread object returned is not joinable");
    if (th->joinable()) mc::fail("a joined thread is joinable");
    check_joined(e);
}
void one() {
    int kind = mc::choose(kKinds), name = mc::choose(kNameCount);
    mc::op("%s, named \"%s\"", kKindName[kind], kNames[name]);
    thr::run([&] {
        g_live = 0;
        {
            Expect e{kNames[name]};
            Tok shared(10);
            auto th = start(kind, &e, &shared);
            if (thr::name_of(0)[0]) mc::fail("starting a thread renames the caller");
            finish(th, e);
            if (kind == 10 && shared.get() != 1010) mc::fail("what the callable wrote is not there after the join");
            mc::observe(kind);
        }
        if (g_live) mc::fail("%d callables or arguments are left", g_live);
    });
}
// Two threads by one caller, by two callers, or one starting the other.
void two(int shape) {
    int k1 = mc::choose(kKinds), k2 = mc::choose(kKinds), n1 = mc::choose(2), join_first = mc::choose(2);
    if (k1 == 7 || k2 == 7 || (k1 == 5 && k2 == 5) || (shape == 1 && k2 < k1)) mc::prune();
    mc::op("%s / %s, shape %d, names %d, join %d first", kKindName[k1], kKindName[k2], shape, n1, join_first);
    thr::run([&] {
        g_live = 0;
        {
            Expect e1{kNames[2 + n1]}, e2{kNames[1]};
            Tok s1(10), s2(10);
            std::unique_ptr<std::thread> t1, t2;
            switch (shape) {
                case 0:
                    t1 = start(k1, &e1, &s1), t2 = start(k2, &e2, &s2);
                    if (join_first) { finish(t1, e1), finish(t2, e2); } else { finish(t2, e2), finish(t1, e1); }
                    break;
                case 1:
                    thr::parallel({[&] { t1 = start(k1, &e1, &s1); if (join_first) finish(t1, e1); }, [&] { t2 = start(k2, &e2, &s2); finish(t2, e2); }});
                    if (!join_first) finish(t1, e1);
                    break;
                case 2: {
                    auto outer = ke::NewThread("outer", [&] {
                        if (strcmp(thr::name_of(thr::self()), "outer")) mc::fail("the outer thread is named \"%s\"", thr::name_of(thr::self()));
                        t1 = start(k1, &e1, &s1);
                        t2 = start(k2, &e2, &s2);
                        if (join_first) finish(t1, e1);
                        if (strcmp(thr::name_of(thr::self()), "outer")) mc::fail("the outer thread is now named \"%s\"", thr::name_of(thr::self()));
                    });
                    outer->join();
                    if (!join_first) finish(t1, e1);
                    finish(t2, e2);
                    break;
                }
            }
            if (e1.ran_on == e2.ran_on) mc::fail("both callables ran on one thread");
        }
        if (g_live) mc::fail("%d callables or arguments are left", g_live);
    });
}
// SetThreadName: the thread it is called on, or the one it is given, and no other.
void naming() {
    int n1 = mc::choose(kNameCount), n2 = mc::choose(kNameCount), who = mc::choose(3);
    static const char* const by[] = {"the thread itself", "the caller, itself", "the caller, the thread"};
    mc::op("\"%s\", then \"%s\": %s", kNames[n1], kNames[n2], by[who]);
    const char* n[2] = {kNames[n1], kNames[n2]};
    auto fits = [](const char* s) { return strlen(s) < 16; };
    auto expect = [&](int t, const char* first, int upto) {
        const char* want = first;
        for (int k = 0; k < upto; k++) {
            if (fits(n[k])) want = n[k];
            else if (k == upto - 1) return;          // a refused name: the system's business
            else if (!fits(n[k])) want = nullptr;
        }
        if (want && strcmp(thr::name_of(t), want)) mc::fail("thread %d is named \"%s\", not \"%s\"", t, thr::name_of(t), want);
    };
    thr::run([&] {
        bool begun = false, go = false;
        auto th = ke::NewThread("start", [&] {
            expect(thr::self(), "start", 0);
            { thr::Quiet q; begun = true; }
            if (who == 0)
                for (int k = 0; k < 2; k++) {
                    { Name name(n[k]); ke::SetThreadName(name.buf); }
                    expect(thr::self(), "start", k + 1);
                }
            for (bool done = who != 2; !done; ) { { thr::Quiet q; done = go; } if (!done) std::this_thread::yield(); }
        });
        if (who == 1)
            for (int k = 0; k < 2; k++) {
                { Name name(n[k]); ke::SetThreadName(name.buf); }
                expect(thr::self(), "", k + 1);
            }
        if (who == 2) {
            for (bool done = false; !done; ) { { thr::Quiet q; done = begun; } if (!done) std::this_thread::yield(); }
            for (int k = 0; k < 2; k++) {
                { Name name(n[k]); ke::SetThreadName(th.get(), name.buf); }
                expect(1, "start", k + 1);
            }
            thr::Quiet q;
            go = true;
        }
        th->join();
        if (who != 1) expect(0, "", 0);
        if (who == 1) expect(1, "start", 0);
    });
}
// The system refuses the thread: an exception, no call, and nothing left behind.
void refused() {
    int kind = mc::choose(kKinds);
    mc::op("%s", kKindName[kind]);
    thr::Options o;
    o.create_faults = 2;
    thr::run([&] {
        g_live = 0;
        {
            Expect e{kNames[1]};
            Tok shared(10);
            bool thrown = false;
            try { start(kind, &e, &shared); } catch (const std::system_error&) { thrown = true; }
            if (!thrown) mc::fail("no thread can be created, and nobody is told");
            if (e.runs) mc::fail("the callable runs although no thread could be created");
        }
        if (g_live) mc::fail("%d callables or arguments are left", g_live);
    }, o);
}
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    mc::add("one", [] { one(); }, t ? 10 : 6, 5);
    mc::add("two-by-one", [] { two(0); }, t ? 4 : 2, 5);
    mc::add("two-by-two", [] { two(1); }, t ? 2 : 1, 5);
    mc::add("nested", [] { two(2); }, t ? 3 : 2, 5);
    mc::add("naming", [] { naming(); }, t ? 5 : 3, 5);
    mc::add("refused", [] { refused(); }, 2, 2);
}

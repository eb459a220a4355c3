// R02: function wrappers are independent values that call exactly what was stored.
#include <assert.h>
#include <memory>
#include <optional>
#include <string>
#include <amtl/am-function.h>
#include <mc/track.h>

namespace {

using Fn = ke::Function<int(int)>;

// Answers id*1000 + 10*calls + x; argument < 0 peeks without counting.
template <size_t kExtra, int kKind>
struct Callable {
    mc::Tracked<true, kKind, 8, kKind != 2> tok;     // 8 bytes; the moves of some callables might throw
    char extra[kExtra];
    explicit Callable(int id) : tok(id) { memset(extra, id, kExtra); }
    int operator()(int x) const {
        int v = tok.get();
        for (char c : extra) if (c != char(v % 100)) mc::fail("callable's state is corrupted");
        if (x >= 0) const_cast<Callable*>(this)->tok.set(v + 100);   // each call is remembered by this copy only
        return v * 16 + (x & 15);
    }
};
template <int kKind>
struct Callable<0, kKind> {
    mc::Tracked<true, kKind> tok;
    explicit Callable(int id) : tok(id) {}
    int operator()(int x) const {
        int v = tok.get();
        if (x >= 0) const_cast<Callable*>(this)->tok.set(v + 100);
        return v * 16 + (x & 15);
    }
};
using Small = Callable<0, 1>;      // one word
using Three = Callable<16, 2>;     // exactly three words: must be inline
using Four = Callable<24, 3>;      // four words
using Huge = Callable<200, 4>;
static_assert(sizeof(Small) == 8 && sizeof(Three) == 24 && sizeof(Four) == 32);

int free_fn(int x) { return 77 * 16 + (x & 15); }

struct M { int kind; int v; bool full() const { return kind >= 0; } };   // kind -1 empty, 4 free function
struct Run {
    mc::Slot<Fn> w[3];
    M m[3];
    int next = 1;
    int giv = mc::thorough() ? 3 : 2, hows = mc::thorough() ? 3 : 1;   // quick tier: fewer (wrapper, category) combinations

    int live() { int n = 0; for (M& x : m) n += x.kind >= 0 && x.kind < 4; return n; }

    void check() {
        uint64_t h = 0;
        for (int i = 0; i < 3; i++) {
            const Fn& f = *w[i];
            MC_CHECK(bool(f) == m[i].full(), "wrapper %d is %s", i, bool(f) ? "not empty" : "empty");
            if (m[i].full()) {
                int want = m[i].v * 16 + 15, got = f(-1);
                MC_CHECK(got == want, "wrapper %d answers %d, expected %d", i, got, want);
            } else {
                MC_CHECK(!f.usingInlineStorage(), "empty wrapper claims inline storage");
            }
            h = mc::mix(h, m[i].kind * 1000 + m[i].v);
        }
        mc::life_expect_live(live(), "stored callables");
        mc::state(h);
        mc::observe(h);
    }

    template <class C>
    void give(int i, int kind, int how, bool construct, bool must_inline) {
        int id = 1 + next++ % 97;
        C c(id);
        const C& cc = c;
        uint64_t copies = mc::g_life.copies, allocs = 0;
        static const char* names[] = {"lvalue", "const lvalue", "rvalue"};
        mc::op("w%d %s callable kind %d (%s)", i, construct ? "constructed from" : "=", kind, names[how]);
        if (construct) {
            w[i].reset();
            m[i] = {-1, 0};
            allocs = mc::total_allocs();
            if (how == 0) w[i].emplace(c);
            else if (how == 1) w[i].emplace(cc);
            else w[i].emplace(std::move(c));
        } else {
            allocs = mc::total_allocs();
            if (how == 0) *w[i] = c;
            else if (how == 1) *w[i] = cc;
            else *w[i] = std::move(c);
        }
        if (must_inline) {
            MC_CHECK(mc::total_allocs() == allocs, "a callable of %zu bytes was stored with a heap allocation", sizeof(C));
            MC_CHECK(w[i]->usingInlineStorage(), "inline storage not reported");
        }
        if (how == 2) MC_CHECK(mc::g_life.copies == copies, "a temporary callable was copied");
        else MC_CHECK(c.tok.get() == id, "the caller's callable was modified");
        m[i] = {kind, id};
    }
    // A copy of a wrapper that holds its callable inline holds its own inline too.  (Copies constructed from a wrapper that
    // is not const go to the heap; the existing test Callable.Move relies on that.)
    void copied_small(int i, bool source_inline, uint64_t allocs) {
        if (!source_inline) return;
        MC_CHECK(mc::total_allocs() == allocs, "a copied callable of up to three words was stored with a heap allocation");
        MC_CHECK(w[i]->usingInlineStorage(), "inline storage not reported for a copied callable");
    }
    void give_kind(int i, int kind, int how, bool construct) {
        switch (kind) {
            case 0: give<Small>(i, 0, how, construct, true); break;
            case 1: give<Three>(i, 1, how, construct, true); break;
            case 2: give<Four>(i, 2, how, construct, false); break;
            case 3: give<Huge>(i, 3, how, construct, false); break;
            case 4:
                mc::op("w%d %s function pointer", i, construct ? "constructed from" : "=");
                if (construct) { w[i].reset(); w[i].emplace(free_fn); }
                else *w[i] = free_fn;
                m[i] = {4, 77};
                break;
        }
    }

    void step() {
        int i, j;
        switch (mc::choose(9)) {
            case 0: { i = mc::choose(giv); int kind = mc::choose(5); int how = kind < hows ? mc::choose(3) : 2; give_kind(i, kind, how, false); break; }
            case 1: { i = mc::choose(giv); int kind = mc::choose(5); int how = kind < hows ? mc::choose(3) : 0; give_kind(i, kind, how, true); break; }
            case 2: {   // copy assignment
                i = mc::choose(3); j = mc::choose(3); bool c = mc::flip();
                mc::op("w%d = %sw%d", i, c ? "const " : "", j);
                bool inl = w[j]->usingInlineStorage();
                uint64_t allocs = mc::total_allocs();
                Fn* r = c ? &(*w[i] = const_cast<const Fn&>(*w[j])) : &(*w[i] = *w[j]);
                MC_CHECK(r == &*w[i], "result of assignment");
                m[i] = m[j];
                copied_small(i, inl, allocs);
                break;
            }
            case 3: {   // move assignment
                i = mc::choose(3); j = mc::choose(3);
                mc::op("w%d = move(w%d)", i, j);
                uint64_t copies = mc::g_life.copies;
                *w[i] = std::move(*w[j]);
                MC_CHECK(mc::g_life.copies == copies, "moving a wrapper copied the callable");
                if (i != j) { m[i] = m[j]; m[j] = {-1, 0}; }
                break;
            }
            case 4: {   // copy / move construction
                i = mc::choose(3); j = (i + 1 + mc::choose(2)) % 3; int how = mc::choose(3);
                w[i].reset();
                m[i] = {-1, 0};
                mc::op("w%d constructed from %s w%d", i, how == 0 ? "const" : how == 1 ? "non-const" : "moved", j);
                bool inl = w[j]->usingInlineStorage();
                uint64_t copies = mc::g_life.copies, allocs = mc::total_allocs();
                if (how == 0) w[i].emplace(const_cast<const Fn&>(*w[j]));
                else if (how == 1) w[i].emplace(*w[j]);
                else { w[i].emplace(std::move(*w[j])); MC_CHECK(mc::g_life.copies == copies, "moving a wrapper copied the callable"); }
                m[i] = m[j];
                if (how != 1) copied_small(i, inl, allocs);
                if (how == 2) m[j] = {-1, 0};
                break;
            }
            case 5: { i = mc::choose(3); mc::op("w%d = nullptr", i); *w[i] = nullptr; m[i] = {-1, 0}; break; }
            case 6: { i = mc::choose(3); bool n = mc::flip(); mc::op("w%d recreated empty", i); w[i].reset(); if (n) w[i].emplace(nullptr); else w[i].emplace(); m[i] = {-1, 0}; break; }
            case 7: {   // call
                i = mc::choose(3); if (!m[i].full()) mc::prune();
                mc::op("w%d(5)", i);
                int got = (*w[i])(5);
                MC_CHECK(got == m[i].v * 16 + 5, "call answered %d", got);
                if (m[i].kind < 4) m[i].v += 100;
                break;
            }
            case 8: {
                i = mc::choose(2); j = mc::choose(2) ? 2 : 1 - i; if (j == i) mc::prune();
                mc::op("swap(w%d, w%d)", i, j);
                uint64_t copies = mc::g_life.copies;
                std::swap(*w[i], *w[j]);
                MC_CHECK(mc::g_life.copies == copies, "swapping wrappers copied a callable");
                std::swap(m[i], m[j]);
                break;
            }
        }
    }

    void body(int depth, int times = 1) {
        mc::life_reset();
        for (int i = 0; i < 3; i++) { w[i].emplace(); m[i] = {-1, 0}; }
        int start = mc::choose(4);
        if (start == 1) { give_kind(0, 0, 2, false); give_kind(1, 3, 2, false); }
        if (start == 2) { give_kind(0, 1, 2, true); give_kind(1, 2, 2, true); *w[2] = *w[0]; m[2] = m[0]; }
        if (start == 3) { give_kind(0, 2, 0, true); w[1].emplace(*w[0]); m[1] = m[0]; (*w[1])(3); m[1].v += 100; }
        check();
        mc::pump(depth, times, [&] { step(); check(); });
        for (int i = 0; i < 3; i++) { w[i].reset(); m[i] = {-1, 0}; mc::life_expect_live(live(), "after destroying wrappers"); }
    }
};

// Arguments and results pass through unchanged.
struct Arg { mc::Tok t; };
void passing() {
    mc::life_reset();
    int form = mc::choose(7), big = mc::choose(3), copy = mc::choose(3);
    struct { int pad[1]; } p1{{1}}; struct { int pad[6]; } p6{{2}}; struct { int pad[40]; } p40{{3}};
    auto with = [&](auto sig, auto body, auto use) {
        using F = ke::Function<typename decltype(sig)::type>;
        auto run = [&](auto pad) {
            F f([body, pad](auto&&... a) -> decltype(auto) { (void)pad; return body(std::forward<decltype(a)>(a)...); });
            if (copy == 1) { const F& c = f; F g(c); f = nullptr; use(g); use(g); }
            else if (copy == 2) { F g(std::move(f)); use(g); use(g); }
            else { use(f); use(f); }
        };
        if (big == 0) run(p1); else if (big == 1) run(p6); else run(p40);
    };
    mc::op("form %d size %d copy %d", form, big, copy);
    mc::state(form * 9 + big * 3 + copy);
    if (form == 0) {   // by-value argument given as a temporary is never copied
        struct S { using type = int(mc::Tok); };
        with(S{}, [](mc::Tok&& t) { mc::Tok in(std::move(t)); return in.get(); }, [](auto& f) {
            uint64_t c = mc::g_life.copies;
            MC_CHECK(f(mc::Tok(41)) == 41, "value argument");
            MC_CHECK(mc::g_life.copies == c, "an argument was copied on the way");
            mc::Tok l(17);
            MC_CHECK(f(l) == 17 && l.get() == 17, "lvalue argument must be left alone");
        });
    } else if (form == 1) {   // references keep identity
        struct S { using type = int&(int&, const std::string&); };
        static std::string str = "key";
        with(S{}, [](int& a, const std::string& s) -> int& { if (&s != &str) mc::fail("const reference argument was copied"); a++; return a; }, [](auto& f) {
            int n = 4; int& r = f(n, str);
            MC_CHECK(&r == &n && n == 5, "reference argument/result");
        });
    } else if (form == 2) {   // move-only argument and result
        struct S { using type = std::unique_ptr<int>(std::unique_ptr<int>, int); };
        with(S{}, [](std::unique_ptr<int>&& p, int k) { *p += k; return std::unique_ptr<int>(std::move(p)); }, [](auto& f) {
            auto u = f(std::make_unique<int>(5), 7);
            MC_CHECK(u && *u == 12, "move-only argument/result");
        });
    } else if (form == 3) {   // void, no arguments
        struct S { using type = void(); };
        static int hits; hits = 0;
        with(S{}, [] { hits++; }, [](auto& f) { int b = hits; f(); MC_CHECK(hits == b + 1, "called %d times", hits - b); });
    } else if (form == 4) {   // several arguments keep their order; conversions at the call
        struct S { using type = std::string(char, long, const char*, double); };
        with(S{}, [](char a, long b, const char* c, double d) { return std::string(1, a) + std::to_string(b) + c + std::to_string(int(d)); }, [](auto& f) {
            MC_CHECK(f('x', -5, "yy", 9.5) == "x-5yy9", "argument order");
        });
    } else if (form == 5) {   // rvalue reference argument stays the same object
        struct S { using type = mc::Tok*(mc::Tok&&); };
        with(S{}, [](mc::Tok&& t) { return &t; }, [](auto& f) { mc::Tok t(3); MC_CHECK(f(std::move(t)) == &t && t.get() == 3, "rvalue reference"); });
    } else {   // const reference result, bool result
        struct S { using type = const mc::Tok&(const mc::Tok&); };
        with(S{}, [](const mc::Tok& t) -> const mc::Tok& { return t; }, [](auto& f) { mc::Tok t(8); const mc::Tok& r = f(t); MC_CHECK(&r == &t, "const reference result"); });
    }
    mc::life_expect_live(0, "after the calls");
}

// The new callable or wrapper may be owned by the callable it replaces.
struct Owner {
    Fn next;                 // what the replaced callable owns
    Small part{40};
};
template <size_t kPad>
void owned_one(int kind, int how, bool other_sig) {
    mc::life_reset();
    {
        Fn f;
        int want = 0;
        auto owner = std::make_shared<Owner>();
        Owner& o = *owner;
        if (kind == 0) { o.next = Small(11); want = 11; }
        else if (kind == 1) { o.next = Three(12); want = 12; }
        else if (kind == 2) { o.next = Huge(13); want = 13; }
        else if (kind == 3) { o.next = free_fn; want = 77; }
        if (kind == 5) want = 40;
        struct Pad { char c[kPad]; } pad{};
        if (other_sig) f = [keep = std::move(owner), pad](long) -> short { (void)pad; return keep->part(-1); };
        else f = [keep = std::move(owner), pad](int) { (void)pad; return keep->part(-1); };
        MC_CHECK(f(0) == 40 * 16 + 15, "owning callable");
        Fn* r = nullptr;
        uint64_t copies = mc::g_life.copies;
        bool source_inline = o.next.usingInlineStorage();
        uint64_t allocs = mc::total_allocs();
        if (how == 5) r = &(f = nullptr);
        else if (kind == 5) r = how == 0 ? &(f = o.part) : how == 1 ? &(f = const_cast<const Small&>(o.part)) : &(f = std::move(o.part));
        else if (how == 0) r = &(f = o.next);
        else if (how == 1) r = &(f = const_cast<const Fn&>(o.next));
        else r = &(f = std::move(o.next));
        MC_CHECK(r == &f, "result of assignment");
        if (how == 2 || how == 5) MC_CHECK(mc::g_life.copies == copies, "a callable was copied");
        if (source_inline || kind == 5) MC_CHECK(mc::total_allocs() == allocs, "a small callable was stored with a heap allocation");
        if (how == 5 || !want) MC_CHECK(!f, "wrapper should be empty");
        else MC_CHECK(f && f(-1) == want * 16 + 15, "wrapper should hold what the replaced callable owned");
        mc::life_expect_live(f && kind != 3, "after assignment");
    }
    mc::life_expect_live(0, "end");
}
void owned() {
    // what is assigned: 0-3 a wrapper with a callable, 4 an empty one, 5 a callable
    int kind = mc::choose(6), how = mc::choose(4), big = mc::choose(2);
    bool sig = mc::flip();
    if (how == 3) how = 5;
    mc::op("assign what the replaced %s callable owns: kind %d, how %d", big ? "large" : "small", kind, how);
    mc::state(kind * 100 + how * 10 + big * 2 + sig);
    if (big) owned_one<64>(kind, how, sig); else owned_one<1>(kind, how, sig);
}

// Alignment of the stored callable.
template <size_t A>
void aligned_one() {
    mc::life_reset();
    struct C { mc::Tracked<true, 9, A> t; int operator()() const { return t.get(); } };
    using F = ke::Function<int()>;
    C c{mc::Tracked<true, 9, A>(6)};
    F f(c), g(static_cast<const F&>(f)), h(std::move(f));
    MC_CHECK(!f && g() == 6 && h() == 6, "aligned callable");
    f = g;
    MC_CHECK(f() == 6, "aligned callable");
}
void aligned() {
    int k = mc::choose(4);
    mc::op("alignment %d", 8 << k);
    mc::state(k);
    switch (k) { case 0: aligned_one<8>(); break; case 1: aligned_one<16>(); break; case 2: aligned_one<32>(); break; case 3: aligned_one<64>(); break; }
    mc::life_expect_live(0, "after the calls");
}
}  // namespace

void mc_register() {
    mc::add("passing", passing, 0, 0);
    mc::add("aligned", aligned, 0, 0);
    mc::add("owned", owned, 0, 1);
    int d = mc::thorough() ? 4 : 3;
    mc::add("loops1", [] { Run().body(1, mc::thorough() ? 70000 : 3000); }, 0, 3);
    mc::add("loops2", [] { Run().body(2, mc::thorough() ? 1000 : 300); }, 0, 3);
    mc::add("histories", [d] { Run().body(d); }, 0, 3);
}

// R03: optional values hold exactly what was last stored and destroy it exactly once.
#include <assert.h>
#include <optional>
#include <string>
#include <amtl/am-maybe.h>
#include <mc/track.h>

namespace {
constexpr int kN = 3;

// What the driver needs to know about a contained type.
template <class T> struct Ops;
template <bool C, int Tag, size_t A> struct Ops<mc::Tracked<C, Tag, A>> {
    using T = mc::Tracked<C, Tag, A>;
    static constexpr bool copyable = true, counted = true;
    static int get(const T& t) { return t.get(); }
    static void set(T& t, int v) { t.set(v); }
    static T make(int v) { return T(v); }
};
template <> struct Ops<mc::MTok> {
    static constexpr bool copyable = false, counted = true;
    static int get(const mc::MTok& t) { return t.get(); }
    static void set(mc::MTok& t, int v) { t.set(v); }
    static mc::MTok make(int v) { return mc::MTok(v); }
};
template <> struct Ops<int> {
    static constexpr bool copyable = true, counted = false;
    static int get(const int& t) { return t; }
    static void set(int& t, int v) { t = v; }
    static int make(int v) { return v; }
};
struct Str { std::string s; explicit Str(int v) : s("a string that is much too long for the inline buffer " + std::to_string(v)) {} Str() : Str(0) {} bool operator==(const Str& o) const { return s == o.s; } bool operator!=(const Str& o) const { return s != o.s; } };
template <> struct Ops<Str> {
    static constexpr bool copyable = true, counted = false;
    static int get(const Str& t) { return atoi(t.s.c_str() + t.s.rfind(' ')); }
    static void set(Str& t, int v) { t = Str(v); }
    static Str make(int v) { return Str(v); }
};
// Two members: the buffer must be large enough and untouched between.
struct alignas(64) Wide { mc::Tok a; char fill[300]; mc::Tok b; explicit Wide(int v) : a(v), b(v) { memset(fill, v, sizeof fill); if (uintptr_t(this) % 64) mc::fail("misaligned"); }
    Wide() : Wide(0) {}
    Wide(const Wide& o) : a(o.a), b(o.b) { memcpy(fill, o.fill, sizeof fill); if (uintptr_t(this) % 64) mc::fail("misaligned"); }
    Wide& operator=(const Wide&) = default;
    bool operator==(const Wide& o) const { return get() == o.get(); }
    bool operator!=(const Wide& o) const { return get() != o.get(); }
    int get() const { int v = a.get(); if (b.get() != v || fill[0] != char(v) || fill[299] != char(v)) mc::fail("torn value"); return v; } };
template <> struct Ops<Wide> {
    static constexpr bool copyable = true, counted = false;
    static int get(const Wide& t) { return t.get(); }
    static void set(Wide& t, int v) { t = Wide(v); }
    static Wide make(int v) { return Wide(v); }
};

template <class T>
struct Run {
    using M = ke::Maybe<T>;
    using O = Ops<T>;
    mc::Slot<M> m[kN];
    int want[kN];      // -1 empty
    int next = 1;

    void check() {
        uint64_t h = 0;
        int live = 0;
        for (int i = 0; i < kN; i++) {
            const M& c = *m[i];
            MC_CHECK(c.isValid() == (want[i] >= 0) && bool(c) == (want[i] >= 0), "optional %d is %s", i, c.isValid() ? "set" : "empty");
            if (want[i] >= 0) {
                live++;
                MC_CHECK(O::get(c.get()) == want[i], "optional %d holds %d, expected %d", i, O::get(c.get()), want[i]);
                MC_CHECK(O::get(*c) == want[i] && O::get(*m[i]->operator->()) == want[i] && O::get(*c.operator->()) == want[i], "accessors of optional %d", i);
            }
            h = mc::mix(h, want[i] + 2);
        }
        if (O::counted) mc::life_expect_live(live, "contained values");
        else if (sizeof(T) > 100) mc::life_expect_live(live * 2, "contained values");
        mc::state(h);
        mc::observe(h);
    }

    void step() {
        int i, j;
        switch (mc::choose(13)) {
            case 0: i = mc::choose(kN); mc::op("m%d.init(%d)", i, next); m[i]->init(next); want[i] = next++; break;
            case 1: { i = mc::choose(kN); mc::op("m%d.init(temporary %d)", i, next); m[i]->init(O::make(next)); want[i] = next++; break; }
            case 2: i = mc::choose(kN); j = mc::choose(kN);
                if constexpr (O::copyable) { mc::op("m%d = m%d", i, j); M& r = (*m[i] = *m[j]); MC_CHECK(&r == &*m[i], "result of assignment"); want[i] = want[j]; }
                else mc::prune();
                break;
            case 3: { i = mc::choose(kN); j = mc::choose(kN); mc::op("m%d = move(m%d)", i, j);
                uint64_t c = mc::g_life.copies;
                *m[i] = std::move(*m[j]);
                if (O::counted) MC_CHECK(mc::g_life.copies == c, "moving an optional copied the value");
                if (i != j) { want[i] = want[j]; want[j] = -1; }
                break; }
            case 4: i = mc::choose(kN); mc::op("m%d = empty", i); *m[i] = M(); want[i] = -1; break;
            case 5: i = mc::choose(kN); mc::op("m%d = Nothing", i); *m[i] = ke::Nothing(); want[i] = -1; break;
            case 6: { i = mc::choose(kN); mc::op("m%d = Some(temporary %d)", i, next); *m[i] = ke::Some(O::make(next)); want[i] = next++; break; }
            case 7: i = mc::choose(kN); if constexpr (O::copyable) { const T v = O::make(next); mc::op("m%d = Some(const lvalue %d)", i, next); *m[i] = ke::Some(v); want[i] = next++; } else mc::prune(); break;
            case 8: { i = mc::choose(kN); j = (i + 1 + mc::choose(kN - 1)) % kN; int how = mc::choose(2);
                mc::op("m%d recreated by %s m%d", i, how ? "moving" : "copying", j);
                m[i].reset(); want[i] = -1;
                if (how) { m[i].emplace(std::move(*m[j])); want[i] = want[j]; want[j] = -1; }
                else if constexpr (O::copyable) { m[i].emplace(*m[j]); want[i] = want[j]; }
                else mc::prune();
                break; }
            case 9: { i = mc::choose(kN); if (want[i] < 0) mc::prune(); int how = mc::choose(2); mc::op("*m%d set to %d", i, next);
                if (how) O::set(**m[i], next); else O::set(m[i]->get(), next);
                want[i] = next++; break; }
            case 11: i = mc::choose(kN); mc::op("m%d.init()", i); m[i]->init(); want[i] = 0; break;
            case 12: { i = mc::choose(kN); j = mc::choose(2);
                if constexpr (O::copyable) {
                    T v = O::make(next); const T& c = v;
                    mc::op("m%d %s lvalue %d", i, j ? "= Some of an" : "initialised from an", next);
                    if (j) *m[i] = ke::Some(v); else m[i]->init(c);
                    MC_CHECK(O::get(v) == next, "the caller's value was modified");
                    want[i] = next++;
                } else mc::prune();
                break; }
            case 10: i = mc::choose(kN); j = mc::choose(2); mc::op("m%d recreated empty", i); m[i].reset(); if (j) m[i].emplace(); else m[i].emplace(ke::Nothing()); want[i] = -1; break;
        }
    }
    void body(int depth, int times = 1) {
        mc::life_reset();
        for (int i = 0; i < kN; i++) { m[i].emplace(); want[i] = -1; }
        int start = mc::choose(3);
        if (start >= 1) { m[0]->init(O::make(next)); want[0] = next++; }
        if (start >= 2) { m[1]->init(O::make(next)); want[1] = next++; }
        check();
        mc::pump(depth, times, [&] { step(); check(); });
        for (int i = 0; i < kN; i++) m[i].reset();
        mc::life_expect_live(0, "after destroying the optionals");
    }
};
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    mc::add("loops1", [=] { Run<mc::Tok>().body(1, t ? 70000 : 3000); }, 0, 3);
    mc::add("loops2", [=] { Run<mc::MTok>().body(2, t ? 1000 : 300); }, 0, 3);
    mc::add("tracked", [=] { Run<mc::Tok>().body(t ? 5 : 3); }, 0, 3);
    mc::add("moveonly", [=] { Run<mc::MTok>().body(t ? 5 : 3); }, 0, 3);
    mc::add("aligned", [=] { Run<mc::Tracked<true, 0, 32>>().body(t ? 4 : 3); }, 0, 3);
    mc::add("int", [=] { Run<int>().body(t ? 5 : 3); }, 0, 3);
    mc::add("string", [=] { Run<Str>().body(t ? 4 : 3); }, 0, 3);
    mc::add("wide", [=] { Run<Wide>().body(t ? 4 : 3); }, 0, 3);
}

// H02: hash containers construct and destroy every stored element exactly once.
#include "hash_common.h"

namespace hc { int g_kind; }
using namespace hc;

namespace {
using AP = mc::ArenaPolicy;
using mc::MTok;
using mc::Tok;
mc::Arena arena[2] = {{"a"}, {"b"}};

template <class Box, bool kCopyable>
struct Run {
    using C = typename Box::C;
    Dict<Box> d[2];
    int next = 1;

    void balance(const char* what) {
        mc::life_expect_live(int64_t(Box::per_entry) * int64_t(d[0].m.size() + d[1].m.size()), what);
        for (auto& x : d) if (x.ready) x.count();
    }
    // Runs f; no element may be copied, and (if still) none may be moved, constructed or destroyed either.
    template <class F> void quiet(bool still, const char* what, F&& f) {
        mc::Life l = mc::g_life;
        f();
        MC_CHECK(mc::g_life.copies == l.copies, "%s copied elements", what);
        if (still)
            MC_CHECK(mc::g_life.moves == l.moves && mc::g_life.constructed == l.constructed && mc::g_life.destroyed == l.destroyed, "%s disturbed elements", what);
    }
    void lookups(int w) {
        quiet(true, "lookup", [&] { for (int k = 0; k < 6; k++) d[w].lookup(k, k & 3); d[w].lookup(2, 3); d[w].lookup(104, 1); });
        quiet(true, "iteration", [&] { d[w].iterate(); });
    }
    void put(int w, int k, int form = 0) {
        quiet(false, "adding a temporary (or growing)", [&] { MC_CHECK(d[w].put(k, next++, form), "put"); });
        balance("after an insertion");
    }
    void erase(int w, int k, int how) {
        quiet(false, "removal", [&] { d[w].erase(k, how); });
        balance("immediately after a removal");
    }
    void clear(int w) {
        quiet(false, "clear", [&] { d[w].clear(); });
        balance("immediately after clear");
    }
    void start(int s) {
        d[0].c.emplace(AP(&arena[0]));
        d[1].c.emplace(AP(&arena[1]));
        MC_CHECK(d[0].c->init(s == 6 ? 32 : 16) && d[1].c->init(64), "init");
        d[0].ready = d[1].ready = true;
        auto fill = [&](int n) { for (int k = 0; k < n; k++) put(0, 100 + k); };
        auto drop = [&](int lo, int n) { for (int k = 0; k < n; k++) erase(0, 100 + lo + k, k % 3); };
        switch (s) {
            case 0: break;
            case 1: fill(12); break;
            case 2: fill(12); drop(0, 9); break;
            case 3: fill(13); drop(3, 3); break;
            case 4: fill(26); drop(2, 21); break;
            case 5: fill(27); clear(0); fill(3); break;
            case 6: fill(24); break;
        }
        put(1, 3);
        put(1, 104);
        mc::log("start %d (%s hash)", s, kind_name(g_kind));
    }
    void step() {
        switch (mc::choose(kCopyable ? 12 : 9)) {
            case 0: { int k = mc::choose(4); mc::op("put %d", k); put(0, k); break; }
            case 1: { int k = mc::choose(4), h = mc::choose(3); mc::op("remove %d (%d)", k, h); erase(0, k, h); break; }
            case 2: { int k = mc::choose(2) ? 101 : 109; mc::op("remove filler %d", k); erase(0, k, 0); break; }
            case 3: { mc::op("clear"); clear(0); break; }
            case 4: { int f = 1 + mc::choose(2); mc::op("put 1 (form %d)", f); put(0, 1, f); break; }
            case 5: { mc::op("four new fillers"); for (int k = 0; k < 4; k++) put(0, 200 + next++); break; }
            case 6: {
                mc::op("move out and back");
                quiet(true, "moving a container", [&] {
                    int64_t req = arena[0].requested + arena[1].requested;
                    C tmp(std::move(*d[0].c));
                    MC_CHECK(d[0].c->elements() == 0, "moved-from count");
                    d[0].c.reset();
                    d[0].c.emplace(std::move(tmp));
                    MC_CHECK(arena[0].requested + arena[1].requested == req, "moving a container allocates");
                });
                balance("after moving");
                break;
            }
            case 7: {
                mc::op("destroy the second, move the first into it, first starts afresh");
                d[1].c.reset();
                d[1].m.clear();
                d[1].ready = false;
                balance("immediately after destroying a container");
                quiet(true, "moving a container", [&] { d[1].c.emplace(std::move(*d[0].c)); });
                d[1].m = d[0].m;
                d[1].ready = true;
                d[0].m.clear();
                MC_CHECK(d[0].c->init(), "init");
                balance("after moving");
                break;
            }
            case 8: { mc::op("erase all while iterating"); d[0].m.clear(); quiet(false, "erasure", [&] { int n = 0; for (auto it = Box::iter(*d[0].c); !it.empty(); it.next()) { it.erase(); MC_CHECK(mc::g_life.live == int64_t(Box::per_entry) * int64_t(d[0].c->elements() + d[1].m.size()), "entry %d not destroyed by erase", n); n++; } }); balance("after erasing"); break; }
            // copyable only
            case 9: case 10: {
                int k = mc::choose(4);
                mc::op("put %d from lvalues", k);
                if constexpr (kCopyable) add_lvalue(k);
                balance("after a copying insertion");
                break;
            }
            case 11: {
                mc::op("put a new key with the value of the first entry");
                if constexpr (kCopyable) add_alias();
                balance("after an aliasing insertion");
                break;
            }
        }
    }
    void add_lvalue(int k) {
        if constexpr (kCopyable && Box::per_entry == 2 && !std::is_same_v<Box, TableBox<Tok, Tok, AP>>) {
            auto i = d[0].c->findForAdd(k);
            if (i.found()) return;
            Tok kk(k), vv(next++);
            MC_CHECK(d[0].c->add(i, kk, vv), "add");
            MC_CHECK(kk.get() == k && vv.get() == next - 1, "the caller's objects were changed");
            d[0].m[k] = next - 1;
            d[0].expect_entry(i, k);
        } else if constexpr (kCopyable && Box::per_entry == 1) {
            Tok kk(k);
            d[0].c->add(kk);
            MC_CHECK(kk.get() == k, "the caller's object was changed");
            d[0].m[k] = 0;
            d[0].lookup(k);
        }
    }
    void add_alias() {
        if constexpr (kCopyable && Box::per_entry == 2 && !std::is_same_v<Box, TableBox<Tok, Tok, AP>>) {
            if (d[0].m.empty()) return;
            int k = 300 + next++, from = d[0].m.begin()->first;
            auto i = d[0].c->findForAdd(k);
            auto r = d[0].c->find(from);
            MC_CHECK(d[0].c->add(i, Tok(k), r->value), "add");
            d[0].m[k] = d[0].m[from];
            d[0].expect_entry(i, k);
            d[0].lookup(from);
        }
    }
    void body(int depth, int times = 1) {
        mc::life_reset();
        arena[0] = mc::Arena{"a"};
        arena[1] = mc::Arena{"b"};
        mc::g_default_arena = nullptr;
        static const int kinds[] = {kIdentity, kConstant, kReserved, kLastSlot};
        g_kind = kinds[mc::choose(4)];
        start(mc::choose(7));
        mc::pump(depth, times, [&] {
            step();
            lookups(0);
            lookups(1);
            mc::state(mc::mix(d[0].model_hash(), d[1].model_hash()));
        });
        d[0].full(0, 5);
        d[1].full(0, 5);
        mc::observe(mc::mix(d[0].model_hash(), d[1].model_hash()));
        quiet(false, "destruction", [&] { d[0].c.reset(); });
        d[0].m.clear();
        d[0].ready = false;
        balance("immediately after destroying a container");
        d[1].c.reset();
        mc::life_expect_live(0, "at the end");
        MC_CHECK(arena[0].blocks == 0 && arena[1].blocks == 0, "memory is not returned to the allocator");
    }
};
// Values that own memory: uses std::string so that ASan sees double destruction and leaks of real resources.
struct SPol {
    static uint32_t hash(const std::string& s) { return uint32_t(s.size()); }
    static bool matches(const std::string& a, const std::string& b) { return a == b; }
};
void owning() {
    using Map = ke::HashMap<std::string, std::unique_ptr<int>, SPol>;
    Map m;
    MC_CHECK(m.init(), "init");
    int n = mc::choose(30), hole = 1 + mc::choose(4), tail = mc::choose(20);
    mc::op("%d, holes of %d, %d more", n, hole, tail);
    auto key = [](int k) { return std::string(40 + k % 3, char('a' + k % 26)) + std::to_string(k); };
    for (int k = 0; k < n; k++) { auto i = m.findForAdd(key(k)); MC_CHECK(!i.found() && m.add(i, key(k), std::make_unique<int>(k)), "add"); }
    for (int k = 0; k < n; k += hole) m.removeIfExists(key(k));
    for (int k = 0; k < tail; k++) { auto i = m.findForAdd(key(100 + k)); MC_CHECK(!i.found() && m.add(i, key(100 + k)), "add"); MC_CHECK(!i->value, "default value"); i->value = std::make_unique<int>(100 + k); }
    Map m2(std::move(m));
    for (int k = 0; k < 130; k++) {
        auto r = m2.find(key(k));
        bool want = (k < n && k % hole) || (k >= 100 && k < 100 + tail);
        MC_CHECK(r.found() == want, "key %d", k);
        if (want) MC_CHECK(*r->value == k, "key %d", k);
    }
    if (tail & 1) m2.clear();
    mc::state(n * 1000 + hole * 100 + tail);
}
// Very many entries.
void scale() {
    mc::for_sizes(40, mc::thorough() ? 1 << 17 : 1 << 14, [](size_t n) {
        for (int kind : {int(kIdentity), int(kSpread)}) {
            g_kind = kind;
            arena[0] = mc::Arena{"a"};
            mc::g_default_arena = nullptr;
            mc::life_reset();
            scale_history<MapBox<Tok, Tok, AP>>(n, n % 3 ? 16 : mc::pow2_from(n), AP(&arena[0]), [](size_t count) { mc::life_expect_live(int64_t(2 * count), "after a phase"); });
            mc::life_expect_live(0, "at the end");
            MC_CHECK(arena[0].blocks == 0, "memory left");
        }
        mc::evaluations(2);
        mc::state(n);
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    int t = mc::thorough() ? 4 : 3, d = mc::thorough() ? 4 : 2;
    mc::add("map-copyable", [d] { Run<MapBox<Tok, Tok, AP>, true>().body(d); }, 0, 4);
    mc::add("map-moveonly", [t] { Run<MapBox<MTok, MTok, AP>, false>().body(t); }, 0, 4);
    mc::add("set-copyable", [d] { Run<SetBox<Tok, AP>, true>().body(d); }, 0, 4);
    mc::add("set-moveonly", [d] { Run<SetBox<MTok, AP>, false>().body(d); }, 0, 4);
    mc::add("table-moveonly", [d] { Run<TableBox<MTok, MTok, AP>, false>().body(d); }, 0, 4);
    mc::add("owning", owning, 0, 3);
    mc::add("loops1", [] { Run<MapBox<Tok, Tok, AP>, true>().body(1, mc::thorough() ? 3000 : 300); }, 0, 3);
    mc::add("loops2", [] { Run<SetBox<MTok, AP>, false>().body(2, mc::thorough() ? 300 : 40); }, 0, 4);
    mc::add("scale", scale, 0, -1);
}

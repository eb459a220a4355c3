// H03: iteration visits each entry exactly once, even when erasing.
#include "hash_common.h"

namespace hc { int g_kind; }
using namespace hc;

namespace {
using AP = mc::ArenaPolicy;
using mc::Tok;
mc::Arena arena{"a"};

template <class Box>
struct Iter {
    using C = typename Box::C;
    Dict<Box> d;
    int next = 1;
    void prefix(int s) {
        d.c.emplace(AP(&arena));
        MC_CHECK(d.c->init(s == 9 ? 64 : 16), "init");
        auto fill = [&](int lo, int n) { for (int k = 0; k < n; k++) MC_CHECK(d.put(lo + k, next++), "fill"); };
        auto drop = [&](int lo, int n) { for (int k = 0; k < n; k++) d.erase(lo + k, k % 3); };
        switch (s) {
            case 0: fill(0, 5); break;
            case 1: fill(0, 12); drop(0, 7); break;                     // tombstones in front
            case 2: fill(0, 13); drop(3, 8); break;                     // tombstones in the middle
            case 3: fill(0, 30); drop(0, 26); fill(50, 2); break;       // grown
            case 4: fill(0, 14); d.clear(); fill(20, 4); break;         // cleared, then reused
            case 5: fill(0, 6); { C t(std::move(*d.c)); d.c.reset(); d.c.emplace(std::move(t)); } break;
            case 6: fill(0, 8); drop(0, 8); break;                      // only tombstones
            case 7: fill(0, 40); d.clear(); fill(3, 3); fill(60, 2); break;   // grown, cleared, shrinking
            case 8: fill(0, 4); { C t(std::move(*d.c)); MC_CHECK(Box::iter(*d.c).empty(), "a moved-from container has entries"); MC_CHECK(d.c->init(), "init"); d.m.clear(); } fill(9, 3); break;
            case 9: fill(0, 4); break;
        }
    }
    // Erases a chosen subset of what is visited (all of the first n decisions are enumerated).
    void erase_pass(bool all_subsets) {
        std::map<int, int> before = d.m;
        std::map<int, int> seen;
        size_t visited = 0;
        for (auto it = Box::iter(*d.c); !it.empty(); it.next()) {
            int k = Box::key_of(it);
            MC_CHECK(before.count(k), "iteration visits key %d, which was not present", k);
            MC_CHECK(seen.emplace(k, 1).second, "key %d is visited twice", k);
            if (Box::has_value) MC_CHECK(Box::value_of(it) == before[k], "wrong value at key %d", k);
            MC_CHECK(++visited <= before.size(), "too many entries");
            int a = all_subsets ? mc::choose(3) : mc::choose_dev(3);
            if (a == 1) {
                mc::op("erase %d", k);
                it.erase();
                d.m.erase(k);
                MC_CHECK(!d.c->find(k).found(), "erased key %d is still found", k);
            } else if (a == 2 && Box::has_value) {
                mc::op("set value at %d", k);
                Box::set_value(it, 5000 + k);
                d.m[k] = 5000 + k;
                d.lookup(k);
            } else if (a == 2) mc::prune();
            d.count();
        }
        MC_CHECK(visited == before.size(), "iteration visits %zu of %zu entries", visited, before.size());
        for (auto& e : before) d.lookup(e.first);
        d.full(0, 16);
    }
    void body(bool subsets) {
        mc::life_reset();
        arena = mc::Arena{"a"};
        mc::g_default_arena = nullptr;
        g_kind = mc::choose(kNumKinds);
        int s = mc::choose(10);
        prefix(s);
        mc::op("start %d (%s hash), %zu entries", s, kind_name(g_kind), d.m.size());
        if (!subsets) {   // larger tables, few decisions differ from "keep"
            for (int k = 0; k < 40; k++) MC_CHECK(d.put(1000 + k * 3, next++), "put");
            for (int k = 0; k < 40; k += 4) d.erase(1000 + k * 3, 0);
        }
        d.iterate();
        erase_pass(subsets);
        // Afterwards the container goes on working: an insertion reuses the room, and nothing else changed.
        MC_CHECK(d.put(2, next++) && d.put(77, next++), "put");
        d.full(0, 80);
        int after = mc::choose(3);
        if (after == 1) { for (int k = 0; k < 20; k++) MC_CHECK(d.put(3000 + k, next++), "put"); d.full(0, 16); }
        if (after == 2) { auto b = d.m; for (auto it = Box::iter(*d.c); !it.empty(); it.next()) { d.m.erase(Box::key_of(it)); it.erase(); } MC_CHECK(d.m.empty(), "not everything was visited"); for (auto& e : b) d.lookup(e.first); d.full(0, 5); }
        mc::state(d.model_hash());
        mc::observe(d.model_hash());
        d.c.reset();
        mc::life_expect_live(0, "end");
        MC_CHECK(arena.blocks == 0, "memory left");
    }
};
// Very many entries.
void scale() {
    mc::for_sizes(40, mc::thorough() ? 1 << 21 : 1 << 19, [](size_t n) {
        for (int kind : {int(kIdentity), int(kSpread)}) {
            g_kind = kind;
            arena = mc::Arena{"a"};
            mc::g_default_arena = nullptr;
            scale_history<SetBox<int, AP>>(n, n % 3 ? 16 : mc::pow2_from(n), AP(&arena), [](size_t) {});
            MC_CHECK(arena.blocks == 0, "memory left");
        }
        mc::evaluations(2);
        mc::state(n);
    });
    mc::op("scale");
}
}  // namespace

template <class B> static void big_dev() { Iter<B>().body(false); }

void mc_register() {
    bool t = mc::thorough();
    mc::add("map-subsets", [] { Iter<MapBox<int, int, AP>>().body(true); }, 0, 4);
    mc::add("set-subsets", [] { Iter<SetBox<Tok, AP>>().body(true); }, 0, 4);
    mc::add("table-subsets", [] { Iter<TableBox<Tok, Tok, AP>>().body(true); }, 0, 4);
    mc::add("map-large", big_dev<MapBox<int, int, AP>>, t ? 2 : 1, 3);
    mc::add("set-large", big_dev<SetBox<int, AP>>, t ? 2 : 1, 3);
    mc::add("scale", scale, 0, -1);
}

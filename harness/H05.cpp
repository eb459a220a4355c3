// H05: hash tables stay bounded: never overfull, never below their initial size, bounded memory under churn.
#include "hash_bfs.h"
#include <mc/sizes.h>
#include <deque>
#include <memory>

namespace hc { int g_kind; }
using namespace hc;

namespace {
using AP = mc::ArenaPolicy;
mc::Arena arena{"a"};

template <class Box>
struct Bounded {
    using C = typename Box::C;
    std::unique_ptr<C> held{new C(AP(&arena))};
    size_t slot = 0, init = 0, peak = 0, n = 0;
    std::deque<int> present;
    int next = 0;
    bool bound_applies = true;

    void start(size_t cap) {
        { C probe{AP(&arena)}; MC_CHECK(probe.init(16), "init"); slot = probe.estimateMemoryUse() / 16; }
        init = cap < 16 ? 16 : cap;
        MC_CHECK(cap ? held->init(cap) : held->init(), "init");
        check();
    }
    size_t slots() { return held->estimateMemoryUse() / slot; }
    // The contents go on living in another table object, the bounds hold for them as before.
    void move() {
        std::unique_ptr<C> to(new C(std::move(*held)));
        held = std::move(to);
        check();
    }
    void check() {
        C& c = *held;
        size_t s = slots();
        n = present.size();
        if (n > peak) peak = n;
        MC_CHECK(c.elements() == n, "count %zu, expected %zu", c.elements(), n);
        MC_CHECK(s >= init, "%zu slots in use, initial capacity %zu", s, init);
        MC_CHECK(arena.bytes >= int64_t(init * slot), "memory below that of the initial capacity");
        MC_CHECK(n * 6 <= s * 5, "%zu of %zu slots hold live entries", n, s);
        if (bound_applies)
            MC_CHECK(s <= std::max(2 * init, 8 * peak), "%zu slots for a population that never exceeded %zu (initial capacity %zu)", s, peak, init);
        MC_CHECK(uint64_t(arena.bytes) <= s * slot + 4096, "%zu bytes held for %zu slots", size_t(arena.bytes), s);
        // Absent keys: terminates (the explorer's watchdog) and finds nothing.
        MC_CHECK(!c.find(-7).found() && !c.findForAdd(-13 - (next & 7)).found(), "absent key found");
    }
    void add(int k) {
        C& c = *held;
        typename C::Insert i = c.findForAdd(k);
        MC_CHECK(!i.found() && Box::add(c, i, k, k), "insertion of absent key %d", k);
        present.push_back(k);
        check();
    }
    void drop(int how) {
        C& c = *held;
        size_t at = how == 0 ? 0 : how == 1 ? present.size() - 1 : present.size() / 2;
        int k = present[at];
        present.erase(present.begin() + at);
        typename C::Result r = c.find(k);
        MC_CHECK(r.found(), "key %d lost", k);
        if (how == 1) c.removeIfExists(k); else c.remove(r);
        check();
    }
    void clear() { held->clear(); present.clear(); check(); }
    // Asks for the resize the density calls for (raw tables only).
    void density() { MC_CHECK(Box::density(*held), "checkDensity"); check(); }
};

template <class Box>
void churn() {
    bool t = mc::thorough();
    arena = mc::Arena{"a"};
    mc::g_default_arena = &arena;
    Bounded<Box> b;
    g_kind = mc::choose(kNumKinds);
    static const size_t caps[] = {0, 16, 64, 32, 256};
    size_t cap = caps[mc::choose(t ? 5 : 3)];
    static const int pops_t[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 24, 25, 30, 48, 49, 60, 96, 97, 120};
    static const int pops_q[] = {0, 1, 3, 4, 8, 11, 12, 13, 24, 25, 49};
    int pop = t ? pops_t[mc::choose(25)] : pops_q[mc::choose(11)];
    int how = mc::choose(3), keys = mc::choose(3), moved = mc::choose(2);
    int rounds = t ? 400 : 100;
    mc::op("%s hash, capacity %zu, population %d, removal %d, keys %d%s: %d rounds", kind_name(g_kind), cap, pop, how, keys, moved ? ", moved" : "", rounds);
    b.start(cap);
    for (int k = 0; k < pop; k++) b.add(b.next++);
    mc::transitions(pop + 2 * rounds);
    for (int r = 0; r < rounds; r++) {
        if (moved && r % 7 == 0) b.move();
        if (Box::has_density && r % 3 == 1) b.density();
        // keys: ever new; a cycle of keys; refill after draining
        if (keys == 2 && r % 10 == 9) { while (!b.present.empty()) b.drop(how); for (int k = 0; k < pop; k++) b.add(b.next++); continue; }
        if (pop && r % 2) b.drop(how);
        int k = keys == 1 ? 10000 + r % 17 : b.next++;
        bool there = false;
        for (int p : b.present) there |= p == k;
        if (there) k = b.next++;
        b.add(k);
        b.drop(how);
        if (pop && r % 2) b.add(b.next++);
        mc::state(mc::mix(b.slots(), b.n));
    }
    mc::observe(mc::mix(b.slots(), pop));
}
// Grow to n, drain or clear, insert m new entries: back under the bound of the new population.
template <class Box>
void shrink() {
    bool t = mc::thorough();
    arena = mc::Arena{"a"};
    mc::g_default_arena = &arena;
    Bounded<Box> b;
    g_kind = mc::choose(kNumKinds);
    static const size_t caps[] = {0, 16, 64, 256};
    size_t cap = caps[mc::choose(t ? 4 : 3)];
    static const int ns[] = {13, 25, 50, 100, 13, 26, 49, 97, 193, 200, 400};
    int n = ns[mc::choose(t ? 11 : 4)], m = 1 + mc::choose(t ? 40 : 20), reps = mc::choose(2), moved = mc::choose(2), before = mc::choose(4);
    if (g_kind == kConstant && n > 200) mc::prune();
    b.start(cap);
    for (int rep = 0; rep <= reps; rep++) {
        for (int k = 0; k < n; k++) b.add(b.next++);
        size_t doublings = 0;
        for (size_t s = b.init; s < b.slots(); s *= 2) doublings++;
        static const char* bn[] = {"", " all removed one by one,", " all but one removed,", " half removed,"};
        mc::op("%s hash, capacity %zu: %d entries in %zu slots,%s%s clear, %d new", kind_name(g_kind), cap, n, b.slots(), bn[before], moved ? " moved," : "", m);
        size_t keep = before == 0 ? n : before == 1 ? 0 : before == 2 ? 1 : n / 2;
        if (moved) b.move();
        while (b.present.size() > keep) b.drop(m % 3);
        b.clear();
        if (moved) b.move();
        if (Box::has_density && m % 2) {    // an empty table shrinks by asking, too
            for (size_t k = 0; k < doublings; k++) b.density();
            MC_CHECK(b.slots() <= 2 * b.init, "%zu slots for an empty table after %zu density checks (initial capacity %zu)", b.slots(), doublings, b.init);
        }
        for (int k = 0; k < m; k++) {
            b.add(b.next++);
            if (size_t(k + 1) >= doublings)
                MC_CHECK(b.slots() <= std::max(2 * b.init, 8 * b.n), "%zu slots for %zu entries after clear and %d insertions (initial capacity %zu, %zu doublings)", b.slots(), b.n, k + 1, b.init, doublings);
        }
        mc::transitions(n + m + 1);
        mc::state(mc::mix(mc::mix(b.slots(), b.n), rep));
        while (rep < reps && !b.present.empty()) b.drop(rep);
    }
    mc::observe(mc::mix(b.slots(), b.n));
}
// Every short history around the thresholds.
template <class Box>
void histories() {
    arena = mc::Arena{"a"};
    mc::g_default_arena = &arena;
    Bounded<Box> b;
    static const int kinds[] = {kIdentity, kConstant, kLastSlot, kReserved};
    g_kind = kinds[mc::choose(4)];
    static const size_t caps[] = {16, 32};
    b.start(caps[mc::choose(2)]);
    static const int fill[] = {0, 7, 12, 13, 24, 25};
    int f = fill[mc::choose(6)], gone = mc::choose(4);
    for (int k = 0; k < f; k++) b.add(b.next++);
    for (int k = 0; k < gone * f / 4; k++) b.drop(0);
    mc::op("%s hash, %d entries, %d removed", kind_name(g_kind), f, gone * f / 4);
    int depth = (mc::thorough() ? 7 : 5) - Box::has_density;
    for (int s = 0; s < depth; s++) {
        switch (mc::choose(7 + Box::has_density)) {
            case 7: mc::op("check the density"); b.density(); break;
            case 6: mc::op("move"); b.move(); break;
            case 5: mc::op("clear"); b.clear(); break;
            case 0: mc::op("add 1"); b.add(b.next++); break;
            case 1: mc::op("add 5"); for (int k = 0; k < 5; k++) b.add(b.next++); break;
            case 2: mc::op("remove oldest"); if (!b.present.empty()) b.drop(0); break;
            case 3: mc::op("remove all but one"); while (b.present.size() > 1) b.drop(2); break;
            case 4: mc::op("add and remove 6 times"); for (int k = 0; k < 6; k++) { b.add(b.next++); b.drop(1); } break;
        }
        mc::state(mc::mix(b.slots() * 100 + b.n, b.peak));
    }
    mc::observe(mc::mix(b.slots(), b.n));
}
void bfs() {
    int kind = mc::choose(kNumKinds), f = mc::choose(3);
    static const int fill[] = {0, 7, 11};
    Bfs b;
    b.kind = kind;
    b.fillers = fill[f];
    b.universe = mc::thorough() ? 6 : 4;
    b.limit = 600000;
    b.run();
    mc::op("%s hash, %d fillers, %d keys: %zu states", kind_name(kind), b.fillers, b.universe, b.nodes.size());
    mc::observe(b.nodes.size());
}
// Very many entries: every bound at every step.
template <class Box>
void scale() {
    mc::for_sizes(100, mc::thorough() ? 1 << 21 : 1 << 18, [](size_t n) {
        arena = mc::Arena{"a"};
        mc::g_default_arena = &arena;
        Bounded<Box> b;
        g_kind = n % 2 ? kIdentity : kSpread;
        b.start(n % 3 ? 0 : mc::pow2_from(n));
        for (size_t k = 0; k < n; k++) b.add(b.next++);
        for (size_t k = 0; k < n / 3; k++) { b.drop(0); b.add(b.next++); }
        if (n % 4 == 1) b.move();
        while (b.present.size() > n / 50) b.drop(1);
        for (size_t k = 0; k < n / 3; k++) { b.add(b.next++); b.drop(0); }
        b.clear();
        for (size_t k = 0; k < 30; k++) b.add(b.next++);
        if (n >= 60 && b.slots() > std::max(2 * b.init, 8 * b.n)) mc::fail("%zu slots for 30 entries after clearing %zu", b.slots(), n);
        mc::evaluations(3 * n);
        mc::state(mc::mix(n, b.slots()));
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    mc::add("reachable", bfs, 0, 2);
    mc::add("histories-set", histories<SetBox<int, AP>>, 0, 4);
    mc::add("churn-set", churn<SetBox<int, AP>>, 0, 4);
    mc::add("shrink-set", shrink<SetBox<int, AP>>, 0, 4);
    mc::add("churn-map", churn<MapBox<int, int, AP>>, 0, 4);
    mc::add("shrink-map", shrink<MapBox<int, int, AP>>, 0, 4);
    mc::add("histories-table", histories<TableBox<int, int, AP>>, 0, 4);
    mc::add("churn-table", churn<TableBox<int, int, AP>>, 0, 4);
    mc::add("shrink-table", shrink<TableBox<int, int, AP>>, 0, 4);
    mc::add("scale-set", scale<SetBox<int, AP>>, 0, -1);
    mc::add("scale-map", scale<MapBox<int, int, AP>>, 0, -1);
}

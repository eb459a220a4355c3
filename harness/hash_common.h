// Hash policies, adapters and the dictionary model shared by H01..H05.
#pragma once
#include <assert.h>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>
#include <mc/policy.h>
#include <mc/sizes.h>
#include <mc/track.h>

namespace hc {

// Other lookup types that hash like the int key.
struct Alt { int k; };
struct Wide { long long k; char pad[24]; };
inline int raw(int k) { return k; }
inline int raw(const Alt& a) { return a.k; }
inline int raw(const Wide& w) { return int(w.k); }
template <bool C, int T, size_t A> int raw(const mc::Tracked<C, T, A>& t) { return t.get(); }
template <int T> int raw(const mc::MoveOnlyT<T>& t) { return t.get(); }

// The table scrambles hashes by multiplying with the golden ratio; multiplying by its inverse here lets a key pick its
// final hash value: reserved values, all ones, the same slot, the last slot.
constexpr uint32_t kInv = 0x144cbc89u;   // 0x9E3779B9 * kInv == 1 mod 2^32
static_assert(uint32_t(0x9E3779B9u * kInv) == 1u, "");

enum HashKind { kIdentity, kConstant, kTwo, kReserved, kLastSlot, kCluster, kSpread, kHigh, kNumKinds };
inline const char* kind_name(int k) {
    static const char* n[] = {"identity", "constant", "two", "reserved", "last-slot", "cluster", "spread", "high"};
    return n[k];
}
inline uint32_t hash_of(int kind, int key) {
    uint32_t k = uint32_t(key);
    switch (kind) {
        case kIdentity: return k;
        case kConstant: return 0x51ed27u;
        case kTwo: return (k & 1) ? 0xdeadbeefu : 7u;
        case kReserved: {   // final hashes 0, 1, 2, 3, then everything near them and all ones
            static const uint32_t t[] = {0, 1, 2, 3, 0xffffffffu, 0xfffffffeu, 16, 17};
            return kInv * t[k & 7];
        }
        case kLastSlot: return kInv * (0xffffffffu - (k & 3) * 16);   // home slot 15 of 16, 31 of 32, ...: wraps around
        case kCluster: return kInv * (0x40 + (k % 5));
        case kSpread: return kInv * (k * 0x01000193u + 5);
        case kHigh: return kInv * (k << 24 | 0xff0000u);                // same low bits, different high bits
    }
    return 0;
}
extern int g_kind;    // hash function of the current path
struct IntPolicy {
    template <class L> static uint32_t hash(const L& k) { return hash_of(g_kind, raw(k)); }
    template <class L, class K> static bool matches(const L& a, const K& b) { return raw(a) == raw(b); }
};

// ---- adapters: one interface over the three containers --------------------------------------------------------
// K and V are the stored types (int or tracked); make<K>(k) creates one.
template <class K> inline K make(int k) { return K(k); }
inline int val(int v) { return v; }
template <bool C, int T, size_t A> int val(const mc::Tracked<C, T, A>& t) { return t.get(); }
template <int T> int val(const mc::MoveOnlyT<T>& t) { return t.get(); }
inline void assign(int& d, int v) { d = v; }
template <bool C, int T, size_t A> void assign(mc::Tracked<C, T, A>& d, int v) { d.set(v); }
template <int T> void assign(mc::MoveOnlyT<T>& d, int v) { d.set(v); }

template <class K, class V, class AP>
struct MapBox {
    using C = ke::HashMap<K, V, IntPolicy, AP>;
    static constexpr bool has_value = true;
    static constexpr int per_entry = 2;
    static const char* name() { return "map"; }
    static constexpr bool has_density = false;
    static bool density(C&) { return true; }
    template <class R> static int key_of(R&& r) { return raw(r->key); }
    template <class R> static int value_of(R&& r) { return val(r->value); }
    template <class R> static void set_value(R&& r, int v) { assign(r->value, v); }
    static bool add(C& c, typename C::Insert& i, int k, int v) { return c.add(i, make<K>(k), make<V>(v)); }
    static bool add_default(C& c, typename C::Insert& i, int k) { return c.add(i, make<K>(k)); }      // value default
    static bool add_blank(C& c, typename C::Insert& i, int k, int v) {
        if (!c.add(i)) return false;
        i->key = make<K>(k);
        i->value = make<V>(v);
        return true;
    }
    static typename C::iterator iter(C& c) { return c.iter(); }
};
template <class K, class AP>
struct SetBox {
    using C = ke::HashSet<K, IntPolicy, AP>;
    static constexpr bool has_value = false;
    static constexpr int per_entry = 1;
    static const char* name() { return "set"; }
    static constexpr bool has_density = false;
    static bool density(C&) { return true; }
    template <class R> static int key_of(R&& r) { return raw(*r); }
    template <class R> static int value_of(R&&) { return 0; }
    template <class R> static void set_value(R&&, int) {}
    static bool add(C& c, typename C::Insert& i, int k, int) { return c.add(i, make<K>(k)); }
    static bool add_default(C& c, typename C::Insert& i, int k) { return c.add(i, make<K>(k)); }
    static bool add_blank(C& c, typename C::Insert& i, int k, int) {
        if (!c.add(i)) return false;
        *i = make<K>(k);
        return true;
    }
    static typename C::iterator iter(C& c) { return c.iter(); }
};
template <class K, class V>
struct Pair {
    K k;
    V v;
    char fill = 'f';
    Pair() : k(), v() {}
    Pair(int a, int b) : k(a), v(b) {}
    Pair(Pair&& o) : k(std::move(o.k)), v(std::move(o.v)), fill(o.fill) {}
    Pair& operator=(Pair&& o) { k = std::move(o.k); v = std::move(o.v); fill = o.fill; return *this; }
};
template <class P> struct TablePolicy {
    typedef P Payload;
    template <class L> static uint32_t hash(const L& k) { return hash_of(g_kind, raw(k)); }
    template <class L> static bool matches(const L& a, const P& p) { return raw(a) == raw(p.k); }
};
template <class K, class V, class AP>
struct TableBox {
    using P = Pair<K, V>;
    using C = ke::HashTable<TablePolicy<P>, AP>;
    static constexpr bool has_value = true;
    static constexpr int per_entry = 2;
    static const char* name() { return "table"; }
    static constexpr bool has_density = true;
    static bool density(C& c) { return c.checkDensity(); }
    template <class R> static int key_of(R&& r) { if (r->fill != 'f') mc::fail("entry corrupted"); return raw(r->k); }
    template <class R> static int value_of(R&& r) { return val(r->v); }
    template <class R> static void set_value(R&& r, int v) { assign(r->v, v); }
    static bool add(C& c, typename C::Insert& i, int k, int v) { return c.add(i, P(k, v)); }
    static bool add_default(C& c, typename C::Insert& i, int k) { return c.add(i, P(k, 0)); }
    static bool add_blank(C& c, typename C::Insert& i, int k, int v) {
        if (!c.add(i)) return false;
        assign(i->k, k);
        assign(i->v, v);
        return true;
    }
    static typename C::iterator iter(C& c) { return typename C::iterator(&c); }
};

// ---- a container next to its model -----------------------------------------------------------------------------
template <class Box>
struct Dict {
    using C = typename Box::C;
    mc::Slot<C> c;
    std::map<int, int> m;
    bool ready = false;     // init() has succeeded

    size_t capacity_bytes() { return c->estimateMemoryUse(); }

    void expect_entry(typename C::Result r, int k) {
        auto it = m.find(k);
        if (it == m.end()) { MC_CHECK(!r.found(), "key %d is found but was never inserted or was removed", k); return; }
        MC_CHECK(r.found(), "key %d is lost", k);
        MC_CHECK(Box::key_of(r) == k, "lookup of key %d returns key %d", k, Box::key_of(r));
        if (Box::has_value) MC_CHECK(Box::value_of(r) == it->second, "key %d has value %d, expected %d", k, Box::value_of(r), it->second);
    }
    void lookup(int k, int how = 0) {
        if (how == 0) expect_entry(c->find(k), k);
        else if (how == 1) expect_entry(c->find(Alt{k}), k);
        else if (how == 2) expect_entry(c->find(Wide{k, {}}), k);
        else expect_entry(c->findForAdd(k), k);
    }
    // Insert or overwrite; returns false if the container refused. form: which add overload.
    bool put(int k, int v, int form = 0, int how = 0) {
        typename C::Insert i = how == 0 ? c->findForAdd(k) : how == 1 ? c->findForAdd(Alt{k}) : c->findForAdd(Wide{k, {}});
        auto it = m.find(k);
        MC_CHECK(i.found() == (it != m.end()), "insertion lookup of key %d: found=%d", k, i.found());
        if (i.found()) {
            expect_entry(i, k);
            if (Box::has_value) { Box::set_value(i, v); it->second = v; }
            return true;
        }
        size_t before = c->elements();
        bool ok = form == 0 ? Box::add(*c, i, k, v) : form == 1 ? Box::add_default(*c, i, k) : Box::add_blank(*c, i, k, v);
        if (!ok) { MC_CHECK(c->elements() == before, "failed insertion changed the count"); return false; }
        int stored = form == 1 ? 0 : v;
        m[k] = stored;
        MC_CHECK(i.found(), "result of insertion does not refer to the entry");
        MC_CHECK(Box::key_of(i) == k, "result of insertion refers to key %d instead of %d", Box::key_of(i), k);
        if (Box::has_value) {
            MC_CHECK(Box::value_of(i) == stored, "inserted value");
            if (form == 1) { Box::set_value(i, v); m[k] = v; }   // and is writable
        }
        return true;
    }
    void erase(int k, int how) {
        auto it = m.find(k);
        if (how == 0) c->removeIfExists(k);
        else if (how == 1) c->removeIfExists(Alt{k});
        else {
            typename C::Result r = c->find(k);
            expect_entry(r, k);
            if (r.found()) c->remove(r);
        }
        if (it != m.end()) m.erase(it);
    }
    void clear() { c->clear(); m.clear(); }
    void count() { MC_CHECK(c->elements() == m.size(), "%zu elements reported, expected %zu", c->elements(), m.size()); }
    void iterate() {
        size_t n = 0;
        std::map<int, int> seen;
        for (auto it = Box::iter(*c); !it.empty(); it.next()) {
            int k = Box::key_of(it);
            MC_CHECK(m.count(k), "iteration visits key %d, which is not present", k);
            MC_CHECK(seen.emplace(k, 1).second, "iteration visits key %d twice", k);
            if (Box::has_value) MC_CHECK(Box::value_of(it) == m[k], "iteration shows a wrong value for key %d", k);
            n++;
            if (n > m.size()) mc::fail("iteration visits too many entries");
        }
        MC_CHECK(n == m.size(), "iteration visits %zu of %zu entries", n, m.size());
    }
    // Whole contents, and absence of everything else in [lo, hi).
    void full(int lo, int hi) {
        count();
        for (int k = lo; k < hi; k++) lookup(k, k & 1);
        for (auto& e : m) if (e.first < lo || e.first >= hi) lookup(e.first);
        iterate();
    }
    uint64_t model_hash() {
        uint64_t h = m.size();
        for (auto& e : m) h = mc::mix(h, uint64_t(e.first) * 1000003 + e.second);
        return h;
    }
};
// ---- n entries: grow, erase while iterating, refill, move, clear ------------------------------------------------
// The model is arithmetic.  after(count) is called with the number of live entries after every phase.
template <class Box, class AP, class F>
void scale_history(size_t n, size_t cap, AP ap, F&& after) {
    using C = typename Box::C;
    mc::Slot<C> slot;
    slot.emplace(ap);
    C* c = &*slot;
    MC_CHECK(c->init(uint32_t(cap)), "init");
    auto put = [&](size_t k) {
        typename C::Insert i = c->findForAdd(int(k));
        if (i.found()) mc::fail("key %zu of %zu is already there", k, n);
        if (!Box::add(*c, i, int(k), int(k) * 3)) mc::fail("key %zu of %zu is refused", k, n);
        if (Box::key_of(i) != int(k)) mc::fail("key %zu of %zu: the result refers to key %d", k, n, Box::key_of(i));
    };
    auto check = [&](const char* what, size_t upto, size_t count, auto&& present) {
        if (c->elements() != count) mc::fail("%s: %zu elements, expected %zu (of %zu)", what, c->elements(), count, n);
        size_t seen = 0, sum = 0, want = 0;
        for (size_t k = 0; k < upto + 64; k++) {
            typename C::Result r = c->find(int(k));
            bool in = k < upto && present(k);
            if (r.found() != in) mc::fail("%s: key %zu of %zu is %s", what, k, n, in ? "lost" : "there");
            if (!in) continue;
            if (Box::key_of(r) != int(k) || (Box::has_value && Box::value_of(r) != int(k) * 3)) mc::fail("%s: key %zu of %zu has the wrong entry", what, k, n);
            want += k;
        }
        for (auto it = Box::iter(*c); !it.empty(); it.next()) { seen++; sum += Box::key_of(it); if (seen > count) break; }
        if (seen != count || sum != want) mc::fail("%s: iteration visits %zu entries, expected %zu (of %zu)", what, seen, count, n);
        after(count);
    };
    for (size_t k = 0; k < n; k++) put(k);
    check("filled", n, n, [](size_t) { return true; });
    size_t visited = 0;
    for (auto it = Box::iter(*c); !it.empty(); it.next()) {
        visited++;
        if (Box::key_of(it) % 5) it.erase();
    }
    if (visited != n) mc::fail("erasing iteration visits %zu of %zu entries", visited, n);
    check("erased", n, (n + 4) / 5, [](size_t k) { return k % 5 == 0; });
    for (size_t k = 0; k < n / 2; k++) put(n + k);
    check("refilled", n + n / 2, (n + 4) / 5 + n / 2, [&](size_t k) { return k >= n || k % 5 == 0; });
    for (size_t k = n; k < n + n / 2; k++) c->removeIfExists(int(k));
    check("removed", n + n / 2, (n + 4) / 5, [&](size_t k) { return k < n && k % 5 == 0; });
    {
        C moved(std::move(*c));
        slot.reset();
        slot.emplace(std::move(moved));
        c = &*slot;
    }
    check("moved", n, (n + 4) / 5, [](size_t k) { return k % 5 == 0; });
    c->clear();
    check("cleared", n, 0, [](size_t) { return false; });
    for (size_t k = 0; k < 40; k++) put(k * 2);
    check("reused", 80, 40, [](size_t k) { return k % 2 == 0; });
}
}  // namespace hc

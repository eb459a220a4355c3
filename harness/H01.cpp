// H01: hash maps and sets agree with an abstract dictionary after every history.
#include "hash_bfs.h"

namespace hc { int g_kind; }
using namespace hc;

namespace {
using AP = mc::ArenaPolicy;
mc::Arena arena{"a"};

// ---- 1. bounded histories from dense, sparse and tombstone-ridden start states ---------------------------------
template <class Box>
struct Small {
    using C = typename Box::C;
    Dict<Box> d[2];
    int next = 1;
    // Keys: 0..4 are played with; 100.. are filler.
    void start(int s) {
        int cap = s >= 6 ? 32 : 16;
        d[0].c.emplace(AP(&arena));
        d[1].c.emplace(AP(&arena));
        MC_CHECK(d[0].c->init(cap) && d[1].c->init(), "init");
        auto fill = [&](int lo, int n) { for (int k = 0; k < n; k++) MC_CHECK(d[0].put(100 + lo + k, next++), "fill"); };
        auto drop = [&](int lo, int n) { for (int k = 0; k < n; k++) d[0].erase(100 + lo + k, k % 3); };
        switch (s) {
            case 0: break;
            case 1: fill(0, 11); break;                       // two insertions from growing
            case 2: fill(0, 12); drop(0, 9); break;           // few live, nine tombstones
            case 3: fill(0, 13); drop(3, 3); break;           // grown? dense
            case 4: fill(0, 30); drop(5, 20); break;          // grown, then mostly removed
            case 5: fill(0, 13); d[0].clear(); fill(0, 3); break;
            case 6: fill(0, 24); break;
            case 7: fill(0, 60); d[0].clear(); break;         // far above its initial size, empty
        }
        mc::log("start %d (%s hash)", s, kind_name(g_kind));
    }
    void check() {
        for (auto& x : d) {
            x.count();
            for (int k = 0; k < 6; k++) x.lookup(k);
        }
        mc::state(mc::mix(d[0].model_hash(), d[1].model_hash()));
    }
    void step() {
        int w = 0;
        switch (mc::choose(9 + Box::has_density)) {
            case 0: { int k = mc::choose(5); int v = next++; mc::op("put %d=%d", k, v); MC_CHECK(d[w].put(k, v), "put"); break; }
            case 1: { int k = mc::choose(5); mc::op("remove %d", k); d[w].erase(k, 2); break; }
            case 2: { int k = mc::choose(2) ? 101 : 104; mc::op("remove if exists filler %d", k); d[w].erase(k, 0); break; }
            case 3: { mc::op("clear"); d[w].clear(); break; }
            case 4: { mc::op("move out, destroy source, continue with the target"); C tmp(std::move(*d[w].c)); MC_CHECK(d[w].c->elements() == 0, "moved-from count"); d[w].c.reset(); d[w].c.emplace(std::move(tmp)); break; }
            case 5: { mc::op("move into the second container, first starts afresh");
                d[1].c.reset(); d[1].c.emplace(std::move(*d[0].c)); d[1].m = d[0].m; d[0].m.clear(); MC_CHECK(d[0].c->init(mc::flip() ? 64 : 16), "init after move"); break; }
            case 6: { int k = mc::choose(5); mc::op("look %d up for insertion, then drop it", k); d[w].lookup(k, 3); d[w].lookup(k, 2); break; }
            case 7: { int k = mc::choose(5), f = 1 + mc::choose(2); int v = next++; mc::op("put %d=%d (form %d)", k, v, f); MC_CHECK(d[w].put(k, v, f, f), "put"); break; }
            case 8: { mc::op("put three new fillers"); for (int k = 0; k < 3; k++) { int id = 200 + next++; MC_CHECK(d[w].put(id, id), "put"); } break; }
            case 9: { mc::op("resize if the density asks for it"); MC_CHECK(Box::density(*d[w].c), "checkDensity"); break; }
        }
    }
    void body(int depth, int times = 1) {
        arena = mc::Arena{"a"};
        mc::g_default_arena = &arena;
        g_kind = mc::choose(kNumKinds);
        start(mc::choose(8));
        check();
        mc::pump(depth, times, [&] { step(); check(); });
        d[0].full(0, 8);
        d[1].full(0, 8);
        mc::observe(mc::mix(d[0].model_hash(), d[1].model_hash()));
        d[0].c.reset();
        d[1].c.reset();
        MC_CHECK(arena.blocks == 0, "memory left");
    }
};

// ---- 2. all reachable states of a small universe: hash_bfs.h -------------------------------------------------------
void bfs() {
    int kind = mc::choose(kNumKinds), f = mc::choose(3);
    static const int fill[] = {0, 5, 9};
    static const int uni_q[] = {5, 5, 5}, uni_t[] = {6, 6, 6};
    Bfs b;
    b.kind = kind;
    b.fillers = fill[f];
    b.universe = mc::thorough() ? uni_t[f] : uni_q[f];
    b.limit = mc::thorough() ? 600000 : 100000;
    b.run();
    mc::op("%s hash, %d fillers, %d keys: %zu states%s", kind_name(kind), b.fillers, b.universe, b.nodes.size(), b.nodes.size() >= b.limit ? " (capped)" : "");
    mc::observe(b.nodes.size());
}

// ---- 3. bulk histories across growth and shrink thresholds --------------------------------------------------------
template <class Box>
void bulk() {
    static const int sizes_q[] = {0, 3, 12, 13, 26, 50, 99};
    static const int sizes_t[] = {0, 1, 3, 7, 11, 12, 13, 14, 24, 25, 26, 48, 49, 50, 51, 96, 97, 98, 110, 193, 200, 400, 800};
    bool t = mc::thorough();
    const int* sizes = t ? sizes_t : sizes_q;
    int ns = t ? 23 : 7;
    arena = mc::Arena{"a"};
    mc::g_default_arena = &arena;
    g_kind = mc::choose(kNumKinds);
    int cap = 16 << mc::choose(t ? 4 : 2);
    Dict<Box> d;
    d.c.emplace(AP(&arena));
    MC_CHECK(d.c->init(cap), "init");
    int n1 = sizes[mc::choose(ns)], n2 = sizes[mc::choose(ns)], n3 = sizes[mc::choose(ns)];
    if (n2 > n1 || ((g_kind == kConstant || g_kind == kTwo) && n1 + n3 > 250)) mc::prune();
    int order = mc::choose(3), wipe = mc::choose(2);
    mc::op("%s hash, capacity %d: grow to %d, remove to %d (order %d%s), add %d new", kind_name(g_kind), cap, n1, n2, order, wipe ? ", clear" : "", n3);
    mc::transitions(n1 + (n1 - n2) + n3);
    std::vector<int> keys;
    for (int k = 0; k < n1; k++) { MC_CHECK(d.put(k * 7, k), "put"); keys.push_back(k * 7); }
    d.full(0, 5);
    for (int k = n1; k > n2; k--) {
        size_t at = order == 0 ? 0 : order == 1 ? keys.size() - 1 : keys.size() / 2;
        d.erase(keys[at], k % 3);
        keys.erase(keys.begin() + at);
    }
    d.full(0, 5);
    if (wipe) { d.clear(); d.full(0, 5); }
    if (Box::has_density) for (int k = 0; k < 3; k++) { MC_CHECK(Box::density(*d.c), "checkDensity"); d.full(0, 5); }
    for (int k = 0; k < n3; k++) {
        int key = 100000 + k * 16;
        MC_CHECK(d.put(key, k, k % 3), "put");
        d.lookup(key + 1);
        if (!d.m.empty()) d.lookup(d.m.begin()->first);
    }
    d.full(0, 5);
    mc::state(mc::mix(d.model_hash(), d.capacity_bytes()));
    mc::observe(mc::mix(d.model_hash(), d.capacity_bytes()));
    d.c.reset();
    MC_CHECK(arena.blocks == 0, "memory left");
}

// ---- 4. a second element type with its own policy: strings looked up by C string, string and view ------------------
struct SP {
    static uint32_t hash(const char* s) { return ke::HashCharSequence(s, strlen(s)); }
    static uint32_t hash(const std::string& s) { return ke::HashCharSequence(s.data(), s.size()); }
    static bool matches(const char* a, const std::string& b) { return b == a; }
    static bool matches(const std::string& a, const std::string& b) { return a == b; }
};
void strings() {
    ke::HashMap<std::string, std::string, SP> m;
    std::map<std::string, std::string> ref;
    MC_CHECK(m.init(), "init");
    int depth = 4;
    static const char* keys[] = {"", "a", "b", "ab", "a rather long key that does not fit inline"};
    for (int s = 0; s < depth; s++) {
        int k = mc::choose(5), o = mc::choose(4);
        std::string key = keys[k], v = "v" + std::to_string(s) + " with quite some text in it";
        mc::op("%d on '%s'", o, keys[k]);
        if (o == 0 || o == 1) {
            auto i = o ? m.findForAdd(keys[k]) : m.findForAdd(key);
            MC_CHECK(i.found() == (ref.count(key) > 0), "found");
            if (!i.found()) { MC_CHECK(o ? m.add(i, keys[k], v) : m.add(i, key, v), "add"); MC_CHECK(key == keys[k], "the caller's key was modified"); }
            else i->value = v;
            MC_CHECK(i->key == key && i->value == v, "entry");
            ref[key] = v;
        } else if (o == 2) { m.removeIfExists(keys[k]); ref.erase(key); }
        else { auto r = m.find(key); if (r.found()) m.remove(r); ref.erase(key); }
        for (auto* q : keys) {
            auto r = m.find(q);
            auto it = ref.find(q);
            MC_CHECK(r.found() == (it != ref.end()), "'%s'", q);
            if (r.found()) MC_CHECK(r->key == it->first && r->value == it->second, "'%s'", q);
        }
        MC_CHECK(m.elements() == ref.size(), "count");
    }
    uint64_t h = 0;
    for (auto& e : ref) h = mc::hash_str(e.first + "=" + e.second, h);
    mc::state(h);
    mc::observe(h);
}
// The table on its own default policy: pointer keys.
void pointers() {
    static int objs[40];
    ke::HashMap<int*, int, ke::PointerPolicy<int>> m;
    MC_CHECK(m.init(16), "init");
    int n = mc::choose(40), skip = 1 + mc::choose(5);
    mc::op("%d pointers, every %dth removed", n, skip);
    for (int i = 0; i < n; i++) { auto p = m.findForAdd(&objs[i]); MC_CHECK(!p.found() && m.add(p, &objs[i], i), "add"); }
    for (int i = 0; i < n; i += skip) m.removeIfExists(&objs[i]);
    for (int i = 0; i < 40; i++) {
        auto r = m.find(&objs[i]);
        MC_CHECK(r.found() == (i < n && i % skip != 0), "pointer %d", i);
        if (r.found()) MC_CHECK(r->value == i, "pointer %d", i);
    }
    auto z = m.findForAdd((int*)nullptr);
    MC_CHECK(!z.found() && m.add(z, (int*)nullptr, 9) && m.find((int*)nullptr).found(), "null key");
    mc::state(n * 8 + skip);
}
// Arguments that are stored in the very map they are given to, at every size, so also when the map grows for them.
void aliasing() {
    ke::HashMap<std::string, std::string, SP> m;
    std::map<std::string, std::string> ref;
    MC_CHECK(m.init(16), "init");
    int n = 1 + mc::choose(60), way = mc::choose(8), gone = mc::choose(3);
    auto name = [](const char* what, int k) { return std::string(what) + (k % 2 ? "-long-enough-to-be-on-the-heap-" : "") + std::to_string(k); };
    for (int k = 0; k < n + gone; k++) { auto i = m.findForAdd(name("key", k)); MC_CHECK(!i.found() && m.add(i, name("key", k), name("value", k)), "fill"); ref[name("key", k)] = name("value", k); }
    for (int k = n; k < n + gone; k++) { m.removeIfExists(name("key", k)); ref.erase(name("key", k)); }
    int at = mc::choose(3) * (n - 1) / 2;
    std::string key = name("key", at), value = name("value", at), fresh = name("new", n);
    mc::op("%d entries, %d removed, way %d with entry %d", n, gone, way, at);
    auto src = m.find(key);
    MC_CHECK(src.found() && src->value == value, "source");
    switch (way) {
        case 0: { auto i = m.findForAdd(fresh); MC_CHECK(!i.found() && m.add(i, fresh, src->value) && i->key == fresh && i->value == value, "added entry"); ref[fresh] = value; break; }
        case 1: { auto i = m.findForAdd(fresh); const std::string& c = src->value; MC_CHECK(!i.found() && m.add(i, fresh, c) && i->value == value, "added entry"); ref[fresh] = value; break; }
        case 2: {
            auto i = m.findForAdd(fresh);
            MC_CHECK(!i.found() && m.add(i, fresh, std::move(src->value)) && i->value == value, "added entry");
            m.find(key)->value = "given away";
            ref[fresh] = value, ref[key] = "given away";
            break;
        }
        case 3: { auto i = m.findForAdd(src->value); MC_CHECK(!i.found() && m.add(i, src->value, src->key) && i->key == value && i->value == key, "added entry"); ref[value] = key; break; }
        case 4: { auto i = m.findForAdd(src->value); MC_CHECK(!i.found() && m.add(i, src->value) && i->key == value && i->value.empty(), "added entry"); ref[value] = ""; break; }
        case 5: m.removeIfExists(src->key); ref.erase(key); break;
        case 6: { auto i = m.findForAdd(src->key); MC_CHECK(i.found() && i->key == key, "the entry is not found by its own key"); m.remove(i); ref.erase(key); break; }
        case 7: for (auto it = m.iter(); !it.empty(); it.next()) { std::string k = it->key; MC_CHECK(m.find(it->key).found() && m.find(it->key)->value == it->value, "an entry is not found by its own key"); it.erase(); ref.erase(k); break; } break;
    }
    MC_CHECK(m.elements() == ref.size(), "%zu elements, not %zu", m.elements(), ref.size());
    for (auto& [k, v] : ref) { auto r = m.find(k); MC_CHECK(r.found() && r->key == k && r->value == v, "entry %s", k.c_str()); }
    size_t seen = 0;
    for (auto it = m.iter(); !it.empty(); it.next()) { auto r = ref.find(it->key); MC_CHECK(r != ref.end() && r->second == it->value, "iteration"); seen++; }
    MC_CHECK(seen == ref.size(), "iteration");
    mc::state((n * 8 + way) * 4 + gone);
}
// Very many entries.
void scale() {
    mc::for_sizes(40, mc::thorough() ? 1 << 22 : 1 << 20, [](size_t n) {
        for (int kind : {int(kIdentity), int(kSpread)}) {
            g_kind = kind;
            arena = mc::Arena{"a"};
            mc::g_default_arena = nullptr;
            scale_history<MapBox<int, int, AP>>(n, n % 3 ? 16 : mc::pow2_from(n), AP(&arena), [](size_t) {});
            MC_CHECK(arena.blocks == 0, "memory left");
        }
        mc::evaluations(2);
        mc::state(n);
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    int d = mc::thorough() ? 4 : 2;
    mc::add("strings", strings, 0, 3);
    mc::add("pointers", pointers, 0, 2);
    mc::add("aliasing", aliasing, 0, 2);
    mc::add("reachable", bfs, 0, 2);
    mc::add("map", [d] { Small<MapBox<int, int, AP>>().body(d); }, 0, 4);
    mc::add("set", [d] { Small<SetBox<int, AP>>().body(d); }, 0, 4);
    mc::add("table", [d] { Small<TableBox<int, int, AP>>().body(d); }, 0, 4);
    mc::add("bulk-map", bulk<MapBox<int, int, AP>>, 0, 4);
    mc::add("bulk-set", bulk<SetBox<int, AP>>, 0, 4);
    mc::add("loops1", [] { Small<MapBox<int, int, AP>>().body(1, mc::thorough() ? 6000 : 2000); }, 0, 3);
    mc::add("loops2", [] { Small<SetBox<int, AP>>().body(2, mc::thorough() ? 300 : 50); }, 0, 4);
    mc::add("scale", scale, 0, -1);
}

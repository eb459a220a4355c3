// Breadth-first exploration of every state a hash set over a small key universe can reach.
#pragma once
#include <unordered_map>
#include "hash_common.h"

namespace hc {
// ---- 2. all reachable states of a small universe -----------------------------------------------------------------
// The set object and the arena its memory comes from are one byte image; an operation maps images to images.
struct Image {
    alignas(64) char object[256];
    alignas(64) char heap[2][8 * 64];     // two table-sized regions (16, 32 or 64 slots of 8 bytes)
    int used[2];
};
inline Image g_img;
struct ImagePolicy {
    void reportOutOfMemory() { mc::fail("out of memory"); }
    void reportAllocationOverflow() { mc::fail("overflow"); }
    void* am_malloc(size_t n) {
        int r = !g_img.used[0] ? 0 : 1;
        if (g_img.used[r]) mc::fail("more than two tables at a time");
        if (n > sizeof g_img.heap[0]) mc::prune();
        g_img.used[r] = int(n);
        memset(g_img.heap[r], 0xee, sizeof g_img.heap[r]);
        return g_img.heap[r];
    }
    void am_free(void* p) {
        if (!p) return;
        int r = p == g_img.heap[0] ? 0 : 1;
        if (p != g_img.heap[r] || !g_img.used[r]) mc::fail("bad free");
        g_img.used[r] = 0;
        memset(g_img.heap[r], 0, sizeof g_img.heap[r]);
    }
};
using BSet = ke::HashSet<int, IntPolicy, ImagePolicy>;
static_assert(sizeof(BSet) <= sizeof g_img.object);

struct Bfs {
    int kind, fillers, universe;
    size_t limit;
    struct Node { int64_t parent; short op; uint32_t members; };
    std::vector<Node> nodes;
    std::string images;      // packed
    std::unordered_map<uint64_t, std::vector<uint32_t>> index;

    BSet& set() { return *reinterpret_cast<BSet*>(g_img.object); }

    void trace(int64_t n, short op) {
        std::vector<short> ops{op};
        for (; n > 0; n = nodes[n].parent) ops.push_back(nodes[n].op);
        mc::log("universe of %d keys, %d fillers, %s hash; operations:", universe, fillers, kind_name(kind));
        for (size_t i = ops.size(); i-- > 0;)
            if (ops[i] >= 0) mc::log("  %s %d", ops[i] % 2 ? "remove" : "add", ops[i] / 2);
    }
    size_t slot = 0;     // bytes per slot
    int64_t at = 0;
    short doing = -1;

    void run() {
        g_kind = kind;
        memset((void*)&g_img, 0, sizeof g_img);
        new (g_img.object) BSet();
        uint32_t members = 0;
        if (!set().init(16)) mc::fail("init");
        slot = set().estimateMemoryUse() / 16;
        // Fillers (never touched again) put the universe near the growth threshold.
        for (int k = 0; k < fillers; k++) set().add(1000 + k);
        push(-1, -1, members);
        for (size_t n = 0; n < nodes.size() && nodes.size() < limit; n++) {
            at = int64_t(n);
            for (int k = 0; k < universe; k++) {
                for (int rem = 0; rem < 2; rem++) {
                    memcpy((void*)&g_img, &images[n * sizeof(Image)], sizeof(Image));
                    uint32_t mem = nodes[n].members;
                    doing = short(k * 2 + rem);
                    apply(k, rem, mem);
                    push(int64_t(n), doing, mem);
                }
            }
            mc::transitions(universe * 2);
        }
    }
    [[noreturn]] void bad(const char* what, int k) {
        trace(at, doing);
        mc::fail("%s (key %d)", what, k);
    }
    void apply(int k, int rem, uint32_t& mem) {
        bool there = mem >> k & 1;
        if (set().has(k) != there) bad(there ? "key lost" : "key present that should not be", k);
        if (rem) { set().removeIfExists(k); mem &= ~(1u << k); }
        else { set().add(k); mem |= 1u << k; }
        size_t slots = set().estimateMemoryUse() / slot;
        if (slots < 16) bad("table smaller than its initial capacity", k);
        if (set().elements() * 6 > slots * 5) bad("table overfull", k);
        if (set().elements() != size_t(__builtin_popcount(mem) + fillers)) bad("wrong element count", k);
        for (int j = 0; j < universe; j++)
            if (set().has(j) != bool(mem >> j & 1)) bad(mem >> j & 1 ? "key lost" : "key present that should not be", j);
        for (int j = 0; j < fillers; j++) if (!set().has(1000 + j)) bad("key lost", 1000 + j);
        if (set().has(999)) bad("key present that should not be", 999);
        uint32_t seen = 0; int n = 0;
        for (auto it = set().iter(); !it.empty(); it.next()) { n++; if (*it < 32) { if (seen >> *it & 1) bad("key held twice", *it); seen |= 1u << *it; } }
        if (seen != mem || n != __builtin_popcount(mem) + fillers) bad("iteration disagrees", k);
    }
    void push(int64_t parent, short op, uint32_t mem) {
        uint64_t h = mc::hash_bytes(&g_img, sizeof g_img);
        auto& b = index[h];
        for (uint32_t i : b) if (!memcmp(&images[i * sizeof(Image)], &g_img, sizeof g_img)) return;
        b.push_back(uint32_t(nodes.size()));
        nodes.push_back({parent, op, mem});
        images.append((const char*)&g_img, sizeof g_img);
        mc::state(mc::mix(h, kind * 100 + fillers));
    }
};

}  // namespace hc

// A stateful allocator policy: every policy object names the arena its memory comes from, blocks must go back to
// the same arena, and each allocation may be refused (one deviation each).
#pragma once
#include "core.h"

namespace mc {
struct Arena {
    const char* name;
    int64_t blocks = 0;        // live blocks
    int64_t bytes = 0;         // live bytes
    int64_t allocs = 0;
    int64_t refused = 0;
    int64_t overflows = 0;
    int64_t requested = 0;     // calls of am_malloc
    int64_t peak = 0;
    bool inject = false;       // let the explorer refuse allocations
    int64_t fail_at = -1;      // or refuse exactly this request (0-based), and
    bool fail_on = false;      // all later ones
    bool closed = false;       // any allocation is an error
};
extern Arena* g_default_arena;   // arena of default-constructed policies

class ArenaPolicy {
    struct Header { Arena* arena; size_t size; uint64_t magic; uint64_t pad; };
    static constexpr uint64_t kMagic = 0xa11ca7edb10cull;
  public:
    Arena* arena;
    ArenaPolicy() : arena(g_default_arena) {}
    explicit ArenaPolicy(Arena* a) : arena(a) {}
    void reportOutOfMemory() { arena->refused++; }
    void reportAllocationOverflow() { arena->overflows++; }
    void* am_malloc(size_t n) {
        if (!arena) fail("allocation through a policy that was never given to the container");
        if (arena->closed) fail("unexpected allocation of %zu bytes", n);
        int64_t k = arena->requested++;
        bool no = arena->fail_at >= 0 && (k == arena->fail_at || (arena->fail_on && k > arena->fail_at));
        if (!no && arena->inject) no = choose_dev(2) == 1;
        if (n > (size_t(1) << 34)) no = true;
        if (no) {
            log("  allocation of %zu bytes refused", n);
            reportOutOfMemory();
            return nullptr;
        }
        Header* h = (Header*)::malloc(n + sizeof(Header));
        if (!h) { reportOutOfMemory(); return nullptr; }
        *h = {arena, n, kMagic, 0};
        arena->blocks++;
        arena->bytes += n;
        if (arena->bytes > arena->peak) arena->peak = arena->bytes;
        arena->allocs++;
        memset(h + 1, 0xc5, n);
        return h + 1;
    }
    void am_free(void* p) {
        if (!p) return;
        Header* h = (Header*)p - 1;
        if (h->magic != kMagic) fail("a block that is not from the policy is freed");
        if (h->arena != arena) fail("memory of allocator %s is freed through allocator %s", h->arena->name, arena ? arena->name : "(none)");
        arena->blocks--;
        arena->bytes -= h->size;
        h->magic = 0;
        ::free(h);
    }
};
}  // namespace mc

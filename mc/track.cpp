#include "track.h"

namespace mc {
Life g_life;
namespace {
constexpr size_t kSize = 1 << 17;
uintptr_t tab[kSize];        // open addressing, backward-shift deletion
size_t used;
size_t slot(uintptr_t a) { return (a * 0x9E3779B97F4A7C15ULL) >> 47; }
size_t find(uintptr_t a) {
    size_t i = slot(a);
    while (tab[i] && tab[i] != a) i = (i + 1) & (kSize - 1);
    return i;
}
void erase(size_t i) {
    used--;
    for (size_t j = i;;) {
        tab[i] = 0;
        for (;;) {
            j = (j + 1) & (kSize - 1);
            if (!tab[j]) return;
            size_t k = slot(tab[j]);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        tab[i] = tab[j];
        i = j;
    }
}
}  // namespace

bool life_alive(const void* p) { return tab[find(uintptr_t(p))] != 0; }
void life_construct(const void* p, const char* what) {
    size_t i = find(uintptr_t(p));
    if (tab[i]) fail("%s constructed on top of a live %s", what, what);
    if (used > kSize / 4 * 3) fail("too many live values (%zu)", used);
    tab[i] = uintptr_t(p);
    used++;
    g_life.constructed++;
    g_life.live++;
}
void life_destroy(const void* p, const char* what) {
    size_t i = find(uintptr_t(p));
    if (!tab[i]) fail("%s destroyed twice, or never constructed", what);
    erase(i);
    g_life.destroyed++;
    g_life.live--;
}
void life_use(const void* p, const char* what) {
    if (!tab[find(uintptr_t(p))]) fail("%s used after its destruction, or never constructed", what);
}
void life_reset() {
    if (used) memset(tab, 0, sizeof tab);
    used = 0;
    g_life = Life{};
}
void life_expect_live(int64_t n, const char* what) {
    if (g_life.live != n) fail("%s: %lld values are alive, %lld expected", what, (long long)g_life.live, (long long)n);
}
}  // namespace mc
#include "policy.h"
namespace mc { Arena* g_default_arena; }

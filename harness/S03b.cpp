// S03: joining and splitting texts of more than 4 GiB.
#include <amtl/am-string.h>
#include <new>
#include <stdexcept>

#include <mc/core.h>
#include "roomy.h"

namespace {
// Few pieces and a long separator, so that only the joined text is large; it is formatted where the machine has the
// memory.
void huge() {
    const int k = mc::choose(mc::thorough() ? 2 : 1);
    mc::state(k);
    if (!roomy(16)) return;
    mc::path_bytes(64ull << 30);
    const size_t count = k ? 131 : 259, width = size_t(1) << (k ? 25 : 24);
    std::string sep(width, '-');
    sep[0] = '<';
    sep[width - 1] = '>';
    std::vector<std::string> pieces;
    for (size_t i = 0; i < count; i++) pieces.push_back(std::string(i % 4, char('a' + i % 26)));
    mc::op("%zu pieces, a separator of %zu characters", count, width);
    try {
#if defined(__SANITIZE_ADDRESS__)
        // under the sanitizer, as a length that is too small writes past the end
        std::string all = ke::Join(pieces, sep.c_str());
        mc::evaluations(1);
        size_t at = 0;
        for (size_t i = 0; i < count; i++) {
            if (all.size() - at < pieces[i].size() || all.compare(at, pieces[i].size(), pieces[i])) mc::fail("piece %zu is not at %zu", i, at);
            at += pieces[i].size();
            if (i + 1 == count) break;
            if (all.size() - at < width || memcmp(all.data() + at, sep.data(), width)) mc::fail("separator %zu is not at %zu", i, at);
            at += width;
        }
        if (at != all.size()) mc::fail("Join returned %zu characters, not %zu", all.size(), at);
#else
        // without, as its strstr() reads the whole text at every call
        std::string all;
        all.reserve(count * (width + 4));
        for (size_t i = 0; i < count; i++) all += i ? sep + pieces[i] : pieces[i];
        mc::evaluations(1);
        std::vector<std::string> parts = ke::Split(all.c_str(), sep.c_str());
        if (parts != pieces) mc::fail("Split returned %zu pieces, or others", parts.size());
#endif
        mc::evaluations(1);
    } catch (const std::bad_alloc&) {
        mc::fail("no memory, where there is enough");
    } catch (const std::length_error&) {
        mc::fail("a length out of range");
    }
}
}  // namespace

void mc_register() {
    mc::add("huge", huge, 0, 0);
}

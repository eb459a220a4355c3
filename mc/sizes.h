// The sizes at which code that is right for small inputs stops being right: every small one, then both sides of every
// power of two.  Scenarios that use it are sharded by stride (register with shard depth -1).
#pragma once
#include <vector>
#include "core.h"

namespace mc {
inline std::vector<size_t> sizes(size_t dense, size_t max) {
    std::vector<size_t> v;
    for (size_t k = 0; k <= dense; k++) v.push_back(k);
    for (size_t p = 1; p <= max; p *= 2)
        for (size_t k : {p - 1, p, p + 1, p + 7})
            if (k > v.back()) v.push_back(k);
    return v;
}
inline size_t pow2_from(size_t n) {
    size_t p = 1;
    while (p < n) p *= 2;
    return p;
}
// Calls f(size) for this shard's share.
template <class F> void for_sizes(size_t dense, size_t max, F&& f) {
    auto v = sizes(dense, max);
    for (size_t i = shard_index(); i < v.size(); i += shard_count()) {
        log("size %zu", v[i]);
        f(v[i]);
    }
}
}  // namespace mc

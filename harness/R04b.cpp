// R04: fixed arrays of more than 4 GiB.
#include <amtl/am-fixedarray.h>
#include <new>
#include <utility>

#include <mc/core.h>
#include "roomy.h"

namespace {
void huge() {
    const size_t n = (size_t(1) << 32) + 5, far = (size_t(1) << 32) - 77;
    mc::op("an array of %zu characters", n);
    mc::state(1);
    if (!roomy(14)) return;
    {
        ke::FixedArray<char> a(n);
        mc::evaluations(1);
        MC_CHECK(a.initialize() && a.size() == n && size_t(a.end() - a.begin()) == n && !a.empty(), "an array of %zu has size %zu", n, a.size());
        MC_CHECK(a[0] == 0 && a[far] == 0 && a.back() == 0, "values");
        a[far] = 1;
        a.back() = 2;
        ke::FixedArray<char> b(a);
        mc::evaluations(1);
        MC_CHECK(b.initialize() && b.size() == n && b[far] == 1 && b.back() == 2 && b.buffer() != a.buffer(), "a copy of size %zu", b.size());
        MC_CHECK(a == b && !(a != b), "copies differ");
        mc::evaluations(1);
        b[far] = 3;
        MC_CHECK(a != b && !(a == b), "arrays that differ at %zu are equal", far);
        mc::evaluations(1);
        b = a;
        MC_CHECK(b.size() == n && b[far] == 1, "assignment");
        mc::evaluations(1);
        ke::FixedArray<char> c(std::move(a));
        MC_CHECK(c.size() == n && a.size() == 0 && c.back() == 2, "moved to size %zu", c.size());
    }
    mc::evaluations(1);
}
}  // namespace

void mc_register() {
    mc::add("huge", huge, 0, 0);
}

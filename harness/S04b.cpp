// S04: case, prefix and suffix helpers on texts of more than 2 and 4 GiB.
#include <amtl/am-string.h>
#include <new>

#include <mc/core.h>
#include "roomy.h"

namespace {
size_t kLength;
void differ(const char* what, const std::string& got, const char* want) {
    if (got.size() != kLength) mc::fail("%s returned %zu characters, not %zu", what, got.size(), kLength);
    if (memcmp(got.data(), want, kLength)) mc::fail("%s of %zu characters differs", what, kLength);
}
void huge() {
    const int k = mc::choose(2);
    const size_t pieces = k && !mc::thorough() ? 513 : 1025;  // 2 GiB or 4, and something
    kLength = pieces * HugeText::kPiece - 1;
    mc::op("%s of %zu characters", k ? "Lowercase" : "Uppercase", kLength);
    mc::state(k);
    if (!roomy(12)) return;
    HugeText upper("ABXYZ@[`{09 \xc4\xe4-", pieces), lower("abxyz@[`{09 \xc4\xe4-", pieces);
    try {
        std::string got = k ? ke::Lowercase(upper.p) : ke::Uppercase(lower.p);
        mc::evaluations(1);
        differ(k ? "Lowercase" : "Uppercase", got, k ? lower.p : upper.p);
        const char* same = k ? lower.p : upper.p;
        mc::evaluations(1);
        if (!ke::StartsWith(same, same)) mc::fail("StartsWith denies a text its own prefix");
        if (!ke::StartsWith(got, same)) mc::fail("StartsWith denies a string its own prefix");
        mc::evaluations(2);
        got.back() = '!';
        if (ke::StartsWith(got, same) || ke::StartsWith(same, got.c_str())) mc::fail("StartsWith accepts a text that differs in the last character");
        mc::evaluations(2);
        std::string tail(got, got.size() - 3);
        if (!ke::EndsWith(got, tail)) mc::fail("EndsWith denies the last characters");
        if (ke::EndsWith(tail, got)) mc::fail("EndsWith accepts a longer text");
        tail[1] = '#';
        if (ke::EndsWith(got, tail)) mc::fail("EndsWith accepts other characters");
        mc::evaluations(3);
    } catch (const std::exception& e) {
        mc::fail("an exception, where there is enough memory: %s", e.what());
    }
}
}  // namespace

void mc_register() {
    mc::add("huge", huge, 0, 0);
}

// S02: the longest texts a formatter can return.
#include <amtl/am-string.h>
#include <limits.h>
#include <new>

#include <mc/core.h>
#include "roomy.h"

namespace {
__attribute__((format(printf, 1, 0))) std::unique_ptr<char[]> raw_va(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::SprintfArgs(f, ap);
    va_end(ap);
    return r;
}
__attribute__((format(printf, 1, 0))) std::string str_va(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::StringPrintfVa(f, ap);
    va_end(ap);
    return r;
}
// The longest texts vsnprintf() knows: INT_MAX characters, and one more, which is an error.  They take two to four
// GiB each, and are formatted where the machine has the memory.
void longest() {
    const int k = mc::choose(mc::thorough() ? 4 : 2);
    mc::op("form %d", k);
    mc::state(k);
    if (!roomy(12)) return;
    const char* const fmt = "%*s%*s";
    const int half = 1 << 30, rest = INT_MAX - half;
    const size_t n = INT_MAX;
    auto right = [](const char* form, const char* p, size_t length) {
        if (length != n || p[n]) mc::fail("%s of %zu characters returned %zu", form, n, length);
        if (p[0] != ' ' || memcmp(p, p + 1, n - 2) || p[n - 1] != 'y') mc::fail("%s of %zu characters returned others", form, n);
    };
    try {
        if (k % 2 == 0) {
            auto r = k ? raw_va(fmt, half, "", rest, "y") : ke::Sprintf(fmt, half, "", rest, "y");
            if (!r) mc::fail("no buffer for %zu characters", n);
            mc::evaluations(1);
            right(k ? "SprintfArgs" : "Sprintf", r.get(), strlen(r.get()));
            if (ke::Sprintf(fmt, half, "", half, "y")) mc::fail("Sprintf of more than INT_MAX characters returned a buffer");
        } else {
            std::string r = k == 3 ? str_va(fmt, half, "", rest, "y") : ke::StringPrintf(fmt, half, "", rest, "y");
            mc::evaluations(1);
            right(k == 3 ? "StringPrintfVa" : "StringPrintf", r.c_str(), r.size());
            if (!ke::StringPrintf(fmt, half, "", half, "y").empty()) mc::fail("StringPrintf of more than INT_MAX characters returned text");
        }
    } catch (const std::bad_alloc&) {
        mc::fail("no memory for %zu characters, where there is enough", n);
    }
    mc::evaluations(1);
}
}  // namespace

void mc_register() {
    mc::add("longest", longest, 0, 0);
}

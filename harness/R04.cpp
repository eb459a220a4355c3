// R04: fixed arrays have value semantics and survive allocation failure.
#include <assert.h>
#include <memory>
#include <optional>
#include <vector>
#include <amtl/am-fixedarray.h>
#include <mc/policy.h>
#include <mc/track.h>
#include <mc/sizes.h>

namespace {
using mc::Tok;
constexpr int kN = 3;

struct ETok : Tok {
    using Tok::Tok;
    bool operator==(const ETok& o) const { return get() == o.get(); }
    bool operator!=(const ETok& o) const { return get() != o.get(); }
};
using A = ke::FixedArray<ETok, mc::ArenaPolicy>;

struct Run {
    mc::Arena ar[kN + 1];
    mc::Slot<A> a[kN];
    std::vector<int> m[kN];
    bool failed[kN];      // the last allocation for this array was refused
    int src[kN];          // arena its policy should name
    int next = 1;
    int n = kN;           // arrays in play

    Run() { static const char* n[] = {"0", "1", "2", "default"}; for (int i = 0; i <= kN; i++) ar[i].name = n[i]; mc::g_default_arena = &ar[kN]; }

    int64_t blocks() { int64_t n = 0; for (auto& x : ar) n += x.blocks; return n; }
    int64_t refused() { int64_t n = 0; for (auto& x : ar) n += x.refused; return n; }

    void check() {
        size_t live = 0;
        uint64_t h = 0;
        for (int i = 0; i < n; i++) {
            if (!a[i]) continue;
            const A& c = *a[i];
            if (failed[i]) {
                MC_CHECK(!a[i]->initialize(), "array %d: the refused allocation is not reported", i);
                h = mc::mix(h, 99);
                continue;   // its contents are not specified
            }
            MC_CHECK(a[i]->initialize(), "array %d reports failure without one", i);
            MC_CHECK(c.size() == m[i].size(), "array %d has %zu elements, expected %zu", i, c.size(), m[i].size());
            MC_CHECK(c.empty() == m[i].empty(), "array %d", i);
            live += m[i].size();
            size_t k = 0;
            for (const ETok& e : c) { MC_CHECK(k < m[i].size() && e.get() == m[i][k], "array %d element %zu", i, k); k++; }
            MC_CHECK(k == m[i].size(), "array %d iterates %zu elements", i, k);
            for (ETok& e : *a[i]) { (void)e; k--; }
            MC_CHECK(k == 0, "array %d iteration", i);
            for (k = 0; k < m[i].size(); k++) {
                MC_CHECK(c[k].get() == m[i][k] && c.at(k).get() == m[i][k] && (*a[i])[k].get() == m[i][k] && a[i]->at(k).get() == m[i][k] && c.buffer()[k].get() == m[i][k], "array %d accessors", i);
            }
            if (k) MC_CHECK(c.back().get() == m[i][k - 1] && a[i]->back().get() == m[i][k - 1], "array %d back", i);
            for (int j = 0; j < n; j++)
                if (a[j] && !failed[j]) {
                    MC_CHECK((c == *a[j]) == (m[i] == m[j]), "arrays %d == %d", i, j);
                    MC_CHECK((c != *a[j]) == (m[i] != m[j]), "arrays %d != %d", i, j);
                }
            for (int v : m[i]) h = mc::mix(h, v);
            h = mc::mix(h, m[i].size() + 5);
        }
        bool any = false;
        for (int i = 0; i < n; i++) any |= a[i] && failed[i];
        if (!any) mc::life_expect_live(live, "elements");
        mc::state(h);
        mc::observe(h);
    }

    // Refusing a zero-length request is not a failure the caller could notice.
    bool fail_state(int i, bool ok, size_t len) { return !ok && (len > 0 || !a[i]->initialize()); }
    // Runs op and notes whether an allocation was refused.
    template <class F> bool tried(F f) { int64_t r = refused(); f(); return refused() == r; }

    void recreate(int i, int len) {
        mc::op("a%d recreated with length %d", i, len);
        a[i].reset();
        { bool ok = tried([&] { a[i].emplace(size_t(len), mc::ArenaPolicy(&ar[i])); }); failed[i] = fail_state(i, ok, len); }
        m[i].assign(len, 0);
        src[i] = i;
        if (!failed[i] && len) { int64_t b = ar[i].blocks; MC_CHECK(b >= 1, "the array was not allocated through the policy it was given"); }
    }

    void step() {
        int i, j;
        switch (mc::choose(8)) {
            case 0: i = mc::choose(n); recreate(i, mc::choose(4)); break;
            case 1: {   // copy assignment
                i = mc::choose(n); j = mc::choose(n); if (failed[j]) mc::prune();
                mc::op("a%d = a%d", i, j);
                bool ok = tried([&] { A& r = (*a[i] = *a[j]); MC_CHECK(&r == &*a[i], "result of assignment"); });
                if (i != j) failed[i] = fail_state(i, ok, m[j].size());
                m[i] = m[j];
                break;
            }
            case 2: {   // move assignment
                i = mc::choose(n); j = mc::choose(n);
                mc::op("a%d = move(a%d)", i, j);
                uint64_t copies = mc::g_life.copies;
                const ETok* data = a[j]->begin();
                MC_CHECK(tried([&] { *a[i] = std::move(*a[j]); }), "moving allocated");
                MC_CHECK(mc::g_life.copies == copies, "moving an array copied elements");
                if (i != j) { MC_CHECK(failed[j] || m[j].empty() || a[i]->begin() == data, "moving an array relocated elements"); m[i] = m[j]; m[j].clear(); failed[i] = failed[j]; failed[j] = false; src[i] = src[j]; }
                break;
            }
            case 3: {   // copy / move construction
                i = mc::choose(n); j = (i + 1 + mc::choose(n - 1)) % n; int how = mc::choose(2); if (failed[j] && !how) mc::prune();
                mc::op("a%d recreated by %s a%d", i, how ? "moving" : "copying", j);
                a[i].reset();
                if (how) { a[i].emplace(std::move(*a[j])); m[i] = m[j]; m[j].clear(); failed[i] = failed[j]; failed[j] = false; }
                else { bool ok = tried([&] { a[i].emplace(*a[j]); }); failed[i] = fail_state(i, ok, m[j].size()); m[i] = m[j]; }
                src[i] = src[j];
                break;
            }
            case 4: {   // from vectors
                i = mc::choose(n); int len = mc::choose(3), how = mc::choose(2);
                std::vector<ETok> v;
                v.reserve(4);
                m[i].clear();
                for (int k = 0; k < len; k++) { v.emplace_back(next); m[i].push_back(next++); }
                mc::op("a%d recreated from a %s of %d", i, how ? "moved vector" : "vector", len);
                a[i].reset();
                uint64_t copies = mc::g_life.copies;
                bool ok;
                if (how) ok = tried([&] { a[i].emplace(std::move(v)); });
                else ok = tried([&] { a[i].emplace(static_cast<const std::vector<ETok>&>(v)); });
                failed[i] = fail_state(i, ok, len);
                if (how) MC_CHECK(mc::g_life.copies == copies, "constructing from a moved vector copied elements");
                if (!how) for (int k = 0; k < len; k++) MC_CHECK(v[k].get() == m[i][k], "the source vector was modified");
                src[i] = kN;
                break;
            }
            case 5: {   // write
                i = mc::choose(n); if (failed[i] || m[i].empty()) mc::prune();
                size_t k = mc::choose(int(m[i].size())); int how = mc::choose(2);
                mc::op("a%d[%zu] = %d", i, k, next);
                if (how) (*a[i])[k].set(next); else a[i]->begin()[k] = ETok(next);
                m[i][k] = next++;
                break;
            }
            case 6: { i = mc::choose(n); mc::op("a%d recreated empty", i); a[i].reset(); a[i].emplace(); m[i].clear(); failed[i] = false; src[i] = kN; break; }
            case 7: {
                i = mc::choose(n); j = (i + 1) % n; if (failed[i] || failed[j]) mc::prune();
                mc::op("swap(a%d, a%d)", i, j);
                uint64_t copies = mc::g_life.copies;
                std::swap(*a[i], *a[j]); std::swap(m[i], m[j]);
                MC_CHECK(mc::g_life.copies == copies, "swapping arrays copied elements");
                break;
            }
        }
    }

    void body(int depth, bool inject, int arrays, int times = 1) {
        n = arrays;
        mc::life_reset();
        for (auto& x : ar) x.inject = false;
        for (int i = 0; i < n; i++) { a[i].emplace(); failed[i] = false; src[i] = kN; }
        int start = mc::choose(3);
        if (start >= 1) { recreate(0, 2); (*a[0])[0].set(next); m[0][0] = next++; }
        if (start >= 2) { recreate(1, 3); (*a[1])[2].set(next); m[1][2] = next++; if (n > 2) recreate(2, 2); }
        check();
        for (auto& x : ar) x.inject = inject;
        mc::pump(depth, times, [&] { step(); check(); });
        bool rev = mc::flip();
        for (int k = 0; k < n; k++) { int i = rev ? n - 1 - k : k; a[i].reset(); m[i].clear(); failed[i] = false; check(); }
        mc::life_expect_live(0, "after destroying the arrays");
        MC_CHECK(blocks() == 0, "%lld blocks were not returned to the allocator", (long long)blocks());
    }
};

// Lengths whose byte size is not representable.
void oversize() {
    mc::life_reset();
    mc::Arena ar; ar.name = "x"; mc::g_default_arena = &ar;
    static const size_t lens[] = {SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX / 4 + 1, SIZE_MAX / sizeof(ETok), SIZE_MAX / sizeof(ETok) + 1, SIZE_MAX / sizeof(ETok) + 2, SIZE_MAX / sizeof(ETok) - 1};
    size_t n = lens[mc::choose(8)];
    mc::op("array of %zu elements", n);
    mc::state(n);
    {
        mc::Slot<A> slot;
        slot.emplace(n, mc::ArenaPolicy(&ar));
        A& a = *slot;
        MC_CHECK(!a.initialize(), "an impossible length is not reported");
        MC_CHECK(ar.overflows == (n > SIZE_MAX / sizeof(ETok)), "%s", ar.overflows ? "a representable size was reported as overflow" : "size overflow not reported to the policy");
        bool reuse = mc::flip();
        if (reuse) { A b(2, mc::ArenaPolicy(&ar)); a = b; MC_CHECK(a.initialize() && a.size() == 2 && a == b, "assignment after failure"); }
    }
    mc::life_expect_live(0, "after destroying the arrays");
    MC_CHECK(ar.blocks == 0, "blocks left");
}

// Move-only and over-aligned-free elements with the default policy.
void moveonly() {
    mc::life_reset();
    using B = ke::FixedArray<mc::MTok>;
    int len = mc::choose(4), how = mc::choose(4);
    mc::op("move-only length %d way %d", len, how);
    mc::state(len * 4 + how);
    std::vector<mc::MTok> v;
    for (int k = 0; k < len; k++) v.emplace_back(k + 1);
    B b(std::move(v));
    B c(2);
    MC_CHECK(c.initialize() && c.size() == 2 && c[0].get() == 0 && c[1].get() == 0, "default-constructed elements");
    if (how == 0) { B d(std::move(b)); MC_CHECK(b.size() == 0 && b.empty(), "source"); b = std::move(d); MC_CHECK(d.empty(), "source"); }
    if (how == 1) { c = std::move(b); std::swap(b, c); }
    if (how == 2) { std::swap(b, c); std::swap(b, c); }
    if (how == 3) { B d; d = std::move(b); b = std::move(d); }
    MC_CHECK(int(b.size()) == len, "length");
    for (int k = 0; k < len; k++) MC_CHECK(b[k].get() == k + 1, "element %d", k);
}
// Large arrays.
void scale() {
    mc::for_sizes(300, 1 << 17, [](size_t n) {
        using L = ke::FixedArray<uint32_t>;
        L a(n), z(n);
        std::vector<uint32_t> m(n);
        for (size_t k = 0; k < n; k++) a[k] = m[k] = uint32_t(k * 2654435761u + 1);
        for (size_t k = 0; k < n; k++) if (z[k]) mc::fail("element %zu of %zu is not value-initialized", k, n);
        auto same = [&](const L& x, const char* how) {
            if (!x.size() != !n || x.size() != n || (n && memcmp(x.begin(), m.data(), n * 4)) || size_t(x.end() - x.begin()) != n || (n && x.back() != m[n - 1])) mc::fail("%s of %zu elements differs", how, n);
            if (!(x == a) || x != a) mc::fail("%s of %zu elements does not compare equal", how, n);
        };
        L b(a), c(m), d;
        same(b, "a copy"); same(c, "a vector's copy");
        d = a; same(d, "an assigned copy");
        z = a; same(z, "a copy over the same length");
        L small(1); small = a; same(small, "a copy over a short array");
        L e(std::move(b)); same(e, "a moved array");
        d = L(3); d = std::move(e); same(d, "a move-assigned array");
        L f(std::vector<uint32_t>(m.begin(), m.end())); same(f, "a moved vector's array");
        for (size_t k : {size_t(0), n / 2, n - 1}) if (n) { f[k]++; if (f == a || !(f != a)) mc::fail("arrays of %zu that differ at %zu are equal", n, k); f[k]--; }
        if (n) { L g(n - 1); std::copy(a.begin(), a.end() - 1, g.begin()); if (g == a || a == g) mc::fail("arrays of %zu and %zu are equal", n, n - 1); }
        mc::evaluations(12);
    });
    mc::for_sizes(40, 1 << 10, [](size_t n) {        // the lifetimes of every element
        mc::life_reset();
        { ke::FixedArray<ETok> a(n), b(a), c(n / 2), d(2 * n + 1); c = a; d = a; a = c; mc::life_expect_live(4 * n, "elements"); }
        mc::life_expect_live(0, "after destroying the arrays");
        mc::evaluations(4);
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    mc::add("oversize", oversize, 0, 0);
    mc::add("moveonly", moveonly, 0, 0);
    bool t = mc::thorough();
    mc::add("histories2", [t] { Run().body(t ? 4 : 3, false, 2); }, 0, 3);
    mc::add("histories3", [t] { Run().body(t ? 4 : 2, false, 3); }, 0, 3);
    mc::add("failures2", [t] { Run().body(3, true, 2); }, t ? 3 : 1, 3);
    mc::add("failures3", [t] { Run().body(t ? 3 : 2, true, 3); }, 2, 3);
    mc::add("loops1", [t] { Run().body(1, false, 2, t ? 70000 : 3000); }, 0, 3);
    mc::add("loops2", [t] { Run().body(2, false, 2, t ? 1000 : 300); }, 0, 3);
    mc::add("scale", scale, 0, -1);
}

// C03: vector and deque helpers edit sequences exactly as specified.
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include <amtl/am-deque.h>
#include <amtl/am-vector.h>
#include <mc/track.h>
#include <mc/sizes.h>

namespace {
using mc::MTok;
using mc::Tok;
inline int val(int v) { return v; }
template <bool C, int T, size_t A> int val(const mc::Tracked<C, T, A>& t) { return t.get(); }
template <int T> int val(const mc::MoveOnlyT<T>& t) { return t.get(); }
inline int val(const std::string& s) { return atoi(s.c_str() + 30); }
inline int val(const std::unique_ptr<int>& p) { if (!p) mc::fail("a moved-from element is left in the sequence"); return *p; }
template <class T> struct Make { static T of(int v) { return T(v); } };
template <> struct Make<std::string> { static std::string of(int v) { return std::string(30, 'x') + std::to_string(v); } };
template <> struct Make<std::unique_ptr<int>> { static std::unique_ptr<int> of(int v) { return std::make_unique<int>(v); } };

// A stateful allocator: memory must go back where it came from, and moves between different ones are element-wise.
int64_t g_alloc[3];
template <class T, bool kProp>
struct Alloc {
    using value_type = T;
    using propagate_on_container_move_assignment = std::integral_constant<bool, kProp>;
    using is_always_equal = std::false_type;
    template <class U> struct rebind { using other = Alloc<U, kProp>; };
    int id;
    explicit Alloc(int i = 0) : id(i) {}
    template <class U> Alloc(const Alloc<U, kProp>& o) : id(o.id) {}
    T* allocate(size_t n) { g_alloc[id]++; return (T*)malloc(n * sizeof(T) ? n * sizeof(T) : 1); }
    void deallocate(T* p, size_t) { g_alloc[id]--; free(p); }
    bool operator==(const Alloc& o) const { return id == o.id; }
    bool operator!=(const Alloc& o) const { return id != o.id; }
};

template <class T, class A, bool kTracked, bool kCopyable>
struct Run {
    using V = std::vector<T, A>;
    std::vector<int> m, m2;
    int next = 1;

    template <class C> void same(const C& v, const std::vector<int>& want, const char* what) {
        MC_CHECK(v.size() == want.size(), "%s: %zu elements, expected %zu", what, v.size(), want.size());
        for (size_t k = 0; k < want.size(); k++) MC_CHECK(val(v[k]) == want[k], "%s: element %zu is %d, expected %d", what, k, val(v[k]), want[k]);
    }
    template <class F> void copies(uint64_t n, const char* what, F&& f) {
        uint64_t c = mc::g_life.copies;
        f();
        if (kTracked) MC_CHECK(mc::g_life.copies - c == n, "%s made %llu copies", what, (unsigned long long)(mc::g_life.copies - c));
    }
    void fill(V& v, std::vector<int>& model, int n, bool spare) {
        v.reserve(spare ? n + 4 : n);
        for (int k = 0; k < n; k++) { model.push_back(next); v.push_back(Make<T>::of(next++)); }
    }
    void step(V& v, V& w) {
        switch (mc::choose(8)) {
            case 0: {
                if (m.empty()) mc::prune();
                size_t at = mc::choose(int(m.size()));
                mc::op("RemoveAt %zu of %zu", at, m.size());
                copies(0, "RemoveAt", [&] { ke::RemoveAt(&v, at); });
                m.erase(m.begin() + at);
                break;
            }
            case 1: {
                size_t at = mc::choose(int(m.size()) + 1);
                mc::op("InsertAt %zu of %zu (temporary)", at, m.size());
                copies(0, "InsertAt of a temporary", [&] { ke::InsertAt(&v, at, Make<T>::of(next)); });
                m.insert(m.begin() + at, next++);
                break;
            }
            case 2: {
                if constexpr (kCopyable) {
                    size_t at = mc::choose(int(m.size()) + 1);
                    int from = mc::choose(int(m.size()) + 1) - 1;      // -1: an independent item
                    mc::op("InsertAt %zu of %zu (copy of %d)", at, m.size(), from);
                    if (from < 0) {
                        const T x = Make<T>::of(next);
                        copies(1, "InsertAt of an lvalue", [&] { ke::InsertAt(&v, at, x); });
                        MC_CHECK(val(x) == next, "the item was changed");
                        m.insert(m.begin() + at, next++);
                    } else {
                        int x = m[from];
                        const T& item = v[from];
                        copies(1, "InsertAt of an element", [&] { ke::InsertAt(&v, at, item); });
                        m.insert(m.begin() + at, x);
                    }
                } else mc::prune();
                break;
            }
            case 3: {
                if constexpr (std::is_same_v<A, std::allocator<T>>) {
                    size_t at = mc::choose(int(m.size()) + 1);
                    int from = kCopyable ? mc::choose(int(m.size()) + 1) - 1 : -1;
                    mc::op("EmplaceAt %zu of %zu (%d)", at, m.size(), from);
                    if (from < 0) {
                        if constexpr (std::is_constructible_v<T, int>) copies(0, "EmplaceAt", [&] { ke::EmplaceAt(&v, at, next); });
                        else copies(0, "EmplaceAt", [&] { ke::EmplaceAt(&v, at, Make<T>::of(next)); });
                        m.insert(m.begin() + at, next++);
                    } else if constexpr (kCopyable) {
                        int x = m[from];
                        ke::EmplaceAt(&v, at, v[from]);
                        m.insert(m.begin() + at, x);
                    }
                } else mc::prune();
                break;
            }
            case 4: {
                if (m.empty()) mc::prune();
                mc::op("PopBack");
                int got = 0;
                copies(0, "PopBack", [&] { T t = ke::PopBack(&v); got = val(t); });
                MC_CHECK(got == m.back(), "PopBack gave %d, expected %d", got, m.back());
                m.pop_back();
                break;
            }
            case 5: {
                int mask = 0;
                for (size_t k = 0; k < m.size(); k++) mask |= mc::choose(2) << k;
                mc::op("EraseIf mask %x of %zu", mask, m.size());
                std::vector<int> gone, rest;
                for (size_t k = 0; k < m.size(); k++) (mask >> k & 1 ? gone : rest).push_back(m[k]);
                // by value, so duplicates of an element go together
                std::vector<int> r2;
                for (int x : rest) { bool g = false; for (int y : gone) g |= x == y; if (!g) r2.push_back(x); }
                copies(0, "EraseIf", [&] { ke::EraseIf(&v, [&](const T& t) { int x = val(t); for (int y : gone) if (x == y) return true; return false; }); });
                m = r2;
                break;
            }
            case 6: {
                mc::op("MoveExtend %zu by %zu", m.size(), m2.size());
                copies(0, "MoveExtend", [&] { ke::MoveExtend(&v, &w); });
                m.insert(m.end(), m2.begin(), m2.end());
                m2.clear();
                MC_CHECK(w.empty(), "the source of MoveExtend keeps %zu elements", w.size());
                break;
            }
            case 7: {   // and the other way, leaving room for more
                mc::op("MoveExtend the other way");
                copies(0, "MoveExtend", [&] { ke::MoveExtend(&w, &v); });
                m2.insert(m2.end(), m.begin(), m.end());
                m.clear();
                MC_CHECK(v.empty(), "the source of MoveExtend keeps %zu elements", v.size());
                break;
            }
        }
    }
    static A alloc(int id) { if constexpr (std::is_same_v<A, std::allocator<T>>) return A(); else return A(id); }
    void body(int depth, int maxlen, int times = 1) {
        mc::life_reset();
        g_alloc[0] = g_alloc[1] = g_alloc[2] = 0;
        {
            V v(alloc(1)), w(alloc(1 + mc::choose(std::is_same_v<A, std::allocator<T>> ? 1 : 2)));
            fill(v, m, mc::choose(maxlen + 1), mc::flip());
            fill(w, m2, mc::choose(3), false);
            mc::pump(depth, times, [&] {
                step(v, w);
                same(v, m, "sequence");
                same(w, m2, "second sequence");
                if (kTracked) mc::life_expect_live(int64_t(m.size() + m2.size()), "sequences");
                uint64_t h = m2.size();
                for (int x : m) h = mc::mix(h, x);
                mc::state(h);
            });
            uint64_t h = 0;
            for (int x : m) h = mc::mix(h, x);
            mc::observe(mc::mix(h, m2.size()));
        }
        if (kTracked) mc::life_expect_live(0, "end");
        MC_CHECK(!g_alloc[0] && !g_alloc[1] && !g_alloc[2], "memory does not go back to its allocator");
    }
};

template <class T, bool kTracked>
struct Deq {
    void body(int depth) {
        mc::life_reset();
        {
            std::deque<T> d;
            std::vector<int> m;
            int next = 1;
            // Start anywhere relative to the deque's internal blocks.
            int base = mc::choose(4), len = mc::choose(4);
            static const int bases[] = {0, 31, 62, 130};
            for (int k = 0; k < bases[base]; k++) d.push_back(Make<T>::of(0));
            for (int k = 0; k < len; k++) { d.push_back(Make<T>::of(next)); m.push_back(next++); }
            while (d.size() > m.size()) { T t = ke::PopFront(&d); MC_CHECK(val(t) == 0, "PopFront gave %d", val(t)); }
            for (int s = 0; s < depth; s++) {
                switch (mc::choose(4)) {
                    case 0: mc::op("push back"); d.push_back(Make<T>::of(next)); m.push_back(next++); break;
                    case 1: mc::op("push front"); d.push_front(Make<T>::of(next)); m.insert(m.begin(), next++); break;
                    case 2: case 3: {
                        if (m.empty()) mc::prune();
                        bool front = mc::choose(2);
                        mc::op(front ? "PopFront" : "PopBack");
                        uint64_t c = mc::g_life.copies;
                        T t = front ? ke::PopFront(&d) : ke::PopBack(&d);
                        MC_CHECK(mc::g_life.copies == c, "popping copies");
                        int want = front ? m.front() : m.back();
                        MC_CHECK(val(t) == want, "popped %d, expected %d", val(t), want);
                        m.erase(front ? m.begin() : m.end() - 1);
                        break;
                    }
                }
                MC_CHECK(d.size() == m.size(), "size");
                for (size_t k = 0; k < m.size(); k++) MC_CHECK(val(d[k]) == m[k], "element %zu is %d, expected %d", k, val(d[k]), m[k]);
                if (kTracked) mc::life_expect_live(int64_t(m.size()), "deque");
                uint64_t h = 0;
                for (int x : m) h = mc::mix(h, x);
                mc::state(h);
                mc::observe(h);
            }
        }
        if (kTracked) mc::life_expect_live(0, "end");
    }
};
// Vectors and deques of n elements.
template <class T>
void scale() {
    mc::for_sizes(280, 1 << 17, [](size_t n) {
        using V = std::vector<T>;
        auto make = [](size_t from, size_t to) { V v; for (size_t k = from; k < to; k++) v.push_back(Make<T>::of(int(k))); return v; };
        auto same = [&](const V& v, const std::vector<int>& want, const char* what) {
            if (v.size() != want.size()) mc::fail("%s: %zu elements, expected %zu (of %zu)", what, v.size(), want.size(), n);
            for (size_t k = 0; k < want.size(); k++) if (!(v[k] == Make<T>::of(want[k]))) mc::fail("%s: element %zu (of %zu)", what, k, n);
        };
        auto count = [](size_t from, size_t to) { std::vector<int> m; for (size_t k = from; k < to; k++) m.push_back(int(k)); return m; };
        for (size_t had : {size_t(0), size_t(1), n}) {
            V d = make(0, had), s = make(had, had + n);
            ke::MoveExtend(&d, &s);
            same(d, count(0, had + n), "MoveExtend");
            if (!s.empty()) mc::fail("MoveExtend left %zu elements of %zu", s.size(), n);
        }
        V v = make(0, n);
        std::vector<int> m = count(0, n);
        for (size_t at : {n, n / 2, n - (n > 0), size_t(0)}) {
            const T x = Make<T>::of(-1);
            ke::InsertAt(&v, at, x); m.insert(m.begin() + at, -1);
            ke::InsertAt(&v, at, Make<T>::of(-2)); m.insert(m.begin() + at, -2);
            ke::EmplaceAt(&v, at, Make<T>::of(-3)); m.insert(m.begin() + at, -3);
        }
        same(v, m, "insertions");
        for (size_t at : {n, n / 2, n - (n > 0), size_t(0)}) { ke::RemoveAt(&v, at); m.erase(m.begin() + at); }
        same(v, m, "RemoveAt");
        for (int k = 0; k < 3; k++) { T t = ke::PopBack(&v); if (!(t == Make<T>::of(m.back()))) mc::fail("PopBack of %zu", m.size()); m.pop_back(); }
        same(v, m, "PopBack");
        std::vector<int> kept;
        for (int x : m) if (x % 3) kept.push_back(x);
        ke::EraseIf(&v, [](const T& t) { return val(t) % 3 == 0; });
        same(v, kept, "EraseIf");
        std::deque<T> dq;
        for (size_t k = 0; k < n; k++) dq.push_back(Make<T>::of(int(k)));
        for (size_t k = 0; k < n; k++) {
            T t = k % 2 ? ke::PopBack(&dq) : ke::PopFront(&dq);
            if (size_t(val(t)) != (k % 2 ? n - 1 - k / 2 : k / 2) || dq.size() != n - 1 - k) mc::fail("pop %zu of %zu", k, n);
        }
        mc::evaluations(20);
        mc::state(n);
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    int d = t ? 4 : 2;
    mc::add("vector-tracked", [d] { Run<Tok, std::allocator<Tok>, true, true>().body(d, 5); }, 0, 4);
    mc::add("vector-moveonly", [d] { Run<MTok, std::allocator<MTok>, true, false>().body(d + 1, 4); }, 0, 4);
    mc::add("vector-int", [d] { Run<int, std::allocator<int>, false, true>().body(d, 6); }, 0, 4);
    mc::add("vector-string", [d] { Run<std::string, std::allocator<std::string>, false, true>().body(d, 3); }, 0, 4);
    mc::add("vector-owners", [d] { Run<std::unique_ptr<int>, std::allocator<std::unique_ptr<int>>, false, false>().body(d, 4); }, 0, 4);
    mc::add("vector-allocator", [d] { Run<Tok, Alloc<Tok, false>, true, true>().body(d, 4); }, 0, 4);
    mc::add("vector-allocator-propagating", [d] { Run<Tok, Alloc<Tok, true>, true, true>().body(d, 4); }, 0, 4);
    mc::add("deque-tracked", [t] { Deq<Tok, true>().body(t ? 8 : 5); }, 0, 4);
    mc::add("deque-moveonly", [t] { Deq<MTok, true>().body(t ? 8 : 5); }, 0, 4);
    mc::add("deque-owners", [t] { Deq<std::unique_ptr<int>, false>().body(t ? 7 : 4); }, 0, 4);
    mc::add("loops1", [t] { Run<Tok, std::allocator<Tok>, true, true>().body(1, 5, t ? 3000 : 300); }, 0, 3);
    mc::add("loops2", [t] { Run<int, std::allocator<int>, false, true>().body(2, 3, t ? 600 : 70); }, 0, 4);
    mc::add("scale-int", scale<int>, 0, -1);
    mc::add("scale-string", scale<std::string>, 0, -1);
}

// C02: priority queues always pop a highest-priority element and conserve contents.
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include <amtl/am-priority-queue.h>
#include <mc/track.h>
#include <mc/sizes.h>

namespace {
using mc::MTok;
using mc::Tok;
inline int val(int v) { return v; }
template <bool C, int T, size_t A> int val(const mc::Tracked<C, T, A>& t) { return t.get(); }
template <int T> int val(const mc::MoveOnlyT<T>& t) { return t.get(); }
inline int val(const std::string& s) { return atoi(s.c_str() + 30); }
inline int val(const std::unique_ptr<int>& p) { if (!p) mc::fail("a moved-from element is examined"); return *p; }
template <class T> struct Make { static T of(int v) { return T(v); } };
template <> struct Make<std::string> { static std::string of(int v) { return std::string(30, 'x') + std::to_string(v); } };
template <> struct Make<std::unique_ptr<int>> { static std::unique_ptr<int> of(int v) { return std::make_unique<int>(v); } };

// Strict weak orders on the priority part (v / 100; the rest identifies the element).
int order = 0;
bool ranks(int order, int a, int b) {
    a /= 100; b /= 100;
    switch (order) {
        case 0: return a < b;
        case 1: return a > b;
        case 2: return false;                 // everything ties
        case 3: return a % 2 < b % 2;
        case 4: return a / 2 > b / 2;
        case 5: return (a == 1) > (b == 1);   // one favourite
    }
    return false;
}
constexpr int kOrders = 6;
struct Cmp {
    int ord;
    std::shared_ptr<int> state;      // must survive moving the queue
    explicit Cmp(int o = 0) : ord(o), state(std::make_shared<int>(o)) {}
    template <class T> bool operator()(const T& a, const T& b) const {
        if (!state || *state != ord) mc::fail("comparator state lost");
        return ranks(ord, val(a), val(b));
    }
};

template <class T, bool kTracked, bool kCopyable>
struct Run {
    using Q = ke::PriorityQueue<T, Cmp>;
    mc::Slot<Q> q;
    std::vector<int> m;
    int next = 1;

    void check() {
        MC_CHECK(q->empty() == m.empty(), "empty() with %zu elements", m.size());
        if (kTracked) mc::life_expect_live(int64_t(m.size()), "queue");
        if (m.empty()) return;
        int top = val(q->peek());
        bool in = false;
        for (int v : m) {
            in |= v == top;
            MC_CHECK(!ranks(order, v, top), "peek shows %d although %d outranks it", top, v);
        }
        MC_CHECK(in, "peek shows %d, which is not in the queue", top);
        MC_CHECK(&q->peek() == &q->peek(), "peek");
    }
    template <class F> void copies(uint64_t n, const char* what, F&& f) {
        uint64_t c = mc::g_life.copies;
        f();
        MC_CHECK(mc::g_life.copies - c == n, "%s made %llu copies", what, (unsigned long long)(mc::g_life.copies - c));
    }
    void add(int prio, int form) {
        int v = prio * 100 + next++;
        if (form == 0) copies(0, "adding a temporary", [&] { q->add(Make<T>::of(v)); });
        else if (form == 1) {
            if constexpr (std::is_constructible_v<T, int>) copies(0, "constructing in place", [&] { q->emplace(v); });
            else copies(0, "constructing in place", [&] { q->emplace(Make<T>::of(v)); });
        } else if constexpr (kCopyable) {
            T x = Make<T>::of(v);
            copies(kTracked ? 1 : 0, "adding an lvalue", [&] { q->add(x); });
            MC_CHECK(val(x) == v, "the caller's element was changed");
        }
        m.push_back(v);
    }
    int pop() {
        int top = val(q->peek());
        const void* peeked = &q->peek();
        (void)peeked;
        int got = 0;
        copies(0, "pop", [&] { T t = q->pop(); got = val(t); });
        MC_CHECK(got == top, "pop gave %d after peek showed %d", got, top);
        size_t at = m.size();
        for (size_t k = 0; k < m.size(); k++) {
            MC_CHECK(!ranks(order, m[k], got), "popped %d although %d outranks it", got, m[k]);
            if (m[k] == got) at = k;
        }
        MC_CHECK(at < m.size(), "popped %d, which is not in the queue", got);
        m.erase(m.begin() + at);
        return got;
    }
    void move() {
        uint64_t cp = mc::g_life.copies;
        Q t(std::move(*q));
        MC_CHECK(q->empty(), "moved-from queue is not empty");
        q.reset();
        q.emplace(std::move(t));
        if (kTracked) MC_CHECK(mc::g_life.copies == cp, "moving the queue copies its elements");
    }
    void drain() {
        uint64_t h = 0;
        while (!m.empty()) { h = mc::mix(h, pop() / 100); check(); }
        mc::observe(h);
    }
    void begin() {
        mc::life_reset();
        order = mc::choose(kOrders);
        q.emplace(Cmp(order));
        check();
    }
    void histories(int depth, int prios, int times = 1) {
        begin();
        // a prefix so that short histories also meet deep heaps
        int pre = mc::choose(3) * 5;
        for (int k = 0; k < pre; k++) add((k * 7 + 3) % prios, 0);
        check();
        int s = 0;
        mc::pump(depth, times, [&] {
            switch (mc::choose(5)) {
                case 0: { int p = mc::choose(prios); mc::op("add %d", p); add(p, 0); break; }
                case 1: { int p = mc::choose(prios); mc::op("emplace %d", p); add(p, 1); break; }
                case 2: if (!kCopyable) mc::prune(); else { int p = mc::choose(prios); mc::op("add copy of %d", p); add(p, 2); } break;
                case 3: if (m.empty()) mc::prune(); mc::op("pop"); pop(); break;
                case 4: if (s == 0) mc::prune(); mc::op("move"); move(); break;
            }
            s++;
            check();
            uint64_t h = order;
            for (int v : m) h = mc::mix(h, v / 100);
            mc::state(h);
        });
        if (mc::flip()) drain();
        q.reset();
        if (kTracked) mc::life_expect_live(0, "end");
    }
    // Every sequence of priorities of length n, then pops interleaved with re-insertions.
    void sequences(int n, int prios) {
        begin();
        int len = 1 + mc::choose(n);
        uint64_t h = order;
        for (int k = 0; k < len; k++) { int p = mc::choose(prios); h = mc::mix(h, p); add(p, k & 1); check(); }
        mc::op("order %d, %d elements", order, len);
        mc::state(h);
        int again = mc::choose(3);
        for (int k = 0; k < again; k++) { int v = pop(); check(); add(v / 100, 0); check(); pop(); check(); if (m.empty()) break; }
        drain();
        add(1, 0);      // usable after being emptied
        check();
        if (kTracked) { q.reset(); mc::life_expect_live(0, "end"); }
    }
};
// The default comparator, and adding an element of the queue to the queue.
void defaults() {
    ke::PriorityQueue<int> q;
    std::vector<int> m;
    int n = mc::choose(9);
    for (int k = 0; k < n; k++) { int v = k < 4 ? mc::choose(3) : (k * 5) % 7; q.add(v); m.push_back(v); }
    int again = n ? mc::choose(3) : 0;
    if (again) { if (again == 1) q.add(q.peek()); else q.emplace(q.peek()); m.push_back(*std::min_element(m.begin(), m.end())); }
    mc::op("%zu ints", m.size());
    std::sort(m.begin(), m.end());
    uint64_t h = 0;
    for (int v : m) { MC_CHECK(!q.empty() && q.peek() == v && q.pop() == v, "ascending order"); h = mc::mix(h, v); }
    MC_CHECK(q.empty(), "empty");
    mc::state(h);
}
// Queues of n elements in several orders of arrival.
template <class T>
void scale() {
    mc::for_sizes(200, 1 << 17, [](size_t n) {
        for (int order = 0; order < 6; order++) {
            auto prio = [&](size_t k) -> uint32_t {
                switch (order) {
                    case 0: return uint32_t(k);
                    case 1: return uint32_t(n - k);
                    case 2: return 7;
                    case 3: return uint32_t(k % 2 ? k : n * 2 - k);
                    case 4: return uint32_t((k * 2654435761u) >> 8);
                    default: return uint32_t(k % 5);
                }
            };
            struct Less { bool operator()(const std::pair<uint32_t, T>& a, const std::pair<uint32_t, T>& b) const { return a.first < b.first; } };
            ke::PriorityQueue<std::pair<uint32_t, T>, Less> q;
            std::vector<uint32_t> want;
            std::vector<bool> seen(n);
            for (size_t k = 0; k < n; k++) {
                want.push_back(prio(k));
                if (k % 2) q.add(std::make_pair(prio(k), T(k)));
                else q.emplace(prio(k), T(k));
            }
            std::sort(want.begin(), want.end());
            // the first quarter, then as many come back, then all
            size_t quarter = n / 4;
            std::vector<std::pair<uint32_t, T>> out;
            for (size_t k = 0; k < quarter; k++) {
                if (q.empty() || q.peek().first != want[k]) mc::fail("element %zu of %zu has the wrong priority", k, n);
                out.push_back(q.pop());
            }
            for (auto& o : out) q.add(std::move(o));
            ke::PriorityQueue<std::pair<uint32_t, T>, Less> p(std::move(q));
            for (size_t k = 0; k < n; k++) {
                if (p.empty() || p.peek().first != want[k]) mc::fail("element %zu of %zu (order %d)", k, n, order);
                auto o = p.pop();
                size_t id = size_t(o.second);
                if (o.first != want[k] || id >= n || seen[id] || prio(id) != o.first) mc::fail("element %zu of %zu (order %d) popped", k, n, order);
                seen[id] = true;
            }
            if (!p.empty()) mc::fail("more than %zu elements", n);
            mc::evaluations(n);
        }
        mc::state(n);
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    mc::add("default", defaults, 0, 3);
    mc::add("tracked", [t] { Run<Tok, true, true>().histories(t ? 6 : 4, 3); }, 0, 4);
    mc::add("moveonly", [t] { Run<MTok, true, false>().histories(t ? 6 : 5, 3); }, 0, 4);
    mc::add("strings", [t] { Run<std::string, false, true>().histories(t ? 5 : 4, 2); }, 0, 4);
    mc::add("owners", [t] { Run<std::unique_ptr<int>, false, false>().histories(t ? 5 : 4, 2); }, 0, 4);
    mc::add("sequences", [t] { Run<int, false, true>().sequences(t ? 10 : 8, 3); }, 0, 4);
    mc::add("sequences-tracked", [t] { Run<MTok, true, false>().sequences(t ? 8 : 6, 4); }, 0, 4);
    mc::add("sequences-long", [t] { Run<int, false, true>().sequences(t ? 16 : 13, 2); }, 0, 4);
    mc::add("loops1", [t] { Run<Tok, true, true>().histories(1, 3, t ? 3000 : 1000); }, 0, 3);
    mc::add("loops2", [t] { Run<Tok, true, true>().histories(2, 3, t ? 1000 : 300); }, 0, 4);
    mc::add("scale", scale<uint64_t>, 0, -1);
}

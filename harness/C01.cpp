// C01: inline lists are exact sequences in both directions and know their members.
#include <assert.h>
#include <memory>
#include <optional>
#include <vector>
#include <amtl/am-inlinelist.h>
#include <mc/core.h>
#include <mc/sizes.h>

namespace {
struct OtherBase { virtual ~OtherBase() {} long pad = 0x77; };
struct Item : OtherBase, ke::InlineListNode<Item> {   // the node is not at offset zero
    int id;
    explicit Item(int i) : id(i) {}
};
struct Plain : ke::InlineListNode<Plain> {
    int id;
    explicit Plain(int i) : id(i) {}
};

constexpr int kLists = 2;
template <class T>
struct World {
    using List = ke::InlineList<T>;
    int nodes;
    std::vector<std::unique_ptr<T>> item;
    std::unique_ptr<List> list[kLists];      // destroyed before the nodes
    std::vector<int> model[kLists];
    int self_removed[kLists] = {0, 0};

    int where(int n) {
        for (int l = 0; l < kLists; l++) for (int x : model[l]) if (x == n) return l;
        return -1;
    }
    void take(int l, int n) {
        for (size_t k = 0; k < model[l].size(); k++) if (model[l][k] == n) { model[l].erase(model[l].begin() + k); return; }
        mc::fail("model");
    }
    void check() {
        for (int l = 0; l < kLists; l++) {
            List& x = *list[l];
            auto& m = model[l];
            size_t k = 0;
            for (auto it = x.begin(); it != x.end(); ++it, k++) {
                MC_CHECK(k < m.size(), "list %d enumerates more than its %zu members", l, m.size());
                MC_CHECK(it->id == m[k] && (*it)->id == m[k] && *it == item[m[k]].get(), "list %d: member %zu is %d, expected %d", l, k, it->id, m[k]);
                MC_CHECK(!(it == x.end()), "end comparison");
            }
            MC_CHECK(k == m.size(), "list %d enumerates %zu of %zu members", l, k, m.size());
            k = m.size();
            for (auto it = x.rbegin(); it != x.rend(); k--) {
                MC_CHECK(k > 0, "list %d enumerates backwards more than its members", l);
                auto old = it++;
                MC_CHECK(old->id == m[k - 1] && *old == item[m[k - 1]].get(), "list %d backwards: %d, expected %d", l, old->id, m[k - 1]);
                MC_CHECK(old != it, "post-increment");
            }
            MC_CHECK(k == 0, "list %d backwards misses %zu members", l, k);
            MC_CHECK(x.empty() == m.empty(), "list %d: empty() with %zu members", l, m.size());
            size_t len = x.length();
            if (len != m.size()) {
                if (self_removed[l] && len == m.size() + size_t(self_removed[l]))
                    mc::known("C01-length-after-self-removal", "length() is %zu for %zu members after %d self-removals", len, m.size(), self_removed[l]);
                else
                    mc::fail("list %d: length %zu for %zu members (%d self-removals)", l, len, m.size(), self_removed[l]);
            }
            if (!m.empty()) {
                auto it = x.begin();
                auto old = it++;
                MC_CHECK(old == x.begin() && (*old)->id == m[0] && (it == x.end()) == (m.size() == 1), "post-increment forwards");
                auto r = x.rbegin();
                ++r;
                MC_CHECK((r == x.rend()) == (m.size() == 1), "reverse end");
            }
        }
        for (int n = 0; n < nodes; n++)
            MC_CHECK(item[n]->isInList() == (where(n) >= 0), "node %d: isInList() is %d", n, item[n]->isInList());
        uint64_t h = 0;
        for (auto& m : model) { for (int x : m) h = mc::mix(h, x + 1); h = mc::mix(h, 99); }
        mc::state(h);
    }
    void step() {
        switch (mc::choose(7)) {
            case 0: {
                int n = mc::choose(nodes), l = mc::choose(kLists), at = where(n);
                if (at >= 0) {     // move between lists (or to the end of its own)
                    mc::op("move %d from list %d to list %d", n, at, l);
                    list[at]->remove(item[n].get());
                    take(at, n);
                    MC_CHECK(!item[n]->isInList(), "node %d is in no list", n);
                } else mc::op("append %d to list %d", n, l);
                list[l]->append(item[n].get());
                model[l].push_back(n);
                break;
            }
            case 1: {
                int n = mc::choose(nodes), l = where(n);
                if (l < 0) mc::prune();
                mc::op("remove %d", n);
                list[l]->remove(item[n].get());
                take(l, n);
                break;
            }
            case 2: {
                int n = mc::choose(nodes), l = where(n);
                if (l < 0) mc::prune();
                mc::op("%d removes itself", n);
                item[n]->removeFromParentList();
                take(l, n);
                self_removed[l]++;
                break;
            }
            case 3: erase<false>(mc::choose(kLists)); break;
            case 4: erase<true>(mc::choose(kLists)); break;
            case 5: {
                int l = mc::choose(kLists);
                mc::op("destroy list %d and make a new one", l);
                list[l].reset();
                list[l] = std::make_unique<List>();
                // Members of the destroyed list are free to join another one; their own links may be stale in release
                // builds, so they are appended at once.
                auto orphans = model[l];
                model[l].clear();
                self_removed[l] = 0;
                int to = mc::choose(kLists);
                for (int n : orphans) { list[to]->append(item[n].get()); model[to].push_back(n); }
                break;
            }
            case 6: {
                int l = mc::choose(kLists);
                mc::op("move every node of list %d while iterating", l);
                auto it = list[l]->begin();
                while (it != list[l]->end()) {
                    T* t = *it;
                    it = list[l]->erase(it);
                    list[1 - l]->append(t);
                }
                for (int n : model[l]) model[1 - l].push_back(n);
                model[l].clear();
                break;
            }
        }
    }
    template <bool kReverse> static auto first(List& x) { if constexpr (kReverse) return x.rbegin(); else return x.begin(); }
    template <bool kReverse> static auto last(List& x) { if constexpr (kReverse) return x.rend(); else return x.end(); }
    // Erases every chosen subset while iterating in either direction.
    template <bool kReverse> void erase(int l) {
        List& x = *list[l];
        std::vector<int> order = model[l];
        if (kReverse) order = std::vector<int>(order.rbegin(), order.rend());
        if (order.empty()) mc::prune();
        size_t k = 0;
        for (auto it = first<kReverse>(x); it != last<kReverse>(x); k++) {
            MC_CHECK(k < order.size() && (*it)->id == order[k], "iteration is disturbed by an erasure");
            if (mc::flip()) {
                mc::op("erase %d (%s)", order[k], kReverse ? "backwards" : "forwards");
                take(l, order[k]);
                int n = order[k];
                auto next = x.erase(it);
                MC_CHECK((next == last<kReverse>(x)) == (k + 1 == order.size()), "erase returned a wrong position");
                if (k + 1 < order.size()) MC_CHECK((*next)->id == order[k + 1], "erase returned %d, expected %d", (*next)->id, order[k + 1]);
                MC_CHECK(!item[n]->isInList(), "erased node claims to be in a list");
                it = next;
            } else ++it;
        }
        MC_CHECK(k == order.size(), "iteration ended early");
    }
    void body(int n, int depth, int times = 1) {
        nodes = n;
        for (int k = 0; k < nodes; k++) { item.push_back(std::make_unique<T>(k)); MC_CHECK(!item[k]->isInList(), "new node"); }
        for (auto& l : list) l = std::make_unique<List>();
        check();
        int pre = mc::choose(3);      // empty, partly filled, all in one list
        for (int k = 0; k < (pre == 0 ? 0 : pre == 1 ? 2 : nodes); k++) { list[0]->append(item[k].get()); model[0].push_back(k); }
        mc::pump(depth, times, [&] { step(); check(); });
        mc::observe(s_hash());
        // Destroying the lists leaves the nodes alone.
        for (auto& l : list) l.reset();
        for (int k = 0; k < nodes; k++) MC_CHECK(item[k]->id == k, "node damaged by destroying its list");
    }
    uint64_t s_hash() { uint64_t h = 0; for (auto& m : model) { for (int x : m) h = mc::mix(h, x + 1); h = mc::mix(h, 99); } return h; }
};
// Const access and nodes on the stack, and a list object that is a member.
void misc() {
    struct Owner { ke::InlineList<Plain> l; } o;
    Plain a(1), b(2);
    const Plain& ca = a;
    const ke::InlineList<Plain>& cl = o.l;
    MC_CHECK(cl.empty() && cl.length() == 0 && !ca.isInList(), "empty");
    o.l.append(&a);
    o.l.append(&b);
    MC_CHECK(!cl.empty() && cl.length() == 2 && ca.isInList(), "two");
    a.removeFromParentList();
    MC_CHECK(!ca.isInList() && !cl.empty(), "one");
    o.l.append(&a);
    MC_CHECK((*o.l.begin())->id == 2 && (*o.l.rbegin())->id == 1, "order");
    o.l.remove(&a);
    o.l.remove(&b);
    MC_CHECK(cl.empty() && o.l.begin() == o.l.end() && o.l.rbegin() == o.l.rend(), "empty again");
    mc::op("misc");
    mc::state(1);
}
// Lists of n members.
template <class T>
void scale() {
    mc::for_sizes(120, 1 << 17, [](size_t n) {
        std::vector<std::unique_ptr<T>> items;
        for (size_t k = 0; k < n; k++) items.push_back(std::make_unique<T>(int(k)));
        ke::InlineList<T> list;
        for (auto& i : items) list.append(i.get());
        auto check = [&](size_t first, size_t step, size_t count) {
            size_t at = 0;
            for (T* t : list) if (at >= count || t != items[first + step * at++].get()) mc::fail("member %zu of %zu", at, count);
            if (at != count) mc::fail("%zu of %zu members enumerated", at, count);
            for (auto it = list.rbegin(); it != list.rend(); ++it) if (at == 0 || *it != items[first + step * --at].get()) mc::fail("member %zu of %zu backwards", at, count);
            if (at) mc::fail("%zu of %zu members missed backwards", at, count);
            if (list.length() != count) mc::fail("length() is %zu of %zu members", list.length(), count);
            if (list.empty() != !count) mc::fail("empty() with %zu members", count);
        };
        check(0, 1, n);
        for (auto& i : items) if (!i->isInList()) mc::fail("a member of %zu is in no list", n);
        // every other one leaves, alternately by the list and by erasing
        for (auto it = list.begin(); it != list.end();) {
            if ((*it)->id % 2 == 0) { ++it; continue; }
            if ((*it)->id % 4 == 1) { it = list.erase(it); continue; }
            T* t = *it;
            ++it;
            list.remove(t);
        }
        check(0, 2, (n + 1) / 2);
        for (size_t k = 0; k < n; k++) if (items[k]->isInList() != (k % 2 == 0)) mc::fail("member %zu of %zu", k, n);
        for (auto it = list.begin(); it != list.end();) it = list.erase(it);
        check(0, 1, 0);
        for (auto& i : items) list.append(i.get());
        check(0, 1, n);
        for (auto it = list.rbegin(); it != list.rend();) it = list.erase(it);
        check(0, 1, 0);
        mc::evaluations(5 * n + 1);
        mc::state(n);
    });
    mc::op("scale");
}
}  // namespace

void mc_register() {
    bool t = mc::thorough();
    mc::add("misc", misc, 0, 0);
    mc::add("plain", [t] { World<Plain>().body(3, t ? 5 : 3); }, 0, 4);
    mc::add("plain2", [t] { World<Plain>().body(2, t ? 6 : 4); }, 0, 4);
    mc::add("offset", [t] { World<Item>().body(3, t ? 5 : 3); }, 0, 4);
    mc::add("plain4", [t] { World<Plain>().body(4, t ? 5 : 3); }, 0, 4);
    mc::add("plain5", [t] { World<Plain>().body(6, t ? 4 : 2); }, 0, 4);
    mc::add("loops1", [] { World<Plain>().body(3, 1, 70000); }, 0, 3);
    mc::add("loops2", [t] { World<Plain>().body(3, 2, t ? 3000 : 300); }, 0, 4);
    mc::add("scale-plain", scale<Plain>, 0, -1);
    mc::add("scale-offset", scale<Item>, 0, -1);
}

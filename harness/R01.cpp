// R01: owning handles keep an object alive exactly as long as something owns it.
#include <assert.h>
#include <amtl/am-refcounting.h>
#include <mc/core.h>
#include <mc/sizes.h>

namespace {

constexpr int kMaxObj = 6;
struct World {
    bool alive[kMaxObj];
    int created;
    int live;
} W;

void born(int id) { W.alive[id] = true; W.live++; }
void dies(int id) {
    if (id < 0 || id >= kMaxObj || !W.alive[id]) mc::fail("object %d destroyed twice", id);
    W.alive[id] = false;
    W.live--;
}

// The three supported ways of being reference counted.
template <class Self> struct PlainBase : ke::Refcounted<Self> { virtual ~PlainBase() {} };
struct IThing : ke::IRefcounted {};

struct PObj : PlainBase<PObj> {
    int id;
    ke::RefPtr<PObj> child;
    explicit PObj(int i) : id(i) { born(i); }
    ~PObj() override { dies(id); id = -7; }
};
struct PDer : PObj { using PObj::PObj; int extra = 5; };

struct VObj : ke::VirtualRefcounted {
    int id;
    ke::RefPtr<VObj> child;
    explicit VObj(int i) : id(i) { born(i); }
    ~VObj() override { dies(id); id = -7; }
};
struct Other { virtual ~Other() {} long pad = 3; };
struct VDer : Other, VObj { using VObj::VObj; };   // the base is not at offset 0

// Forwarding through KE_IMPL_REFCOUNTING.
struct FObj : IThing, ke::Refcounted<FObj> {
    KE_IMPL_REFCOUNTING(FObj)
    int id;
    ke::RefPtr<FObj> child;
    explicit FObj(int i) : id(i) { born(i); }
    ~FObj() override { dies(id); id = -7; }
};
struct FDer : FObj { using FObj::FObj; };

// Reference model: who owns what.
struct Model {
    int h[3];          // object held by each handle, -1 null
    int d;             // derived handle
    int a;             // already-refed holder
    int child[kMaxObj];
    int xref[kMaxObj]; // explicit references
    bool alive[kMaxObj];
    void collect() {   // destroy everything without an owner
        for (bool again = true; again;) {
            again = false;
            for (int o = 0; o < kMaxObj; o++) {
                if (!alive[o]) continue;
                int n = xref[o];
                for (int x : h) n += x == o;
                n += d == o;
                n += a == o;
                for (int p = 0; p < kMaxObj; p++) n += alive[p] && child[p] == o;
                if (n == 0) { alive[o] = false; child[o] = -1; again = true; }
            }
        }
    }
};

template <class Obj, class Der>
struct Run {
    ke::RefPtr<Obj> h[2];
    ke::RefPtr<Der> d;
    ke::AlreadyRefed<Obj> a{nullptr};
    Obj* ptr[kMaxObj];
    Model m;

    Obj* make(bool der) {
        int id = W.created++;
        Obj* o = der ? static_cast<Obj*>(new Der(id)) : new Obj(id);
        ptr[id] = o;
        m.alive[id] = true;
        return o;
    }
    Obj* p(int id) { return id < 0 ? nullptr : ptr[id]; }

    void check() {
        m.collect();
        for (int o = 0; o < kMaxObj; o++) {
            if (m.alive[o] && !W.alive[o]) mc::fail("object %d was destroyed while still owned", o);
            if (!m.alive[o] && W.alive[o]) mc::fail("object %d is alive but nothing owns it", o);
        }
        uint64_t hsh = 0;
        for (int i = 0; i < 2; i++) {
            Obj* want = p(m.h[i]);
            const ke::RefPtr<Obj>& c = h[i];
            MC_CHECK(c.get() == want, "handle %d", i);
            MC_CHECK(*c == want && !c == !want && bool(c) == !!want && *c.byref_const() == want, "handle %d", i);
            MC_CHECK(*h[i].byref() == want && *reinterpret_cast<Obj**>(h[i].address()) == want, "handle %d", i);
            MC_CHECK((c == want) && !(c != want), "handle %d", i);
            MC_CHECK((h[i] == h[1 - i]) == (m.h[i] == m.h[1 - i]), "handle equality");
            if (want) { MC_CHECK(c->id == m.h[i], "handle %d", i); Obj& r = h[i]; MC_CHECK(&r == want, "reference conversion"); }
            hsh = mc::mix(hsh, m.h[i] + 2);
        }
        MC_CHECK(d.get() == static_cast<Obj*>(p(m.d)), "derived handle");
        MC_CHECK(a == p(m.a) && !(a != p(m.a)) && !a == !p(m.a), "already-refed holder");
        if (m.a >= 0) MC_CHECK(a->id == m.a, "already-refed holder");
        for (int o = -1; o < kMaxObj; o++) {       // comparisons with every pointer there is
            if (o >= 0 && !m.alive[o]) continue;
            Obj* q = p(o);
            for (int i = 0; i < 2; i++) MC_CHECK((h[i] == q) == (m.h[i] == o) && (h[i] != q) == (m.h[i] != o), "handle %d compared with object %d", i, o);
            MC_CHECK((a == q) == (m.a == o) && (a != q) == (m.a != o), "already-refed holder compared with object %d", o);
            MC_CHECK((d.get() == q) == (m.d == o), "derived handle compared with object %d", o);
        }
        for (int o = 0; o < kMaxObj; o++) {
            if (m.alive[o]) MC_CHECK(ptr[o]->child.get() == p(m.child[o]), "nested handle of object %d", o);
            hsh = mc::mix(hsh, m.alive[o] * 64 + m.xref[o] * 8 + m.child[o] + 1);
        }
        hsh = mc::mix(hsh, m.d * 8 + m.a);
        mc::state(hsh);
        mc::observe(hsh);
    }

    bool room() { return W.created < kMaxObj - 1; }

    // Setup states: 0 empty; 1 h0 -> 0 (child 1), h1 null; 2 h0 = h1 -> 0 (child 1 -> child 2 ); 3 d -> 0, h0 -> 0, a -> 1
    void setup(int k) {
        memset(&W, 0, sizeof W);
        for (int& x : m.h) x = -1;
        m.d = m.a = -1;
        for (int o = 0; o < kMaxObj; o++) { m.child[o] = -1; m.xref[o] = 0; m.alive[o] = false; ptr[o] = nullptr; }
        if (k >= 1) { h[0] = make(k == 3); m.h[0] = 0; }
        if (k == 1 || k == 2) { h[0]->child = make(false); m.child[0] = 1; }
        if (k == 2) { h[0]->child->child = make(false); m.child[1] = 2; h[1] = h[0]; m.h[1] = 0; }
        if (k == 3) {
            d = static_cast<Der*>(ptr[0]); m.d = 0;
            Obj* o = make(false); o->AddRef(); a.~AlreadyRefed<Obj>(); new (&a) ke::AlreadyRefed<Obj>(ke::AdoptRef(o)); m.a = 1;
        }
        mc::log("start state %d", k);
    }

    void seta(ke::AlreadyRefed<Obj>&& v) { a.~AlreadyRefed<Obj>(); new (&a) ke::AlreadyRefed<Obj>(std::move(v)); }

    void step() {
        int i = 0, j = 0;
        auto pick = [&] { i = mc::choose(2); };
        auto pick2 = [&] { i = mc::choose(2); j = mc::choose(2); };
        switch (mc::choose(29)) {
            case 0: pick(); if (!room()) mc::prune(); mc::op("h%d = new object", i); h[i] = make(false); m.h[i] = W.created - 1; break;
            case 1: pick2(); mc::op("h%d = h%d", i, j); { auto& r = (h[i] = h[j]); MC_CHECK(&r == &h[i], "result of assignment"); } m.h[i] = m.h[j]; break;
            case 2: pick2(); mc::op("h%d = move(h%d)", i, j); h[i] = std::move(h[j]);
                if (i != j) { m.h[i] = m.h[j]; m.h[j] = -1; }
                else if (!h[i]) m.h[i] = -1;   // a self-move may keep or release
                break;
            case 3: pick2(); mc::op("h%d = h%d.get()", i, j); h[i] = h[j].get(); m.h[i] = m.h[j]; break;
            case 4: pick(); mc::op("h%d = nullptr", i); h[i] = nullptr; m.h[i] = -1; break;
            case 5: pick2(); if (m.h[i] < 0) mc::prune(); mc::op("h%d->child = h%d", i, j); h[i]->child = h[j];
                {   // a cycle would (rightly) never die: skip those
                    int o = m.h[j], n = 0; while (o >= 0 && o != m.h[i] && n++ < 8) o = m.child[o];
                    if (o == m.h[i]) { h[i]->child = nullptr; m.child[m.h[i]] = -1; }
                    else m.child[m.h[i]] = m.h[j];
                }
                break;
            case 6: pick2(); if (m.h[j] < 0) mc::prune(); mc::op("h%d = h%d->child", i, j); h[i] = h[j]->child; m.h[i] = m.child[m.h[j]]; break;
            case 7: pick2(); if (m.h[j] < 0) mc::prune(); mc::op("h%d = move(h%d->child)", i, j);
                { int o = m.h[j]; h[i] = std::move(h[j]->child); m.h[i] = m.child[o]; m.child[o] = -1; } break;
            case 8: pick2(); if (m.h[j] < 0) mc::prune(); mc::op("h%d = h%d->child.get()", i, j); h[i] = h[j]->child.get(); m.h[i] = m.child[m.h[j]]; break;
            case 9: pick(); mc::op("a = h%d.take()", i); seta(h[i].take()); m.a = m.h[i]; m.h[i] = -1; break;
            case 10: pick(); mc::op("h%d = a", i); h[i] = a; m.h[i] = m.a; m.a = -1; break;
            case 11: pick(); mc::op("h%d.~(); new(h%d) handle(a)", i, i); { ke::RefPtr<Obj> t(a); h[i] = std::move(t); } m.h[i] = m.a; m.a = -1; break;
            case 12: { mc::op("copy of a, dropped"); ke::AlreadyRefed<Obj> b(a); MC_CHECK(b == p(m.a), "copy"); break; }
            case 13: pick(); { mc::op("h%d = copy of a", i); ke::AlreadyRefed<Obj> b(a); h[i] = b; MC_CHECK(!b, "assigned-from holder is null"); m.h[i] = m.a; break; }
            case 14: { mc::op("raw = a.take(); explicit reference"); Obj* r = a.take(); MC_CHECK(r == p(m.a), "take"); if (r) m.xref[m.a]++; m.a = -1; break; }
            case 15: { int o = mc::choose(3); if (!m.xref[o]) mc::prune(); mc::op("object %d Release()", o); m.xref[o]--; ptr[o]->Release(); break; }
            case 16: pick(); if (m.h[i] < 0 || m.xref[m.h[i]] > 1) mc::prune(); mc::op("h%d->AddRef()", i); h[i]->AddRef(); m.xref[m.h[i]]++; break;
            case 17: if (!room()) mc::prune(); mc::op("d = new derived"); d = static_cast<Der*>(make(true)); m.d = W.created - 1; break;
            case 18: pick(); mc::op("h%d = d", i); h[i] = d; m.h[i] = m.d; break;
            case 19: pick(); mc::op("h%d = move(d)", i); h[i] = std::move(d); m.h[i] = m.d; m.d = -1; break;
            case 20: pick(); { mc::op("h%d = d.get()", i); h[i] = d.get(); m.h[i] = m.d; break; }
            case 21: pick(); { mc::op("h%d = d.forget()", i); h[i] = d.forget(); m.h[i] = m.d; m.d = -1; break; }
            case 22: pick(); { mc::op("handle(d.take()) -> h%d", i); ke::RefPtr<Obj> t(d.take()); h[i] = t; m.h[i] = m.d; m.d = -1; break; }
            case 23: { mc::op("swap(h0, h1)"); std::swap(h[0], h[1]); std::swap(m.h[0], m.h[1]); break; }
            case 24: pick(); { mc::op("copy/move/raw constructions from h%d, dropped", i);
                ke::RefPtr<Obj> x(h[i]), y(h[i].get()), z(std::move(x)); MC_CHECK(!x.get() && z.get() == p(m.h[i]) && y == z, "constructed handles"); break; }
            case 25: pick(); if (!room()) mc::prune(); { mc::op("h%d = adopt(new with one reference)", i); Obj* o = make(false); o->AddRef(); h[i] = ke::AdoptRef(o); m.h[i] = W.created - 1; break; }
            case 26: pick(); { mc::op("h%d = h%d.forget()", i, i); int o = m.h[i]; h[i] = h[i].forget(); m.h[i] = o; break; }
            case 27: { mc::op("d constructions, dropped"); ke::RefPtr<Obj> x(d); ke::RefPtr<Der> e(d); ke::RefPtr<Obj> y(std::move(e)); MC_CHECK(!e && x == y, "converted handles"); break; }
            case 28: pick(); { mc::op("a moved out, a = adopted h%d", i); ke::AlreadyRefed<Obj> b(std::move(a)); MC_CHECK(!a && b == p(m.a), "moved holder");
                Obj* r = h[i].get(); if (r) r->AddRef(); seta(ke::AdoptRef(r)); m.a = m.h[i]; break; }
        }
    }

    void body(int depth, int times = 1) {
        setup(mc::choose(4));
        check();
        mc::pump(depth, times, [&] { step(); check(); });
        // Drop everything, in both orders.
        bool rev = mc::flip();
        for (int k = 0; k < 4; k++) {
            int w = rev ? 3 - k : k;
            if (w < 2) { h[w] = nullptr; m.h[w] = -1; }
            else if (w == 2) { d = nullptr; m.d = -1; }
            else { seta(ke::AlreadyRefed<Obj>(nullptr)); m.a = -1; }
            check();
        }
        for (int o = 0; o < kMaxObj; o++) while (m.xref[o]) { m.xref[o]--; ptr[o]->Release(); check(); }
        MC_CHECK(W.live == 0, "%d objects survive every owner", W.live);
    }
};

// n owners of one object: handles, holders and explicit references.
template <class T>
void scale() {
    mc::for_sizes(300, 1 << 17, [](size_t n) {
        if (!n) return;
        for (int how = 0; how < 4; how++) {
            memset(&W, 0, sizeof W);
            T* o = new T(0);
            std::vector<ke::RefPtr<T>> h;
            std::vector<ke::AlreadyRefed<T>> a;
            h.reserve(n);
            for (size_t k = 0; k < n; k++) {
                if (how == 0) h.push_back(ke::RefPtr<T>(o));
                else if (how == 1) o->AddRef();
                else if (how == 2) { o->AddRef(); a.push_back(ke::AdoptRef(o)); }
                else if (k) h.push_back(h[k - 1]);
                else h.push_back(o);
            }
            for (size_t k = 0; k < n; k++) {
                if (!W.alive[0]) mc::fail("destroyed with %zu of %zu owners left (way %d)", n - k, n, how);
                if (how == 0) h[k] = nullptr;
                else if (how == 1) o->Release();
                else if (how == 2) { ke::RefPtr<T> t(a[k]); }
                else h.pop_back();
            }
            if (W.alive[0] || W.live) mc::fail("alive after its %zu owners (way %d)", n, how);
        }
        mc::evaluations(4);
        mc::state(n);
    });
    mc::op("scale");
}

// Objects whose destructors look at, copy or reassign the handles that are being assigned, and objects that own themselves.
struct Seen { int what, id, held; bool operator !=(const Seen& o) const { return what != o.what || id != o.id || held != o.held; } };
template <class T> struct Watch;
template <class T> struct Watched { static Watch<T>* now; };
template <class T> Watch<T>* Watched<T>::now;
template <class T> struct Watch {
    static constexpr int kObj = 3;
    std::vector<Seen> seen, expected;
    bool over = false;
    ke::RefPtr<T> h[2];
    T* raw[kObj];
    int action[kObj];
    ~Watch() { over = true; }
    // the model
    int mh[2] = {-1, -1}, child[kObj] = {-1, -1, -1}, rc[kObj] = {0, 0, 0};
    bool alive[kObj];

    int held(const ke::RefPtr<T>& r) const { for (int o = 0; o < kObj; o++) if (r.get() == raw[o]) return o; return r.get() ? -2 : -1; }
    void real_dies(int id) {
        if (over) return;
        int a = action[id], i = a & 1;
        seen.push_back({0, id, held(h[i])});
        switch (a / 2) {
            case 1: { ke::RefPtr<T> copy(h[i]); seen.push_back({1, id, held(copy)}); break; }
            case 2: h[i] = nullptr; break;
            case 3: h[i] = h[1 - i]; break;
            case 4: { ke::RefPtr<T> out(std::move(h[i])); seen.push_back({2, id, held(out)}); break; }
        }
    }
    void release(int o) {
        if (o < 0 || --rc[o]) return;
        alive[o] = false;
        int a = action[o], i = a & 1;
        expected.push_back({0, o, mh[i]});
        switch (a / 2) {
            case 1: expected.push_back({1, o, mh[i]}); break;
            case 2: assign(mh[i], -1); break;
            case 3: assign(mh[i], mh[1 - i]); break;
            case 4: { int out = mh[i]; mh[i] = -1; expected.push_back({2, o, out}); release(out); break; }
        }
        int c = child[o];
        child[o] = -1;
        release(c);
    }
    void assign(int& where, int what) {
        if (what >= 0) rc[what]++;
        int old = where;
        where = what;
        release(old);
    }
    void check() {
        if (seen.size() != expected.size()) mc::fail("%zu events, %zu expected", seen.size(), expected.size());
        for (size_t k = 0; k < seen.size(); k++)
            if (seen[k] != expected[k]) mc::fail("event %zu: object %d sees object %d in a handle; expected object %d to see %d", k, seen[k].id, seen[k].held, expected[k].id, expected[k].held);
        uint64_t hs = seen.size();
        for (int i = 0; i < 2; i++) { if (held(h[i]) != mh[i]) mc::fail("handle %d holds object %d, not %d", i, held(h[i]), mh[i]); hs = mc::mix(hs, mh[i] + 1); }
        for (int o = 0; o < kObj; o++) {
            if (alive[o] != W.alive[o]) mc::fail("object %d is %s", o, alive[o] ? "dead, but owned" : "alive, but nothing owns it");
            if (alive[o] && held(raw[o]->child) != child[o]) mc::fail("nested handle of object %d", o);
            hs = mc::mix(hs, alive[o] * 64 + child[o] + 1);
            if (alive[o]) hs = mc::mix(hs, action[o]);
        }
        mc::state(hs);
        mc::observe(hs);
    }
    void body(int depth) {
        memset(&W, 0, sizeof W);
        Watched<T>::now = this;
        for (int o = 0; o < kObj; o++) {
            action[o] = o == 2 ? 0 : mc::choose(10);
            alive[o] = true;
            raw[o] = new T(W.created++);
        }
        // 0: h0 -> 0, h1 -> 1; 1: h0 -> 0 -> 1; 2: 0 owns itself, h0 -> 1; 3: h0 -> 0 -> 1 -> 0
        int start = mc::choose(4);
        mc::op("start %d, actions %d %d", start, action[0], action[1]);
        auto set = [&](int i, int o) { h[i] = raw[o]; assign(mh[i], o); };
        auto nest = [&](int p, int o) { raw[p]->child = raw[o]; assign(child[p], o); };
        if (start == 0) { set(0, 0); set(1, 1); }
        if (start == 1) { set(0, 0); nest(0, 1); }
        if (start == 2) { nest(0, 0); set(0, 1); }
        if (start == 3) { set(0, 0); nest(0, 1); nest(1, 0); }
        set(start == 0 ? 0 : 1, start == 0 ? 0 : 2);
        if (start == 0) { nest(1, 2); }
        check();
        for (int k = 0; k < depth; k++) {
            int i = mc::choose(2), o = mc::choose(kObj);
            switch (mc::choose(11)) {
                case 0: if (o) mc::prune(); mc::op("h%d = nullptr", i); h[i] = nullptr; assign(mh[i], -1); break;
                case 1: if (o) mc::prune(); mc::op("h%d = h%d", i, 1 - i); h[i] = h[1 - i]; assign(mh[i], mh[1 - i]); break;
                case 2: if (o) mc::prune(); mc::op("h%d = move(h%d)", i, 1 - i); { int x = mh[1 - i]; h[i] = std::move(h[1 - i]); mh[1 - i] = -1; int old = mh[i]; mh[i] = x; release(old); } break;
                case 3: if (!alive[o]) mc::prune(); mc::op("h%d = object %d", i, o); h[i] = raw[o]; assign(mh[i], o); break;
                case 4: if (!alive[o]) mc::prune(); mc::op("h%d = adopt(object %d)", i, o); raw[o]->AddRef(); h[i] = ke::AdoptRef(raw[o]); assign(mh[i], o); break;
                case 5: if (i || !alive[o]) mc::prune(); mc::op("object %d's handle = nullptr", o); raw[o]->child = nullptr; assign(child[o], -1); break;
                case 6: if (!alive[o]) mc::prune(); mc::op("object %d's handle = h%d", o, i); raw[o]->child = h[i]; assign(child[o], mh[i]); break;
                case 7: if (!alive[o]) mc::prune(); mc::op("object %d's handle = move(h%d)", o, i); { int x = mh[i]; raw[o]->child = std::move(h[i]); mh[i] = -1; int old = child[o]; child[o] = x; release(old); } break;
                case 8: if (!alive[o]) mc::prune(); mc::op("h%d = object %d's handle", i, o); h[i] = raw[o]->child; assign(mh[i], child[o]); break;
                case 9: if (!alive[o]) mc::prune(); mc::op("h%d = move(object %d's handle)", i, o); { int x = child[o]; h[i] = std::move(raw[o]->child); child[o] = -1; int old = mh[i]; mh[i] = x; release(old); } break;
                case 10: if (!alive[o] || mh[i] < 0) mc::prune(); mc::op("object %d's handle = object %d's handle", o, mh[i]); raw[o]->child = h[i]->child; assign(child[o], child[mh[i]]); break;
            }
            check();
        }
        // End: break every cycle, then drop the handles.
        for (int o = 0; o < kObj; o++) if (alive[o]) { rc[o]++; raw[o]->AddRef(); raw[o]->child = nullptr; assign(child[o], -1); raw[o]->Release(); release(o); check(); }
        for (int k = 0; k < 6; k++) { h[k % 2] = nullptr; assign(mh[k % 2], -1); check(); }
        if (W.live) mc::fail("%d objects survive every owner", W.live);
    }
};
struct WP : PlainBase<WP> { int id; ke::RefPtr<WP> child; explicit WP(int i) : id(i) { born(i); } ~WP() override { dies(id); Watched<WP>::now->real_dies(id); } };
struct WV : ke::VirtualRefcounted { int id; ke::RefPtr<WV> child; explicit WV(int i) : id(i) { born(i); } ~WV() override { dies(id); Watched<WV>::now->real_dies(id); } };
}  // namespace

void mc_register() {
    int d = mc::thorough() ? 4 : 3;
    mc::add("plain", [d] { Run<PObj, PDer>().body(d); }, 0, 3);
    mc::add("virtual", [d] { Run<VObj, VDer>().body(d); }, 0, 3);
    mc::add("forwarded", [d] { Run<FObj, FDer>().body(mc::thorough() ? 4 : 2); (void)d; }, 0, 3);
    mc::add("watching-plain", [d] { Watch<WP>().body(d - 1); }, 0, 3);
    mc::add("watching-virtual", [d] { Watch<WV>().body(d - 1); }, 0, 3);
    mc::add("loops1", [] { Run<PObj, PDer>().body(1, 70000); }, 0, 3);
    mc::add("loops2", [] { Run<VObj, VDer>().body(2, mc::thorough() ? 1000 : 70); }, 0, 3);
    mc::add("scale-plain", scale<PObj>, 0, -1);
    mc::add("scale-virtual", scale<VObj>, 0, -1);
    mc::add("scale-forwarded", scale<FObj>, 0, -1);
}

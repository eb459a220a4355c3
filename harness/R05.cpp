// R05: scope helpers restore, unlink and fire exactly once at scope exit.
#include <assert.h>
#include <math.h>
#include <string.h>
#include <cmath>
#include <functional>
#include <optional>
#include <memory>
#include <string>
#include <vector>
#include <amtl/am-raii.h>
#include <mc/track.h>

namespace {
using mc::Tok;

std::vector<int> fired;        // what really fired, in order
std::vector<int> expect;       // what should have

struct Cb {                    // callable with a lifetime
    Tok id;
    explicit Cb(int i) : id(i) {}
    void operator()() { fired.push_back(id.get()); }
};
void plain_fn() { fired.push_back(77); }

int vars[2];                   // saved-and-set integers
std::optional<Tok> tvar;       // a variable of class type
std::string svar;
double dvar;                   // compared by bits: restoring -0.0 over 0.0 matters
struct Loose {                 // all values compare equal
    int v;
    explicit Loose(int x = 0) : v(x) {}
    bool operator==(const Loose&) const { return true; }
    bool operator!=(const Loose&) const { return false; }
};
Loose lvar;

struct Before { int before = 8; virtual ~Before() {} };
struct Link : Before, ke::StackLinked<Link> {   // not at the start of the object
    Tok id;
    Link(Link** head, int i) : ke::StackLinked<Link>(head), id(i) {}
    Link* prev() const { return prev_; }
};
double md; int ml;
Link* heads[2];
std::vector<Link*> chain[2];   // model

int next_id;

void check_state(const int* mv, int mt, const std::string& ms) {
    uint64_t h = fired.size();
    MC_CHECK(fired == expect, "%zu callbacks have run, expected %zu", fired.size(), expect.size());
    for (int i = 0; i < 2; i++) { MC_CHECK(vars[i] == mv[i], "variable %d is %d, expected %d", i, vars[i], mv[i]); h = mc::mix(h, mv[i]); }
    MC_CHECK(tvar->get() == mt, "class-type variable is %d, expected %d", tvar->get(), mt);
    MC_CHECK(!memcmp(&dvar, &md, sizeof md), "floating-point variable is %g, expected %g (or the sign differs)", dvar, md);
    MC_CHECK(lvar.v == ml, "loosely compared variable is %d, expected %d", lvar.v, ml);
    MC_CHECK(svar == ms, "string variable is %s, expected %s", svar.c_str(), ms.c_str());
    for (int i = 0; i < 2; i++) {
        Link* l = heads[i];
        for (size_t k = chain[i].size(); k-- > 0;) {
            MC_CHECK(l == chain[i][k] && l->before == 8 && l->id.get() > 0, "chain %d position %zu", i, k);
            l = l->prev();
        }
        MC_CHECK(!l, "chain %d does not end", i);
        h = mc::mix(h, chain[i].size());
    }
    mc::state(mc::mix(h, mt));
    mc::observe(h);
}

struct Stop {};
int mv[2], mt;
std::string ms;

void level(int depth);
void inner(int depth) {
    check_state(mv, mt, ms);
    level(depth - 1);
    check_state(mv, mt, ms);
}

// What happens to a guard inside its scope: 0 nothing, 1 cancelled at once, 2 inner scope first and then cancelled,
// 3 moved, 4 moved twice, 5 moved and the source cancelled, 6 moved and the target cancelled, 7 cancelled then moved,
// 8 moved into an inner scope that ends before ours
template <class G>
void guard_life(G& g, int id, int what, int depth) {
    bool live = true;
    switch (what) {
        case 0: inner(depth); break;
        case 1: g.cancel(); live = false; inner(depth); break;
        case 2: inner(depth); g.cancel(); live = false; break;
        case 3: { G b(std::move(g)); inner(depth); if (live) expect.push_back(id); live = false; } check_state(mv, mt, ms); break;
        case 4: { G b(std::move(g)); { G c(std::move(b)); inner(depth); expect.push_back(id); live = false; } check_state(mv, mt, ms); } check_state(mv, mt, ms); break;
        case 5: { G b(std::move(g)); g.cancel(); inner(depth); expect.push_back(id); live = false; } check_state(mv, mt, ms); break;
        case 6: { G b(std::move(g)); inner(depth); b.cancel(); live = false; } check_state(mv, mt, ms); break;
        case 7: { g.cancel(); live = false; G b(std::move(g)); inner(depth); } check_state(mv, mt, ms); break;
        case 8: { { G b(std::move(g)); expect.push_back(id); live = false; } check_state(mv, mt, ms); inner(depth); } break;
        case 9: g.cancel(); g.cancel(); live = false; inner(depth); break;
    }
    if (live) expect.push_back(id);
}

template <class G> G passthrough(G g) { return G(std::move(g)); }

void level(int depth) {
    if (depth == 0) {
        if (mc::flip()) { mc::op("leave by exception"); throw Stop(); }
        return;
    }
    switch (mc::choose(13)) {
        case 0: { int id = next_id++, w = mc::choose(10); mc::op("guard %d from temporary, life %d", id, w);
            { auto g = ke::MakeScopeGuard(Cb(id)); guard_life(g, id, w, depth); } break; }
        case 1: { int id = next_id++, w = mc::choose(10); mc::op("guard %d from lvalue, life %d", id, w);
            Cb cb(id);
            { auto g = ke::MakeScopeGuard(cb); guard_life(g, id, w, depth); }
            MC_CHECK(cb.id.get() == id, "the caller's callable was modified"); break; }
        case 2: { int id = next_id++, w = mc::choose(10); mc::op("guard %d lambda, life %d", id, w);
            { auto g = ke::MakeScopeGuard([id] { fired.push_back(id); }); guard_life(g, id, w, depth); } break; }
        case 3: { int w = mc::choose(10); mc::op("guard of a function, life %d", w);
            { auto g = ke::MakeScopeGuard(&plain_fn); guard_life(g, 77, w, depth); } break; }
        case 4: { int id = next_id++; mc::op("guard %d passed through a function and returned", id);
            { auto g = passthrough(ke::MakeScopeGuard(std::function<void()>([id] { fired.push_back(id); }))); inner(depth); expect.push_back(id); } break; }
        case 5: { int v = mc::choose(2), old = mv[v], val = 10 + next_id++; mc::op("save var %d, set %d", v, val);
            { ke::SaveAndSet<int> s(&vars[v], val); mv[v] = val; inner(depth); if (mc::flip()) vars[v] = 12345; mv[v] = old; } break; }
        case 6: { int old = mt, val = 10 + next_id++; mc::op("save class variable, set %d", val);
            { Tok t(val); ke::SaveAndSet<Tok> s(&*tvar, t); mt = val; inner(depth); mt = old; } break; }
        case 7: { std::string old = ms, val = "value " + std::to_string(next_id++); mc::op("save string, set %s", val.c_str());
            { ke::SaveAndSet<std::string> s(&svar, val); ms = val; inner(depth); ms = old; } break; }
        case 10: { double old = md, val = mc::choose(2) ? 0.0 : -0.0; mc::op("save floating-point variable, set %g", val);
            { ke::SaveAndSet<double> s(&dvar, val); md = val; inner(depth); md = old; } break; }
        case 11: { int old = ml, val = 10 + next_id++; mc::op("save loosely compared variable, set %d", val);
            { ke::SaveAndSet<Loose> s(&lvar, Loose(val)); ml = val; inner(depth); ml = old; } break; }
        case 12: { int id = next_id++, w = mc::choose(10); mc::op("guard %d from a callable that can only be moved, life %d", id, w);
            { auto g = ke::MakeScopeGuard([t = mc::MTok(id)]() { fired.push_back(t.get()); }); guard_life(g, id, w, depth); } break; }
        case 8: { int c = mc::choose(2); mc::op("link on chain %d", c);
            if (c == 0) { Link l(&heads[c], next_id++); chain[c].push_back(&l); inner(depth); chain[c].pop_back(); }
            else { std::unique_ptr<ke::StackLinked<Link>> l(new Link(&heads[c], next_id++)); chain[c].push_back(static_cast<Link*>(l.get())); inner(depth); chain[c].pop_back(); }
            break; }
        case 9: { int k = mc::choose(3); mc::op("return-and-void %d", k);
            if (k == 0) { int x = 41; int y = ke::ReturnAndVoid(x); MC_CHECK(y == 41 && x == 0, "int"); int o = ke::ReturnAndVoid(vars[0]); MC_CHECK(o == mv[0] && vars[0] == 0, "global"); mv[0] = 0; }
            if (k == 1) { Tok t(6); Tok o = ke::ReturnAndVoid(t); MC_CHECK(o.get() == 6 && t.get() == 0, "class"); Tok z = ke::ReturnAndVoid(t); MC_CHECK(z.get() == 0, "class"); }
            if (k == 2) { int* p = &vars[1]; int* q = ke::ReturnAndVoid(p); MC_CHECK(q == &vars[1] && !p, "pointer"); std::string s = "abc"; MC_CHECK(ke::ReturnAndVoid(s) == "abc" && s.empty(), "string"); }
            inner(depth); break; }
    }
    check_state(mv, mt, ms);
}

// Leaving by exception unwinds scopes without the bookkeeping above, so that form checks the end state only.
void body(int depth) {
    tvar.reset();   // an abandoned path leaves it
    mc::life_reset();
    fired.clear(); expect.clear(); fired.reserve(64); expect.reserve(64);
    chain[0].clear(); chain[1].clear(); chain[0].reserve(16); chain[1].reserve(16);
    heads[0] = heads[1] = nullptr;
    next_id = 1;
    vars[0] = mv[0] = 3; vars[1] = mv[1] = 4; tvar.emplace(5); mt = 5; svar = ms = "initial"; dvar = md = -0.0; lvar.v = ml = 6;
    bool thrown = false;
    try { level(depth); } catch (Stop&) { thrown = true; }
    if (!thrown) check_state(mv, mt, ms);
    else {
        MC_CHECK(!heads[0] && !heads[1], "a link survives its scope");
        MC_CHECK((vars[1] == 4) && (vars[0] == 3 || vars[0] == 0) && tvar->get() == 5 && svar == "initial" && dvar == 0.0 && std::signbit(dvar) && lvar.v == 6, "a saved value was not restored");
        for (size_t i = 0; i < fired.size(); i++) for (size_t j = 0; j < i; j++) MC_CHECK(fired[i] != fired[j] || fired[i] == 77, "callback %d ran twice", fired[i]);
        mc::observe(fired.size());
    }
    tvar.reset();
    { std::string().swap(svar); std::string().swap(ms); std::vector<int>().swap(fired); std::vector<int>().swap(expect); std::vector<Link*>().swap(chain[0]); std::vector<Link*>().swap(chain[1]); }
    mc::life_expect_live(0, "at the end");
}
}  // namespace

void mc_register() {
    int d = mc::thorough() ? 4 : 3;
    mc::add("nesting", [d] { body(d); }, 0, 3);
}

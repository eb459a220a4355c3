// A02: a reset parser behaves exactly like a fresh one (A02.cpp); globally registered options (A02s.cpp).
#include "arg_common.h"
using namespace ac;

namespace {
std::string usage(Parser& p, const Args& a, bool null_argv = false) {
    char* buf = nullptr;
    size_t n = 0;
    FILE* f = open_memstream(&buf, &n);
    Exact x(a, true);
    x.v.push_back(nullptr);
    if (null_argv) p.usage_line(nullptr, f);
    p.usage(f, int(a.size()) + 1, x.v.data());
    fclose(f);
    std::string s(buf, n);
    free(buf);
    return s;
}
uint64_t g_n;
const std::vector<std::string>& toks(int set) {
    static const std::vector<std::string> t{"-s", "x", "--num=5", "-n", "-b", "false", "-e", "--no-enable", "-t", "-v", "-i", "--rep=4", "--", "-h", "--bad", "", "-r", "--num=z", "7"};
    static const std::vector<std::string> own{"-c", "red", "--color=pink", "--size=", "-z", "5x", "-v", "7", "--vec=q", "-q", "true", "-k", "-blue", "-p", "go", "stop", "--paint", "--step=9", "--"};
    return set ? own : t;
}
const std::vector<Args>& vecs(int max, int set = 0) {
    static std::vector<Args> v[2][4];
    auto& r = v[set != 0][max];
    if (!r.empty()) return r;
    r.push_back({});
    size_t from = 0;
    for (int n = 0; n < max; n++) {
        size_t to = r.size();
        for (size_t k = from; k < to; k++) for (auto& t : toks(set)) { Args a = r[k]; a.push_back(t); r.push_back(a); }
        from = to;
    }
    return r;
}
struct Outcome { bool ok; std::string snap, text; };
Outcome parse_all(Real& r, const Args& a, int entry, bool text) {
    Outcome o;
    o.ok = parse(*r.p, a, entry);
    o.snap = o.ok ? r.snapshot() : "";
    o.text = text ? usage(*r.p, a) : "";
    return o;
}
// What a fresh parser does, per (configuration, positionals, vector): computed once per process.
const int kCfgs[] = {1 | 16, 8 | 16 | 1, 31, 0};
[[maybe_unused]] void pairs(int set) {
    int ci = mc::choose(4), pos = mc::choose(mc::thorough() ? 4 : 3);
    Config c = Config::of(kCfgs[ci]);
    auto& first = vecs(2, set);
    auto& second = vecs(mc::thorough() ? 2 : 1, set);
    int part = mc::choose(8);
    auto ds = set_of(set, pos);
    mc::op("set %d, %d positionals, {%s}, slice %d", set, pos, c.str().c_str(), part);
    g_n = 0;
    std::vector<Outcome> fresh;
    std::string idle, start;
    { Real r(ds, c); start = r.snapshot(); idle = usage(*r.p, {}); }
    for (size_t j = 0; j < second.size(); j++) { Real r(ds, c); fresh.push_back(parse_all(r, second[j], int(j % kEntries), j < 30)); }
    for (size_t i = part; i < first.size(); i += 8) {
        Real r(ds, c);
        for (size_t j = 0; j < second.size(); j++) {      // the same parser serves every second vector, reset in between
            bool ok = parse(*r.p, first[i], int(i % kEntries));
            if ((i + j) % 3 == 0) usage(*r.p, first[i]);
            r.p->reset();
            if ((i + j) % 5 == 0) r.p->reset();
            auto ctx = [&] { return "after " + show(first[i]) + (ok ? " (accepted)" : " (rejected)") + " and a reset"; };
            std::string s = r.snapshot();
            if (s != start) mc::fail("{%s} %s the values are %s, not %s", c.str().c_str(), ctx().c_str(), s.c_str(), start.c_str());
            if (j == 0) { std::string u = usage(*r.p, {}); if (u != idle) mc::fail("{%s} %s the usage output is\n%s\nnot\n%s", c.str().c_str(), ctx().c_str(), u.c_str(), idle.c_str()); }
            Outcome o = parse_all(r, second[j], int(j % kEntries), j < 30);
            const Outcome& w = fresh[j];
            if (o.ok != w.ok) mc::fail("{%s} %s, %s is %s", c.str().c_str(), ctx().c_str(), show(second[j]).c_str(), o.ok ? "accepted" : "rejected");
            if (o.snap != w.snap) mc::fail("{%s} %s, %s gives %s, not %s", c.str().c_str(), ctx().c_str(), show(second[j]).c_str(), o.snap.c_str(), w.snap.c_str());
            if (o.text != w.text) mc::fail("{%s} %s, %s shows\n%s\nnot\n%s", c.str().c_str(), ctx().c_str(), show(second[j]).c_str(), o.text.c_str(), w.text.c_str());
            r.p->reset();
            g_n++;
        }
    }
    mc::evaluations(g_n);
    mc::state(((set * 4 + ci) * 4 + pos) * 8 + part);
}
// Chains of parses and resets.
[[maybe_unused]] void chains() {
    int set = mc::choose(2) * 2;
    static const std::vector<Args> own{{"-c", "red"}, {"--size=q"}, {"red", "x", "--", "y"}, {"-c"}, {"-p", "go", "-p", "stop", "-p"}, {"--step=go", "-p", "go", "--step=go", "--step=go"}, {"-v", "1", "--quiet=true", "-k", "red", "-v", "3"}, {"--paint", "-e"}, {"-z"}, {}};
    static const std::vector<Args> std{{"-s", "x"}, {"--bad"}, {"x", "--", "y"}, {"--", "--", "z"}, {"-h"}, {"-v"}, {"-i", "1", "-r", "2", "-i", "3"}, {"-b", "-t", "-e"}, {"--no-enable", "-n"}, {}};
    Config c = Config::of(1 | 8 | 16);
    const std::vector<Args>& v = set ? own : std;
    auto ds = set_of(set, mc::choose(2));
    Real r(ds, c);
    for (int d = 0; d < (mc::thorough() ? 5 : 4); d++) {
        int k = mc::choose(int(v.size()));
        mc::op("parse %s, reset", show(v[k]).c_str());
        Real f(ds, c);
        Outcome a = parse_all(r, v[k], d % kEntries, true), b = parse_all(f, v[k], d % kEntries, true);
        if (a.ok != b.ok || a.snap != b.snap || a.text != b.text) mc::fail("differs from a fresh parser: %d %s\n%s\nfresh: %d %s\n%s", a.ok, a.snap.c_str(), a.text.c_str(), b.ok, b.snap.c_str(), b.text.c_str());
        r.p->reset();
        mc::state(mc::hash_str(a.snap, d));
    }
}
// --- options registered globally -------------------------------------------
struct Statics {
    StringOption* s;
    IntOption* n;
    EnableOption* e;
    ToggleOption* t;
    StopOption* v;
    RepeatOption<std::string>* i;
    Option<bool>* b;
    StringOption* pos;
    Parser* before;         // created before any registration
    Parser* half;           // after some
};
Statics& statics() {
    static Statics* s;
    if (s) return *s;
    s = new Statics;
    s->before = new Parser("b");
    s->s = new StringOption("s", "str", Nothing(), "help");
    s->n = new IntOption("-n", "--num", Some(7), "help");
    s->e = new EnableOption("e", "enable", false, "help");
    s->half = new Parser("half");
    s->t = new ToggleOption("t", "tog", Some(true), "help");
    s->v = new StopOption("v", "version", Some(false), "help");
    s->i = new RepeatOption<std::string>("i", "inc", "help");
    s->b = new Option<bool>("b", "bool", Nothing(), "help");
    s->pos = new StringOption("first", "help");
    return *s;
}
// static declarations in the same order, then the parser's own
std::vector<Decl> static_decls() {
    return {{STR, "s", "str", nullptr, -1}, {INT, "n", "num", nullptr, 7}, {ENABLE, "e", "enable", nullptr, 0}, {TOGGLE, "t", "tog", nullptr, 1}, {STOP, "v", "version", nullptr, 0}, {RSTR, "i", "inc", nullptr, -1}, {BOOL, "b", "bool", nullptr, -1},
            {STR, nullptr, nullptr, "first", -1}};
}
void global_options() {
    mc::no_leak_check();
    Statics& st = statics();
    int k = mc::choose(int(vecs(mc::thorough() ? 3 : 2).size())), how = mc::choose(2);
    const Args& a = vecs(mc::thorough() ? 3 : 2)[k];
    Config c = Config::of(how ? 1 : 8 | 16);
    std::vector<Decl> own{{RINT, "r", "rep", nullptr, -1}};
    auto all = static_decls();
    all.push_back(own[0]);
    mc::op("%s", show(a).c_str());
    Result want = expect(all, c, a);
    std::string snaps[2];
    for (int round = 0; round < 2; round++) {            // two parsers one after the other, both created after the registration
        Real r(own, c);
        r.p->reset();
        bool ok = parse(*r.p, a, round * 2);
        if (ok != want.ok) mc::fail("parser %d: %s is %s", round, show(a).c_str(), ok ? "accepted" : "rejected");
        IOption* os[] = {st.s, st.n, st.e, st.t, st.v, st.i, st.b, st.pos};
        auto sd = static_decls();
        std::string s;
        for (size_t j = 0; j < sd.size(); j++) s += Real::value(sd[j], os[j]) + ";";
        s += r.snapshot();
        if (ok && s != want.snapshot) mc::fail("parser %d: %s gives %s, not %s", round, show(a).c_str(), s.c_str(), want.snapshot.c_str());
        r.p->reset();
        mc::observe(mc::hash_str(s));
    }
    // parsers created earlier know only what was registered by then
    if (how) {
        Result none = expect({}, Config::of(1), a), some = expect({all[0], all[1], all[2]}, Config::of(1), a);
        if (st.before->parse(a) != none.ok) mc::fail("a parser created before the registration: %s", show(a).c_str());
        st.before->reset();
        if (st.half->parse(a) != some.ok) mc::fail("a parser created in the middle of the registration: %s", show(a).c_str());
        if (some.ok) { std::string s = Real::value(all[0], st.s) + ";" + Real::value(all[1], st.n) + ";" + Real::value(all[2], st.e) + "; extra pass"; if (s != some.snapshot) mc::fail("a parser created in the middle of the registration: %s gives %s", show(a).c_str(), s.c_str()); }
        st.half->reset();
    }
    mc::state(k * 2 + how);
}
}  // namespace

void mc_register() {
#ifdef STATICS
    mc::add("global-options", global_options, 0, 2);
#else
    (void)global_options;
    mc::add("pairs", [] { pairs(0); }, 0, 3);
    mc::add("pairs-own", [] { pairs(2); }, 0, 3);
    mc::add("chains", chains, 0, 2);
#endif
}

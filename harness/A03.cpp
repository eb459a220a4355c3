// A03: the usage text.  Read structurally: sections, then the tokens of each entry in declaration order.
#include "arg_common.h"
#include <mc/sizes.h>
using namespace ac;

namespace {
struct Item {                 // one declaration; kind -1: extra usage entry
    int kind;
    std::string s, l, name, help;
};
struct Page {
    bool help = true;
    std::string about, custom, program = "prog";
    bool no_argv = false;      // usage(fp, 0, nullptr)
    std::vector<Item> items;
};
struct Built {
    Page page;                // owns the strings the options point at
    std::unique_ptr<Parser> p;
    std::vector<std::unique_ptr<IOption>> opts;
    explicit Built(const Page& pg) : page(pg) {
        p.reset(page.help ? new Parser(page.about.c_str()) : new Parser());
        if (!page.custom.empty()) p->set_usage_line(page.custom.c_str());
        p->collect_extra_args();
        for (Item& i : page.items) {
            if (i.kind < 0) { p->add_usage_line(i.name.c_str(), i.help.c_str()); continue; }
            Decl d{Kind(i.kind), i.s.empty() ? nullptr : i.s.c_str(), i.l.empty() ? nullptr : i.l.c_str(), i.name.empty() ? nullptr : i.name.c_str(), -1, i.help.c_str()};
            opts.emplace_back(Real::make(*p, d));
        }
    }
    std::string text(const Args& argv, bool line_only = false) {
        char* buf = nullptr;
        size_t n = 0;
        FILE* f = open_memstream(&buf, &n);
        Args whole{page.program};
        whole.insert(whole.end(), argv.begin(), argv.end());
        Exact x(whole);
        x.v.push_back(nullptr);
        char** av = page.no_argv ? nullptr : x.v.data();
        if (line_only) p->usage_line(av, f); else p->usage(f, page.no_argv ? 0 : int(argv.size()) + 1, av);
        fclose(f);
        std::string s(buf, n);
        free(buf);
        return s;
    }
};
std::vector<std::string> split_ws(const std::string& s) {
    std::vector<std::string> v;
    std::string cur;
    for (char c : s) if (c == ' ') { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c;
    if (!cur.empty()) v.push_back(cur);
    return v;
}
std::vector<std::string> lines_of(const std::string& s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find('\n', i);
        if (e == std::string::npos) mc::fail("the last line is not terminated:\n%s", s.c_str());
        v.push_back(s.substr(i, e - i));
        i = e + 1;
    }
    return v;
}
bool needs_value(int k) { return k == STR || k == INT || k == RSTR || k == RINT; }
std::string bare(const std::string& s) { size_t k = 0; while (k < s.size() && s[k] == '-') k++; return s.substr(k); }
std::string placeholder(const Item& i) {
    if (!needs_value(i.kind)) return "";
    std::string r = "=";
    for (char c : bare(i.l.empty() ? i.s : i.l)) r += c == '-' ? '_' : c >= 'a' && c <= 'z' ? char(c - 32) : c;
    return r;
}
// One entry: its forms and words, in any layout in which both keep their order.
struct Entry {
    std::vector<std::string> forms, words;
};
size_t len_rtrim(const std::string& s) { size_t n = s.size(); while (n && s[n - 1] == ' ') n--; return n; }
void match_entries(const std::vector<std::string>& ls, size_t* at, size_t end, const std::vector<Entry>& es, const std::string& all) {
    for (const Entry& e : es) {
        size_t f = 0, w = 0;
        bool first = true;
        while (f < e.forms.size() || w < e.words.size()) {
            if (*at >= end) mc::fail("the entry for %s is missing or cut short (%zu of %zu forms, %zu of %zu words)\n%s", e.forms[0].c_str(), f, e.forms.size(), w, e.words.size(), all.c_str());
            const std::string& l = ls[(*at)++];
            auto t = split_ws(l);
            size_t nf = 0, nw = 0, widest = 0;
            for (auto& x : t) {
                bool comma = f + 1 < e.forms.size() && x == e.forms[f] + ",";
                if (f < e.forms.size() && (x == e.forms[f] || comma)) { f++; nf++; }
                else if (w < e.words.size() && x == e.words[w] && f > 0) { w++; nw++; widest = std::max(widest, x.size()); }
                else mc::fail("unexpected \"%s\" in the entry for %s\n%s", x.c_str(), e.forms[0].c_str(), all.c_str());
            }
            if (first && f == 0) mc::fail("no form on the first line of the entry for %s\n%s", e.forms[0].c_str(), all.c_str());
            first = false;
            // only a single word wider than the help column, or a single form, may go over
            if (len_rtrim(l) > 80 && !(nw == 1 ? widest > 52 : nw == 0 && nf == 1)) mc::fail("a line of %zu columns: %s\n%s", len_rtrim(l), l.c_str(), all.c_str());
        }
        // an entry without help text may be followed by an empty continuation line, never by anything else
    }
    while (*at < end && len_rtrim(ls[*at]) == 0) ++*at;
}
std::string usage_head(const Page& pg) {
    std::string s = "Usage: " + (pg.no_argv ? "" : pg.program);
    if (!pg.custom.empty()) return s + " " + pg.custom;
    for (auto& i : pg.items) if (i.kind >= 0 && !i.name.empty()) s += " " + i.name;
    return s;
}
void check_usage_line(const Page& pg, const std::string& line, const std::string& all) {
    auto have = split_ws(line), want = split_ws(usage_head(pg));
    have.erase(std::remove(have.begin(), have.end(), "[-h]"), have.end());
    want.erase(std::remove(want.begin(), want.end(), "[-h]"), want.end());
    if (have != want) mc::fail("the usage line is \"%s\"\n%s", line.c_str(), all.c_str());
}
void check_full(const Page& pg, const std::string& out) {
    auto ls = lines_of(out);
    size_t at = 0, n = ls.size();
    if (pg.help && !pg.about.empty()) {
        if (n == 0 || ls[0] != pg.about) mc::fail("the description does not come first\n%s", out.c_str());
        at = 1;
        while (at < n && ls[at].empty()) at++;
    }
    if (at >= n) mc::fail("no usage line\n%s", out.c_str());
    check_usage_line(pg, ls[at++], out);
    while (at < n && ls[at].empty()) at++;
    std::vector<Entry> pos, opt, extra;
    auto words = [](const std::string& s) { return split_ws(s); };
    if (pg.help) opt.push_back({{"-h", "--help"}, words("Display this help menu.")});
    for (const Item& i : pg.items) {
        Entry e;
        e.words = words(i.help);
        if (i.kind < 0) { e.forms = {i.name}; extra.push_back(e); continue; }
        if (!i.name.empty()) { e.forms = {i.name}; pos.push_back(e); continue; }
        if (!i.s.empty()) e.forms.push_back("-" + bare(i.s) + (i.l.empty() ? placeholder(i) : ""));
        if (!i.l.empty()) e.forms.push_back("--" + bare(i.l) + placeholder(i));
        opt.push_back(e);
    }
    std::vector<size_t> heads;
    auto heading = [&](const char* h) {
        if (at >= n || ls[at] != h) mc::fail("no heading \"%s\" where it belongs\n%s", h, out.c_str());
        at++;
    };
    if (!pos.empty()) { heading("positional arguments:"); match_entries(ls, &at, n, pos, out); }
    if (!opt.empty()) { heading("optional arguments:"); match_entries(ls, &at, n, opt, out); }
    if (!extra.empty()) match_entries(ls, &at, n, extra, out);
    if (at != n) mc::fail("something follows the last entry: \"%s\"\n%s", ls[at].c_str(), out.c_str());
}
std::string name_of(size_t n, char c) {            // words joined by dashes
    std::string s;
    for (size_t k = 0; k < n; k++) s += (k % 7 == 4 && k + 1 < n) ? '-' : char(c + k % 3);
    return s;
}
uint64_t g_word;
std::string word(size_t n) {                         // distinct words, so that order and loss are seen
    std::string id = std::to_string(g_word++ % 10);
    return id + std::string(n - 1, 'w');
}
const std::vector<size_t>& wl(int k) {
    static const std::vector<size_t> a{1, 2, 9, 23, 24, 25, 26, 27, 48, 49, 50, 51, 52, 53, 60, 79, 81};
    static const std::vector<size_t> b{1, 24, 25, 26, 49, 50, 51, 52, 90};
    static const std::vector<size_t> c{1, 16, 25, 50, 51};
    return k == 0 ? a : k == 1 ? b : c;
}
std::string help_text(const std::vector<size_t>& ws) {
    g_word = 1;
    std::string h;
    for (size_t w : ws) h += (h.empty() ? "" : " ") + word(w);
    return h;
}
const std::vector<std::vector<size_t>>& helps() {
    static std::vector<std::vector<size_t>> v;
    if (!v.empty()) return v;
    v.push_back({});
    for (size_t a : wl(0)) v.push_back({a});
    for (size_t a : wl(0)) for (size_t b : wl(0)) v.push_back({a, b});
    for (size_t a : wl(1)) for (size_t b : wl(1)) for (size_t c : wl(1)) v.push_back({a, b, c});
    for (size_t a : wl(2)) for (size_t b : wl(2)) for (size_t c : wl(2)) for (size_t d : wl(2)) v.push_back({a, b, c, d});
    for (size_t k = 5; k < 60; k++) v.push_back(std::vector<size_t>(k, 1)), v.push_back(std::vector<size_t>(k, k % 9 + 1));
    return v;
}
// One declaration: every kind, form, name length and help text.
void one_entry() {
    uint64_t lo, hi, n = 0;
    auto& hs = helps();
    mc::slice(hs.size(), &lo, &hi);
    static const int kinds[] = {STR, INT, BOOL, ENABLE, TOGGLE, STOP, RSTR, RINT};
    for (uint64_t h = lo; h < hi; h++) {
#ifdef __SANITIZE_ADDRESS__
        if (h % 5 && !mc::thorough()) continue;       // the other configuration runs them all
#endif
        std::string text = help_text(hs[h]);
        bool rich = hs[h].size() <= 1 || mc::thorough();
        for (int k : kinds) for (int form = 0; form < 4; form++) {
            if (form == 3 && (k == ENABLE || k == TOGGLE || k == STOP || k == RSTR || k == RINT)) continue;
            if (!rich && k != STR && k != BOOL) continue;
            for (size_t len = 1; len < 45; len++) {
                if (!rich && (len < 7 || (len > 16 && len < 22)|| len > 29) && len % 9) continue;
                Page pg;
                pg.help = (h + len) & 1;
                pg.about = "about";
                Item i;
                i.kind = k;
                i.help = text;
                if (form == 0 || form == 2) i.s = form == 0 ? name_of(len, 'p') : std::string(len % 3 + 1, 'q');
                if (form == 1 || form == 2) i.l = name_of(len, 'x');
                if (form == 3) i.name = name_of(len, 'n');
                pg.items.push_back(i);
                Built b(pg);
                check_full(pg, b.text({}));
                n++;
            }
        }
        for (size_t len = 1; len < 45; len++) {
            Page pg;
            pg.help = len & 1;
            pg.items.push_back({-1, "", "", name_of(len, 'u'), text});
            Built b(pg);
            check_full(pg, b.text({}));
            n++;
        }
    }
    mc::evaluations(n);
}
// Several declarations in every order.
const std::vector<Item>& palette() {
    static const std::vector<Item> v{
        {STR, "s", "str", "", "the string"},
        {INT, "-n", "--num-ber", "", "a number that is described at some length so that it takes more than one line of help"},
        {BOOL, "b", "", "", "truth"},
        {ENABLE, "", "enable-this-with-a-long-name-indeed", "", "long option"},
        {STR, "", "", "input", "the input"},
        {INT, "", "", "a-positional-with-a-long-name", ""},
        {-1, "", "", "@file", "read arguments from a file"},
        {RSTR, "I", "", "", ""},
        {TOGGLE, "tt", "toggle-it", "", "w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w"},
        {STOP, "V", "version", "", "show"},
        {-1, "", "", "a-long-usage-entry-that-fills-the-column", "and more"},
    };
    return v;
}
void many_entries() {
    int n = mc::choose(mc::thorough() ? 6 : 5), head = mc::choose(4);
    Page pg;
    pg.help = head & 1;
    pg.about = head & 2 ? "What this program does." : "";
    pg.custom = head & 2 ? "[options] file..." : "";
    for (int k = 0; k < n; k++) {
        int i = mc::choose(int(palette().size()));
        Item it = palette()[i];
        if (k % 2 && !it.l.empty()) it.l += std::to_string(k);     // keep the forms distinct
        pg.items.push_back(it);
    }
    mc::op("%d entries, head %d", n, head);
    Built b(pg);
    std::string out = b.text({});
    check_full(pg, out);
    auto ul = lines_of(b.text({}, true));
    if (ul.size() != 1) mc::fail("usage_line() wrote %zu lines", ul.size());
    check_usage_line(pg, ul[0], out);
    if (b.text({}) != out) mc::fail("asking twice gives another text");
    mc::state(mc::hash_str(out));
}
// After a parse: the error with the usage line, or the full text.
void after_parse() {
    static const std::vector<std::string> t{"-s", "--num=5", "--num=zz", "-h", "--help", "--bad", "-n", "--", "word", "-e", "-v", "--help=1", "--he", "-?", "", "-b"};
    bool help = mc::flip(), extra = mc::flip();
    int n = mc::choose(mc::thorough() ? 5 : 4);
    Args a;
    for (int k = 0; k < n; k++) a.push_back(t[mc::choose(int(t.size()))]);
    mc::op("%s", show(a).c_str());
    Page pg;
    pg.help = help;
    pg.about = "about";
    pg.items = {{STR, "s", "str", "", "help"}, {INT, "n", "num", "", "help"}, {ENABLE, "e", "enable", "", "help"}, {STOP, "v", "version", "", "help"}, {BOOL, "b", "", "", "help"}};
    if (!extra) pg.items.push_back({STR, "", "", "first", "help"});
    Built b(pg);
    bool ok = parse(*b.p, a, 0);
    std::string out = b.text(a);
    bool asked = false;
    for (auto& x : a) asked |= x == "-h" || x == "--help";
    // whether this parse was rejected for an error, or only by the help option
    std::vector<Decl> ds;
    for (auto& i : b.page.items) ds.push_back({Kind(i.kind), i.s.empty() ? nullptr : i.s.c_str(), i.l.empty() ? nullptr : i.l.c_str(), i.name.empty() ? nullptr : i.name.c_str(), -1});
    Config c{help, false, false, true, false};
    Grammar g(ds, c);
    bool unspecified = false;
    bool accepted = g.scan(a, &unspecified);
    if (accepted != ok) mc::fail("the parse is %s", ok ? "accepted" : "rejected");
    bool error = !ok && !(help && g.help_set);
    if (!error || (help && asked)) check_full(pg, out);
    else {
        auto ls = lines_of(out);
        if (ls.size() != 2) mc::fail("after a rejected parse usage is\n%s", out.c_str());
        check_usage_line(pg, ls[0], out);
        if (ls[1].substr(0, 7) != "error: " || ls[1].size() < 9) mc::fail("no error is shown\n%s", out.c_str());
        bool named = help && ls[1].find("'help'") != std::string::npos;                           // the message names the argument or the option at fault
        for (auto& x : a) named |= x.size() > 1 && ls[1].find(x) != std::string::npos;
        for (auto& i : pg.items) for (auto& f : {i.s, i.l, i.name}) named |= !f.empty() && ls[1].find("'" + f + "'") != std::string::npos;
        if (!named) mc::fail("the error names neither an argument nor an option: %s", ls[1].c_str());
    }
    mc::state(mc::hash_str(out, (ok * 2 + error)));
}
// Many words, many entries, long names and long errors.
void scale() {
    mc::for_sizes(120, 1 << 14, [](size_t n) {
        static const int kinds[] = {STR, ENABLE, BOOL};
        std::vector<std::string> helps;
        for (size_t len : {size_t(2), size_t(9)}) helps.push_back(help_text(std::vector<size_t>(n, len)));
        helps.push_back(help_text({3, n + 1, 4}));
        int turn = 0;
        for (auto& h : helps) for (size_t name : {size_t(4), size_t(30), n + 1}) {
            Page pg;
            pg.help = n & 1;
            pg.about = "about " + (turn % 2 ? std::string(n, 'a') : "");
            pg.items.push_back({kinds[turn % 3], turn % 2 ? "s" : "", name_of(name, 'x'), "", h});
            pg.items.push_back({STR, "", "", name_of(name, 'n'), h});
            pg.items.push_back({-1, "", "", name_of(name, 'u'), h});
            Built b(pg);
            check_full(pg, b.text({}));
            turn++;
        }
        if (n <= 1100) {
            Page pg;
            for (size_t k = 0; k < n; k++) {
                std::string id = std::to_string(k);
                if (k % 3 == 0) pg.items.push_back({STR, "", "opt" + id, "", "help " + id});
                else if (k % 3 == 1) pg.items.push_back({INT, "", "", "pos" + id, "help " + id});
                else pg.items.push_back({-1, "", "", "extra" + id, "help " + id});
            }
            Built b(pg);
            check_full(pg, b.text({}));
        }
        // the error shows the whole argument
        Page pg;
        pg.items = {{STR, "s", "str", "", "help"}, {INT, "n", "num", "", "help"}, {INT, "", name_of(n + 1, 'x'), "", "help"}};
        const std::string v(n, 'v');
        const std::vector<std::pair<Args, std::string>> bad = {{{"--" + v + "z"}, "--" + v + "z"}, {{"-n", "5", "-z" + v}, "-z" + v}, {{"--" + bare(pg.items[2].l) + "=zz"}, bare(pg.items[2].l)}};
        for (auto& [a, at_fault] : bad) {
            Built b(pg);
            if (parse(*b.p, a, 0)) mc::fail("%s is accepted", show(a).substr(0, 200).c_str());
            auto ls = lines_of(b.text(a));
            if (ls.size() != 2 || ls[1].substr(0, 7) != "error: " || ls[1].find(at_fault) == std::string::npos) mc::fail("the error does not name %.100s of %zu characters: %.200s", at_fault.c_str(), at_fault.size(), ls.back().c_str());
        }
        mc::evaluations(12);
        mc::state(n);
    });
    mc::op("scale");
}
// Every text shows up as it was given, whatever it looks like.
void odd_texts() {
    static const std::vector<std::string> t{"x", "%", "%s", "%n%n", "100%d", "-", "--", "\"'\\", "a=b,c", "\t.", "[-h]x", "error:", "\xc3\xa9\xff\x80", "\x1b[1m", "Usage:", "=", ",", "0"};
    int N = int(t.size());
    int i = mc::choose(N), j = mc::choose(N);
    Page pg;
    pg.help = mc::flip();
    int where = mc::choose(4);
    if (where == 0) pg.about = t[i] + " " + t[j], pg.custom = t[j];
    else if (where == 1) pg.program = t[i], pg.custom = t[j];
    else if (where == 2) pg.custom = t[i] + " " + t[j], pg.no_argv = true;
    else pg.program = "/" + t[i] + "/" + t[j];
    std::string x = t[i] == "[-h]x" || t[i][0] == '-' ? "x" : t[i];
    pg.items = {{STR, "s", "str" + bare(t[i]), "", t[i] + " " + t[j] + " z"}, {INT, "", "", x, t[j]}, {BOOL, "b" + bare(t[j]), "", "", t[i]}, {-1, "", "", t[j], t[i] + " " + t[i]}};
    for (auto& it : pg.items) if (it.l.find('=') != std::string::npos) it.l = "str";
    mc::op("%s / %s at %d, help %d", t[i].c_str(), t[j].c_str(), where, pg.help);
    Built b(pg);
    std::string out = b.text({});
    check_full(pg, out);
    auto ul = lines_of(b.text({}, true));
    if (ul.size() != 1) mc::fail("usage_line() wrote %zu lines", ul.size());
    check_usage_line(pg, ul[0], out);
    // and in the error of a rejected parse
    if (!pg.help && where != 0) {
        Built r(pg);
        Args bad{"w", "--zz" + bare(t[i]) + "/" + bare(t[j])};
        if (bad[1].find('=') != std::string::npos) bad[1] = "--zz%s";
        Args num{t[j] == "0" ? "q" : "q" + t[j]};
        bool n = t[i].size() & 1;
        if (parse(*r.p, n ? num : bad, 0)) mc::fail("%s is accepted", show(n ? num : bad).c_str());
        auto ls = lines_of(r.text(n ? num : bad));
        if (ls.size() != 2 || ls[1].substr(0, 7) != "error: ") mc::fail("after a rejected parse usage is\n%s", r.text({}).c_str());
        check_usage_line(pg, ls[0], out);
        mc::state(mc::hash_str(ls[1]));
    }
    mc::state(mc::hash_str(out));
}
}  // namespace

void mc_register() {
    mc::add("one-entry", one_entry, 0, -1);
    mc::add("many-entries", many_entries, 0, 3);
    mc::add("odd-texts", odd_texts, 0, 3);
    mc::add("after-parse", after_parse, 0, 3);
    mc::add("scale", scale, 0, -1);
}

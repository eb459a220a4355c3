// Declarations, a real parser built from them, and the reference grammar.
#pragma once
#include <limits.h>
#include <memory>
#include <string>
#include <vector>
#include <amtl/experimental/am-argparser.h>
#include <mc/core.h>

namespace ac { struct Color; struct Size; }
namespace ke { namespace args {
template <> struct ValuePolicy<ac::Color> { static constexpr bool canOmitValue() { return true; } static bool consumeValue(const char* arg, ac::Color* out); };
template <> struct ValuePolicy<ac::Size> : public BaseValuePolicy { static bool consumeValue(const char* arg, ac::Size* out); };
}}
namespace ac {
using ke::Maybe;
using ke::Nothing;
using ke::Some;
using namespace ke::args;

// Value types and options of the user's own.  Color may omit its value, Size must not; both leave a mess behind when they
// reject a value.  Steps is an option class: up to three values, the word "stop" ends the parse.
struct Color { std::string name = "none"; bool operator!=(const Color& o) const { return name != o.name; } };
struct Size { int n = -1; bool operator!=(const Size& o) const { return n != o.n; } };
struct Steps : IOption {
    Steps(Parser& p, const char* s, const char* l, const char* help) : IOption(s, l, nullptr, help) { p.add(this); }
    std::vector<std::string> taken;
    bool consumeValue(const char* arg) override {
        if (!arg) mc::fail("an option that needs a value was given none");
        if (!*arg || *arg < 'a' || *arg > 'z') return false;
        taken.push_back(arg);
        return true;
    }
    bool haltOnValue() const override { return !taken.empty() && taken.back() == "stop"; }
    bool willRepeat() const override { return taken.size() < 3; }
    void reset() override { taken.clear(); }
};
inline std::string text(const Color& c) { return c.name; }
inline std::string text(const Size& z) { return std::to_string(z.n) + "x"; }
enum Kind { STR, INT, BOOL, ENABLE, TOGGLE, STOP, RSTR, RINT, COLOR, SIZE, VINT, RBOOL, RCOL, STEPS };
}
inline bool ke::args::ValuePolicy<ac::Color>::consumeValue(const char* arg, ac::Color* out) {
    out->name = arg ? "rejected" : "auto";
    if (arg && strcmp(arg, "red") && strcmp(arg, "-blue")) return false;
    if (arg) out->name = arg;
    return true;
}
inline bool ke::args::ValuePolicy<ac::Size>::consumeValue(const char* arg, ac::Size* out) {
    if (!arg) mc::fail("an option that needs a value was given none");
    out->n = int(strlen(arg));
    return !*arg || arg[strlen(arg) - 1] == 'x';
}
namespace ac {
struct Decl {
    Kind kind;
    const char* s;          // as declared: with or without dashes
    const char* l;
    const char* name;       // positional
    int def;                // -1: none; otherwise a default value (string "d<def>", number, truth value)
    const char* help = "help text";
};
struct Config {
    bool help, inl, slash, extra, pass;
    static Config of(int k) { return {!!(k & 1), !!(k & 2), !!(k & 4), !!(k & 8), !!(k & 16)}; }
    std::string str() const { return std::string(help ? "help " : "") + (inl ? "inline " : "") + (slash ? "slashes " : "") + (extra ? "extra " : "") + (pass ? "passthrough" : ""); }
};
typedef std::vector<std::string> Args;
inline std::string show(const Args& a) { std::string s; for (auto& x : a) s += "[" + x + "]"; return s; }

// --- the real thing ----------------------------------------------------------
struct Real {
    std::unique_ptr<Parser> p;
    std::vector<Decl> decls;
    std::vector<std::unique_ptr<IOption>> opts;
    Real(const std::vector<Decl>& ds, const Config& c, bool declare = true) : decls(ds) {
        p.reset(c.help ? new Parser("what it does") : new Parser());
        if (c.inl) p->enable_inline_values();
        if (c.slash) p->allow_slashes();
        if (c.extra) p->collect_extra_args();
        if (c.pass) p->allow_passthrough_args();
        if (!declare) return;
        for (const Decl& d : ds) opts.emplace_back(make(*p, d));
    }
    static IOption* make(Parser& p, const Decl& d) {
        switch (d.kind) {
            case STR: if (d.name) return new StringOption(p, d.name, d.help);
                      return new StringOption(p, d.s, d.l, d.def < 0 ? Maybe<std::string>() : Maybe<std::string>(Some("d" + std::to_string(d.def))), d.help);
            case INT: if (d.name) return new IntOption(p, d.name, d.help);
                      return new IntOption(p, d.s, d.l, d.def < 0 ? Maybe<int>() : Maybe<int>(Some(int(d.def))), d.help);
            case BOOL: if (d.name) return new Option<bool>(p, d.name, d.help);
                       return new Option<bool>(p, d.s, d.l, d.def < 0 ? Maybe<bool>() : Maybe<bool>(Some(bool(d.def))), d.help);
            case ENABLE: return new EnableOption(p, d.s, d.l, d.def > 0, d.help);
            case TOGGLE: return new ToggleOption(p, d.s, d.l, d.def < 0 ? Maybe<bool>() : Maybe<bool>(Some(bool(d.def))), d.help);
            case STOP: return new StopOption(p, d.s, d.l, d.def < 0 ? Maybe<bool>() : Maybe<bool>(Some(bool(d.def))), d.help);
            case RSTR: return new RepeatOption<std::string>(p, d.s, d.l, d.help);
            case RINT: return new RepeatOption<int>(p, d.s, d.l, d.help);
            case COLOR: if (d.name) return new Option<Color>(p, d.name, d.help);
                        return new Option<Color>(p, d.s, d.l, d.def < 0 ? Maybe<Color>() : Maybe<Color>(Some(Color{"d" + std::to_string(d.def)})), d.help);
            case SIZE: if (d.name) return new Option<Size>(p, d.name, d.help);
                       return new Option<Size>(p, d.s, d.l, d.def < 0 ? Maybe<Size>() : Maybe<Size>(Some(Size{d.def})), d.help);
            case VINT: return new VectorOption<int>(p, d.s, d.l, d.help);
            case RBOOL: return new RepeatOption<bool>(p, d.s, d.l, d.help);
            case RCOL: return new RepeatOption<Color>(p, d.s, d.l, d.help);
            case STEPS: return new Steps(p, d.s, d.l, d.help);
        }
        return nullptr;
    }
    template <class T> static std::string text(const T& v) { if constexpr (std::is_same_v<T, std::string>) return v; else if constexpr (std::is_class_v<T>) return ac::text(v); else return std::to_string(v); }
    template <class O> static std::string plain(IOption* o) {
        O* x = static_cast<O*>(o);
        auto m = x->maybeValue();
        if (m.isValid() != x->hasValue()) mc::fail("hasValue() is %d, maybeValue() %s", x->hasValue(), m.isValid() ? "valid" : "empty");
        if (!x->hasValue()) return "-";
        if (m.get() != x->value()) mc::fail("value() and maybeValue() differ");
        return text(x->value());
    }
    template <class O> static std::string list(IOption* o) {
        std::string s = "{";
        const O* x = static_cast<O*>(o);
        for (const auto& v : x->values()) s += text(v) + ",";
        return s + "}";
    }
    static std::string value(const Decl& d, IOption* o) {
        switch (d.kind) {
            case STR: return plain<StringOption>(o);
            case INT: return plain<IntOption>(o);
            case BOOL: return plain<Option<bool>>(o);
            case ENABLE: return std::to_string(static_cast<EnableOption*>(o)->value());
            case TOGGLE: case STOP: return std::to_string(static_cast<ToggleOption*>(o)->value());
            case RSTR: return list<RepeatOption<std::string>>(o);
            case RINT: return list<RepeatOption<int>>(o);
            case COLOR: return plain<Option<Color>>(o);
            case SIZE: return plain<Option<Size>>(o);
            case VINT: return list<VectorOption<int>>(o);
            case RBOOL: return list<RepeatOption<bool>>(o);
            case RCOL: return list<RepeatOption<Color>>(o);
            case STEPS: { std::string s = "{"; for (auto& v : static_cast<Steps*>(o)->taken) s += v + ","; return s + "}"; }
        }
        return "";
    }
    std::string snapshot() {
        std::string s;
        for (size_t k = 0; k < opts.size(); k++) s += value(decls[k], opts[k].get()) + ";";
        s += " extra";
        for (auto& x : p->extra_args()) s += "[" + x + "]";
        s += " pass";
        for (auto& x : p->passthrough_args()) s += "[" + x + "]";
        return s;
    }
};
// Arguments in heap blocks of their own, so that reading past one is seen.
struct Exact {
    std::vector<char*> v;
    explicit Exact(const Args& a, bool program = false) {
        if (program) v.push_back(strdup("prog"));
        for (auto& s : a) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); v.push_back(p); }
    }
    ~Exact() { for (char* p : v) free(p); }
    Exact(const Exact&) = delete;
};
constexpr int kEntries = 4;
inline bool parse(Parser& p, const Args& a, int entry) {
    bool r;
    if (entry == 0) {
        Exact x(a);
        std::vector<const char*> c(x.v.begin(), x.v.end());
        r = p.parse(c);
        for (size_t k = 0; k < a.size(); k++) if (a[k] != x.v[k]) mc::fail("an argument was modified");
    } else if (entry == 1) {
        Args copy = a;
        r = p.parse(copy);
        if (copy != a) mc::fail("an argument was modified");
    } else if (entry == 2) {
        Exact x(a, true);
        auto before = x.v;
        before.push_back(nullptr);
        x.v.push_back(nullptr);
        r = p.parse(int(a.size()) + 1, x.v.data());
        if (x.v != before || strcmp(x.v[0], "prog")) mc::fail("the argument vector was modified");
        for (size_t k = 0; k < a.size(); k++) if (a[k] != x.v[k + 1]) mc::fail("an argument was modified");
    } else {
        Exact x(a);
        auto& v = x.v;
        switch (v.size()) {
            case 0: r = p.parsev(nullptr); break;
            case 1: r = p.parsev(v[0], nullptr); break;
            case 2: r = p.parsev(v[0], v[1], nullptr); break;
            case 3: r = p.parsev(v[0], v[1], v[2], nullptr); break;
            case 4: r = p.parsev(v[0], v[1], v[2], v[3], nullptr); break;
            case 5: r = p.parsev(v[0], v[1], v[2], v[3], v[4], nullptr); break;
            case 6: r = p.parsev(v[0], v[1], v[2], v[3], v[4], v[5], nullptr); break;
            case 7: r = p.parsev(v[0], v[1], v[2], v[3], v[4], v[5], v[6], nullptr); break;
            default: mc::fail("too many arguments for the driver");
        }
    }
    return r;
}

// --- the grammar ------------------------------------------------------------
struct Result { bool ok = false, unspecified = false; std::string snapshot; };
struct Grammar {
    struct M { Decl d; std::string s, l; bool set = false; std::string v; int count = 0; };
    std::vector<M> opts;
    Config c;
    std::vector<size_t> named, flagged;
    bool help_set = false;
    Args extra, pass;
    Grammar(const std::vector<Decl>& ds, const Config& c) : c(c) {
        for (const Decl& d : ds) {
            M m{d, d.s ? d.s : "", d.l ? d.l : "", false, ""};
            if (!m.s.empty() && m.s[0] == '-') m.s.erase(0, 1);
            if (m.l.substr(0, 2) == "--") m.l.erase(0, 2);
            (d.name ? named : flagged).push_back(opts.size());
            opts.push_back(m);
        }
    }
    static constexpr size_t kNone = size_t(-1), kHelp = size_t(-2);
    size_t by_short(const std::string& k) const {
        if (k.empty()) return kNone;
        if (c.help && k == "h") return kHelp;
        for (size_t o : flagged) if (opts[o].s == k) return o;
        return kNone;
    }
    size_t by_long(const std::string& k) const {
        if (k.empty()) return kNone;
        if (c.help && k == "help") return kHelp;
        for (size_t o : flagged) if (opts[o].l == k) return o;
        return kNone;
    }
    static bool is_int(const std::string& v, std::string* out) {
        size_t i = !v.empty() && v[0] == '-';
        if (i == v.size()) return false;
        __int128 n = 0;
        for (size_t k = i; k < v.size(); k++) { if (v[k] < '0' || v[k] > '9') return false; n = n * 10 + (v[k] - '0'); if (n > (__int128(1) << 70)) return false; }
        if (i) n = -n;
        if (n < INT_MIN || n > INT_MAX) return false;
        *out = std::to_string(int(n));
        return true;
    }
    static bool is_bool(const std::string& v, std::string* out) {
        std::string s = v;
        for (char& ch : s) if (ch >= 'A' && ch <= 'Z') ch = char(ch + 32);
        if (s != "true" && s != "false") return false;
        *out = s == "true" ? "1" : "0";
        return true;
    }
    static bool is_list(Kind k) { return k == RSTR || k == RINT || k == VINT || k == RBOOL || k == RCOL || k == STEPS; }
    bool assign(M& m, const std::string& v) {        // false: not a value of this option
        std::string x;
        switch (m.d.kind) {
            case STR: case RSTR: if (v.empty()) return false; x = v; break;
            case INT: case RINT: case VINT: if (!is_int(v, &x)) return false; break;
            case BOOL: case RBOOL: if (!is_bool(v, &x)) return false; break;
            case COLOR: case RCOL: if (v != "red" && v != "-blue") return false; x = v; break;
            case SIZE: if (!v.empty() && v.back() != 'x') return false; x = std::to_string(v.size()) + "x"; break;
            case STEPS: if (v.empty() || v[0] < 'a' || v[0] > 'z') return false; x = v; m.count++; break;
            default: return false;
        }
        if (is_list(m.d.kind)) m.v += x + ","; else m.v = x;
        m.set = true;
        return true;
    }
    bool scan(const Args& a, bool* unspecified) {
        size_t pos = 0;
        bool stopped = false;
        for (size_t i = 0; i < a.size() && !stopped; i++) {
            const std::string& t = a[i];
            if (c.pass && t == "--") { pass.assign(a.begin() + i + 1, a.end()); break; }
            bool dash = !t.empty() && t[0] == '-', slash = c.slash && !t.empty() && t[0] == '/';
            if (!dash && !slash) {
                if (pos < named.size()) { if (!assign(opts[named[pos++]], t)) return false; }
                else if (c.extra) extra.push_back(t);
                else return false;
                continue;
            }
            bool dbl = t.substr(0, 2) == "--", has = false, negated = false;
            size_t cut = t.find_first_of(c.inl ? "=:" : "=");
            std::string key = t.substr(dbl ? 2 : 1), val;
            if (cut != std::string::npos && !(c.inl && cut + 1 == t.size())) {
                size_t from = dbl ? 2 : 1;
                key = cut >= from ? t.substr(from, cut - from) : "";
                val = t.substr(cut + 1);
                has = true;
            }
            size_t o = dbl ? by_long(key) : by_short(key);
            if (o == kNone && !dbl && c.inl && t.size() > 2) {       // -sN
                o = by_short(t.substr(1, 1));
                if (o != kNone) {
                    has = true;
                    val = t.substr(2);
                    if (val == "=" || val == ":") *unspecified = true;
                }
            }
            if (o == kNone && dbl && key.substr(0, 3) == "no-") {
                o = by_long(key.substr(3));
                if (o == kNone || o == kHelp || opts[o].d.kind != ENABLE) return false;
                negated = true;
            }
            if (o == kNone) return false;
            if (o == kHelp) { if (has || help_set) return false; help_set = true; stopped = true; continue; }
            M& m = opts[o];
            Kind k = m.d.kind;
            if (m.set && !is_list(k)) return false;
            if (m.count == 3) return false;
            if (k == ENABLE || k == TOGGLE || k == STOP) {
                if (has) return false;
                m.set = true;
                m.v = k == ENABLE ? (negated ? "0" : "1") : (m.d.def > 0 ? "0" : "1");
                stopped = k == STOP;
                continue;
            }
            if (has) { if (!assign(m, val)) return false; stopped = k == STEPS && val == "stop"; continue; }
            if (k == BOOL || k == COLOR) {
                if (i + 1 < a.size() && assign(m, a[i + 1])) i++;
                else { m.set = true; m.v = k == BOOL ? "1" : "auto"; }
                continue;
            }
            if (i + 1 == a.size() || !assign(m, a[++i])) return false;
            stopped = k == STEPS && a[i] == "stop";
        }
        if (!stopped && pos < named.size()) return false;
        return !help_set;
    }
    std::string snapshot() const {
        std::string s;
        for (const M& m : opts) {
            switch (m.d.kind) {
                case STR: s += m.set ? m.v : m.d.def >= 0 && !m.d.name ? "d" + std::to_string(m.d.def) : "-"; break;
                case INT: case BOOL: s += m.set ? m.v : m.d.def >= 0 && !m.d.name ? std::to_string(m.d.def) : "-"; break;
                case COLOR: s += m.set ? m.v : m.d.def >= 0 && !m.d.name ? "d" + std::to_string(m.d.def) : "-"; break;
                case SIZE: s += m.set ? m.v : m.d.def >= 0 && !m.d.name ? std::to_string(m.d.def) + "x" : "-"; break;
                case RSTR: case RINT: case VINT: case RBOOL: case RCOL: case STEPS: s += "{" + m.v + "}"; break;
                default: s += m.set ? m.v : m.d.def > 0 ? "1" : "0";
            }
            s += ";";
        }
        s += " extra";
        for (auto& x : extra) s += "[" + x + "]";
        s += " pass";
        for (auto& x : pass) s += "[" + x + "]";
        return s;
    }
};
inline Result expect(const std::vector<Decl>& ds, const Config& c, const Args& a) {
    Grammar g(ds, c);
    Result r;
    r.ok = g.scan(a, &r.unspecified);
    r.snapshot = g.snapshot();
    return r;
}

// --- option sets --------------------------------------------------------------
inline std::vector<Decl> set_of(int set, int positionals) {
    std::vector<Decl> d;
    if (set == 0) {
        d = {{STR, "s", "str", nullptr, -1}, {INT, "-n", "--num", nullptr, 7}, {BOOL, "b", "bool", nullptr, -1}, {ENABLE, "e", "enable", nullptr, 0},
             {TOGGLE, "t", "--tog", nullptr, 1}, {STOP, "-v", "version", nullptr, 0}, {RSTR, "i", "inc", nullptr, -1}, {RINT, "r", "rep", nullptr, -1}};
    } else if (set == 1) {      // overlapping names
        d = {{STR, "so", "s", nullptr, 3}, {STR, "s", "so", nullptr, -1}, {ENABLE, nullptr, "x", nullptr, 1}, {TOGGLE, nullptr, "no-y", nullptr, -1}, {ENABLE, "y", "y", nullptr, 0},
             {BOOL, nullptr, "flag", nullptr, 1}, {ENABLE, nullptr, "no-z", nullptr, 0}, {RSTR, "D", nullptr, nullptr, -1}, {INT, "O", nullptr, nullptr, -1}};
    }
    if (set == 2)               // the user's own
        d = {{COLOR, "c", "color", nullptr, -1}, {SIZE, "z", "size", nullptr, 3}, {VINT, "v", "--vec", nullptr, -1}, {RBOOL, "-q", "quiet", nullptr, -1}, {RCOL, "k", "colors", nullptr, -1},
             {STEPS, "p", "step", nullptr, -1}, {COLOR, nullptr, "paint", nullptr, 2}, {ENABLE, "e", "enable", nullptr, 0}};
    if (set == 2 && positionals) {
        static const Decl own[] = {{COLOR, nullptr, nullptr, "shade", -1}, {SIZE, nullptr, nullptr, "extent", -1}, {STR, nullptr, nullptr, "rest", -1}};
        d.insert(d.begin() + 2, own, own + positionals);
        return d;
    }
    static const Decl pos[] = {{STR, nullptr, nullptr, "first", -1}, {INT, nullptr, nullptr, "second", -1}, {BOOL, nullptr, nullptr, "third", -1}};
    for (int k = 0; k < positionals; k++) d.insert(d.begin() + (k == 1 ? 0 : d.size()), pos[k]);
    if (positionals == 3) std::swap(d[0], d[d.size() - 2]);
    // positional order is declaration order
    return d;
}
inline const std::vector<std::string>& tokens(int set) {
    static const std::vector<std::string> t0{"-s", "--str", "-s=x", "-s=", "--str=x", "--str=", "-sx", "-s:x", "-s:a=b", "-s=a:b", "--str:a=b", "--str:", "/s", "/s:x", "/sx", "/str", "-str", "--s", "x", "12", "-12", "0x", "010", "-",
        "--", "---", "", "/", "=", ":", "-=", "--=", "-:", "-b", "--bool", "true", "FALSE", "-b=True", "-b=zz", "--bool=", "--bool=false", "-bfalse", "-bz", "-e", "--enable", "--no-enable", "--no-enable=x", "--enable=true", "/e", "-e:1",
        "--no-str", "--no-zzz", "--no-", "--no", "--no-h", "--no-help", "-no-enable", "-t", "--tog", "-t=1", "--no-tog", "-tx", "-v", "--version", "-v=1", "-i", "-ix", "--inc=y", "--inc", "-i:=", "-r", "-r=5", "-r5", "-r-5", "-rz", "-r=",
        "-n", "--num", "--num=2147483647", "--num=2147483648", "--num=-2147483648", "--num=-2147483649", "--num=99999999999999999999", "--num=4294967303", "-n5", "-n:6", "-n=+", "--num=5x", "--num=", "2147483648", "-h", "--help", "--help=1", "-h:", "-hx", "/h", "/help", "-zz", "--zz", "-zz=1", "--zz=1", "--strx", "--st"};
    static const std::vector<std::string> t1{"-so", "--so", "-s", "--s", "-so=1", "-s=1", "-soo", "-so:1", "-s:1", "-sp", "/so", "/s", "/sox", "--so=q", "--s=q", "--x", "--no-x", "-x", "--no-y", "-y", "--y", "--no-no-y", "--no-z", "--no-no-z",
        "--flag", "--flag=false", "--flag=0", "true", "false", "--no-flag", "-D", "-DX=1", "-D:X=1", "-D=X=1", "-DX:1", "-D", "/DX", "-O", "-O2", "-O:2", "-O=2", "-O:", "-Ox", "-O-1", "3", "word", "--", "-h", "--help", "", "-f", "--f", "-q"};
    static const std::vector<std::string> t2{"-c", "--color", "--color=red", "--color=", "-c=blue", "-cred", "-c:-blue", "red", "-blue", "blue", "--no-color", "--paint", "--paint=red", "--paint=-blue", "/c", "-z", "--size", "--size=", "--size=abx", "--size=ab", "-z5x",
        "-z:x", "5x", "x", "", "-v", "--vec=5", "-v7", "--vec=", "-vx", "-q", "--quiet=true", "-qfalse", "--quiet=1", "true", "-k", "--colors=red", "-kred", "-k-blue", "--colors=pink", "-p", "--step=stop", "--step=go", "-pgo", "-pstop", "--step=9", "go", "stop", "--step=", "9",
        "--", "-e", "--no-enable", "-h"};
    return set == 2 ? t2 : set ? t1 : t0;
}
}  // namespace ac

// G02: every header on its own, in every order with every other, and in several sources of one program.
// The programs are enumerated, compiled against the headers of the tree, linked and run.
#include <dirent.h>
#include <mc/core.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

namespace {
// A header, and a small program that uses nothing but it.
struct Client { const char* header; const char* decls; const char* body; };
const Client kClients[] = {
    {"am-allocator-policies.h", "", "ke::SystemAllocatorPolicy p; void* m = p.am_malloc(3); p.am_free(m); return m == nullptr;"},
    {"am-arithmetic.h", "", "uint64_t a = 0, b = 0; uint32_t c = 0; return !ke::TryUint64Multiply(3, 4, &a) || !ke::TryUint32Add(3, 4, &c) || !ke::TryUint64Add(3, 4, &b) || a != 12 || b != 7 || c != 7;"},
    {"am-assert.h", "", "KE_RELEASE_ASSERT(true); return 0;"},
    {"am-bits.h", "", R"(int x = 0; int* p = &x;
        if (ke::Log2(uint32_t(4)) != 2 || ke::Log2(uint64_t(8)) != 3 || ke::FindLeftmostBit32(3) != 1 || ke::FindLeftmostBit64(3) != 1 || ke::FindRightmostBit(4) != 2) return 1;
        if (ke::IsPowerOfTwo(3) || ke::Align(3, 4) != 4 || !ke::IsUint32AddSafe(1, 2) || !ke::IsUint64AddSafe(1, 2) || !ke::IsUintPtrAddSafe(1, 2)) return 2;
        if (!ke::IsUint32MultiplySafe(1, 2) || !ke::IsUint64MultiplySafe(1, 2) || !ke::IsUintPtrMultiplySafe(1, 2) || !ke::IsAligned(p, 4)) return 3;
        p = ke::SetPointerBits(p, 1); if (ke::GetPointerBits<1>(p) != 1) return 4;
        return ke::ClearPointerBits<1>(p) != &x || ke::kMallocAlignment < sizeof(void*);)"},
    {"am-cxx.h", "", "return 0;"},
    {"am-deque.h", "", "std::deque<int> d{1, 2, 3}; int a = ke::PopBack(&d), b = ke::PopFront(&d); return a != 3 || b != 1 || d.size() != 1;"},
    {"am-enum.h", "enum class E : unsigned { a = 1, b = 2 }; KE_DEFINE_ENUM_OPERATORS(E) KE_DEFINE_ENUM_COMPARATORS(E, unsigned)",
     "E e = E::a | E::b; e &= E::b; e |= E::a; e ^= E::a; e = (e ^ E::a) & ~E::a; return e != 2u || !e || 2u != e || !(e == 2u);"},
    {"am-fixedarray.h", "", R"(ke::FixedArray<int> a(3); a[0] = a[1] = a.back() = 4; ke::FixedArray<int> b(a), c; c = b; c = ke::FixedArray<int>(1); b = std::move(c);
        std::vector<int> v{1, 2}; ke::FixedArray<int> d(v), e(std::move(v)); int sum = 0; for (int x : d) sum += x;
        return b.size() != 1 || sum != 3 || d != e || a.empty() || a.at(2) != 4 || !a.initialize() || a.buffer() != a.begin();)"},
    {"am-flags.h", "enum class F : unsigned { a = 1 };", "ke::Flags<F> f; f += F::a; f |= F::a; f -= F::a; f ^= F::a; f &= F::a; f = f + F::a; f = (f | f) & (f ^ ke::Flags<F>()); return f == F::a && !!f && !(f != F::a) ? 0 : 1;"},
    {"am-float.h", "", "return ke::IsNaN(1.0f) || ke::IsNaN(1.0) || ke::IsInfinite(2.0) || ke::IsInfinite(2.0f) || ke::FloatModulo(5.0, 3.0) != 2.0 || ke::FloatModulo(5.0f, 3.0f) != 2.0f;"},
    {"am-function.h", "", R"(long big[6] = {1, 2, 3, 4, 5, 6}; ke::Function<int(int)> f([](int x) { return x + 1; }), h([big](int x) { return int(big[5]) + x; }); ke::Function<int(int)> g(f), k(std::move(h));
        f = nullptr; h = k; f = std::move(h); k = [](int x) { return x; }; return g(3) != 4 || h || f(1) != 7 || k(2) != 2;)"},
    {"am-hashmap.h", "struct P { static uint32_t hash(int x) { return uint32_t(x) * 64; } static bool matches(int a, int b) { return a == b; } };",
     R"(ke::HashMap<int, int, P> m; if (!m.init()) return 1; auto i = m.findForAdd(3); m.add(i, 3, 4); i = m.findForAdd(5); m.add(i, 5); auto r = m.find(3); if (!r.found() || r->value != 4) return 2;
        m.remove(r); m.removeIfExists(6); int n = 0; for (auto it = m.iter(); !it.empty(); it.next()) n += it->key; ke::HashMap<int, int, P> o(std::move(m)); o.clear();
        int x; ke::HashMap<int*, int, ke::PointerPolicy<int>> pm; pm.init(); auto pi = pm.findForAdd(&x); pm.add(pi, &x, 1); return n != 5 || o.elements() || pm.elements() != 1 || !pm.find(&x).found();)"},
    {"am-hashset.h", "struct Q { static uint32_t hash(int x) { return uint32_t(x) * 64; } static bool matches(int a, int b) { return a == b; } };",
     R"(ke::HashSet<int, Q> s; s.init(); s.add(3); auto i = s.findForAdd(5); s.add(i, 5); s.removeIfExists(3); auto r = s.find(5); if (!r.found()) return 1; s.remove(r); s.add(4); int n = 0;
        for (auto it = s.iter(); !it.empty(); it.next()) n += *it; ke::HashSet<int, Q> o(std::move(s)); return !o.has(4) || o.has(3) || n != 4 || o.elements() != 1;)"},
    {"am-hashtable.h", "", R"(ke::CharacterStreamHasher h; h.add('a'); h.add("b", 1);
        return h.result() != ke::HashCharSequence("ab", 2) || ke::FastHashCharSequence("ab", 2) == ke::FastHashCharSequence("ba", 2) || ke::HashInt32(1) == ke::HashInt32(2) || ke::HashInt64(1) == ke::HashInt64(2) ||
               ke::HashInteger<4>(1) == ke::HashInteger<4>(2) || ke::HashInteger<8>(1) == ke::HashInteger<8>(2) || ke::HashPointer(&h) == ke::HashPointer(&h + 1) || ke::HashCombine(1, 2) != ke::HashCombine(1, 2);)"},
    {"am-inlinelist.h", "struct N : ke::InlineListNode<N> {};", R"(ke::InlineList<N> l; N n, o; l.append(&n); l.append(&o); int k = 0; for (auto i = l.begin(); i != l.end(); i++) k++; for (auto i = l.rbegin(); i != l.rend(); ++i) k++;
        l.remove(&n); auto i = l.begin(); l.erase(i); return k != 4 || !l.empty() || n.isInList();)"},
    {"am-linking.h", "", "return 0;"},
    {"am-maybe.h", "", R"(ke::Maybe<int> m; m.init(3); if (m.get() != 3) return 1; m = ke::Some(4); if (*m != 4 || !m) return 2; ke::Maybe<int> o(m), p(std::move(o)); o = p; o = std::move(p);
        m = ke::Nothing(); return m.isValid() || o.get() != 4;)"},
    {"am-mutex.h", "", "ke::Mutex m; m.lock(); m.AssertCurrentThreadOwns(); m.unlock(); if (!m.try_lock()) return 1; m.unlock(); return 0;"},
    {"am-platform.h", "", "return 0;"},
    {"am-priority-queue.h", "", "ke::PriorityQueue<int> q; q.add(3); q.emplace(4); int a = q.peek(); int b = q.pop(); ke::PriorityQueue<int> r(std::move(q)); return a != b || r.empty();"},
    {"am-raii.h", "struct L : ke::StackLinked<L> { L(L** p) : ke::StackLinked<L>(p) {} };",
     "L* h = nullptr; int x = 3, n = 0; { L l(&h); ke::SaveAndSet<int> s(&x, 4); auto g = ke::MakeScopeGuard([&n] { n++; }); } return h || x != 3 || n != 1 || ke::ReturnAndVoid(x) != 3;"},
    {"am-refcounting.h", "struct O : ke::Refcounted<O> {}; struct V : ke::VirtualRefcounted {};",
     "ke::RefPtr<O> o(new O); ke::RefPtr<V> v = new V, w(v); w = std::move(v); ke::RefPtr<O> p = o.take(); o = ke::AdoptRef<O>(nullptr); return o.get() || v || !w || !p;"},
    {"am-refcounting-threadsafe.h", "struct O : ke::RefcountedThreadsafe<O> {}; struct V : ke::VirtualRefcountedThreadsafe {};",
     "ke::AtomicRef<V> a, b(new V); a = new V; ke::RefPtr<V> v = a.get(); ke::RefPtr<O> o = new O; a = v; return !v.get() || !b.get();"},
    {"am-storagebuffer.h", "", "ke::StorageBuffer<int> b; const ke::StorageBuffer<int>& c = b; return !b.address() || c.address() != b.address();"},
    {"am-string.h", "static size_t va(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); size_t r = ke::SafeVsprintf(b, n, f, ap); va_end(ap); return r; }",
     R"(char b[9]; ke::SafeSprintf(b, 9, "%d", 3); ke::SafeStrcat(b, 9, "a"); if (strcmp(b, "3a") || va(b, 9, "%s", "x") != 1 || ke::SafeStrcpy(b, 9, "abc") != 3 || ke::SafeStrcpyN(b, 9, "abc", 2) != 2) return 1;
        auto v = ke::Split("a b", " "); if (v.size() != 2 || ke::Join(v, "-") != "a-b" || ke::Split(std::string("a"), " ").size() != 1 || ke::Uppercase("a") != "A" || ke::Lowercase("A") != "a") return 2;
        return ke::StringPrintf("%d", 4) != "4" || strcmp(ke::Sprintf("%d", 5).get(), "5") || !ke::StartsWith("ab", "a") || !ke::StartsWith(std::string("ab"), "a") || !ke::EndsWith("ab", "b") || !ke::StrCaseCmp("a", "b") ||
               ke::StringPrintf("%" KE_FMT_SIZET, size_t(7)) != "7";)"},
    {"am-thread.h", "", "int n = 0; auto t = ke::NewThread(\"a\", [&n](int k) { n = k; }, 3); t->join(); return n != 3;"},
    {"am-threadlocal.h", "static ke::ThreadLocal<int> t;", "t = 3; t.set(t.get() + 1); ke::ThreadLocal<int*> p; int x = 5; p = &x; return t.get() != 4 || *t != 4 || !t || t != 4 || *p.get() != 5 || !(t == 4);"},
    {"am-time.h", "", R"(
#if __cplusplus >= 201703L
        timespec ts = {1, 5}; struct tm tm = {}; tm.tm_year = 100; tm.tm_mday = 1; using C = std::chrono::system_clock;
        if (ke::TimespecToDuration(ts).count() != 1000000005 || ke::TimespecToTimePoint<C>(ts).time_since_epoch().count() != 1000000005) return 1;
        if (ke::FormatTime(tm, "%Y") != "2000" || ke::FormatTime(tm, std::string("%Y")) != "2000" || ke::EpochValueToTimePoint<C::time_point>(5).time_since_epoch().count() != 5) return 2;
#endif
        return 0;)"},
    {"am-unused.h", "", "int n = 0; ke::Unused() << ++n; return n != 1;"},
    {"am-utility.h", "struct Z { int a, b; };", R"(Z z = {1, 2}; ke::MemsetZero(&z); int n = 7, arr[3]; ke::MemsetZero(&n);
        return z.a || z.b || n || ARRAY_LENGTH(arr) != 3 || !IS_ALIGNED(&n, 4) || KE_CRITICAL_LIKELY(false) || ke::cast_to_pointer<int*>::cast(&n) != &n || ke::cast_to_pointer<uintptr_t>::cast(uintptr_t(&n)) != &n;)"},
    {"am-vector.h", "", R"(std::vector<int> d{1, 2}, e; int a = ke::PopBack(&d); ke::MoveExtend(&e, &d); ke::InsertAt(&e, 0, 4); ke::InsertAt(&e, 0, a); ke::EmplaceAt(&e, 1, 6); ke::RemoveAt(&e, 1); ke::EraseIf(&e, [](int x) { return x == 4; });
        return a != 2 || e.size() != 2;)"},
    {"experimental/am-argparser.h", "", R"(using namespace ke::args; Parser p("x"); IntOption o(p, "a", "aa", ke::Some(3), "h"); ToggleOption t(p, "t", "tt", ke::Some(false), "h"); EnableOption e(p, "e", "ee", false, "h");
        RepeatOption<std::string> r(p, "r", "rr", "h"); if (!p.parsev("-a", "4", "-r", "q", nullptr) || o.value() != 4 || r.values().size() != 1) return 1; char prog[] = "x"; char* argv[] = {prog, nullptr};
        FILE* f = fopen("/dev/null", "w"); p.usage(f, 1, argv); fclose(f); p.reset(); return o.value() != 3;)"},
    {"os/am-fsutil.h", "", "return !ke::file::IsDirectory(\"/\") || ke::file::IsFile(\"/\") || !ke::file::PathExists(\"/\") || ke::file::CreateDirectory(\"/\", 0755);"},
    {"os/am-path.h", "", "char b[9]; ke::path::Format(b, 9, \"a\"); return b[0] != 'a';"},
    {"os/am-shared-library.h", "", R"(char b[99]; ke::RefPtr<ke::SharedLib> l = ke::SharedLib::Open("/nonexistent.so", b, sizeof b), m = ke::SharedLib::Open("libc.so.6"); return l.get() || !m.get() || !m->lookup("abs") || m->get<int (*)(int)>("abs")(-3) != 3;)"},
    {"os/am-system-errors.h", "", "char b[40]; ke::FormatSystemErrorCode(2, b, sizeof b); ke::FormatSystemError(b, sizeof b); return !b[0];"},
};
constexpr int kN = sizeof kClients / sizeof *kClients;

std::string repo() { const char* r = getenv("AMTL_REPO"); return r ? r : "/repo"; }

struct Scratch {
    std::string dir;
    Scratch() {
        char t[] = "/tmp/g02.XXXXXX";
        if (!mkdtemp(t)) mc::fail("driver: mkdtemp");
        dir = t;
    }
    ~Scratch() {
        if (DIR* d = opendir(dir.c_str())) {
            while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str());
            closedir(d);
        }
        rmdir(dir.c_str());
    }
    std::string path(const std::string& n) const { return dir + "/" + n; }
    // The exit status, and what it printed.
    int run(const std::string& cmd, std::string* out) const {
        int st = system((cmd + " >" + path("out") + " 2>&1 </dev/null").c_str());
        std::ifstream f(path("out"));
        std::stringstream s;
        s << f.rdbuf();
        *out = s.str();
        return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
    }
};
std::string first_error(const std::string& out) {
    std::istringstream s(out);
    for (std::string l; std::getline(s, l);)
        if (l.find("error") != std::string::npos || l.find("multiple definition") != std::string::npos || l.find("undefined") != std::string::npos) return l;
    return out.substr(0, 200);
}
// One source that includes these headers in this order, and its clients.
std::string source(const std::vector<int>& hs, int unit) {
    std::string s, calls;
    for (int h : hs) s += std::string("#include <amtl/") + kClients[h].header + ">\n";
    for (size_t k = 0; k < hs.size(); k++) {
        std::string id = std::to_string(k);
        s += "namespace client" + id + " { namespace {\n" + kClients[hs[k]].decls + "\nint run() { " + kClients[hs[k]].body + " }\n} }\n";
        calls += "if (client" + id + "::run()) return " + std::to_string(k + 1) + ";\n";
    }
    s += "int unit_" + std::to_string(unit) + "() {\n" + calls + "return 0; }\n";
    if (unit == 0) s += "int unit_1(); int main() { if (int r = unit_0()) return r; if (int r = unit_1()) return r; return 0; }\n";
    return s;
}
struct Build { int std; bool release; bool clang; const char* extra; };
std::string flags(const Build& b) {
    return std::string(b.clang ? "clang++" : "g++") + " -std=c++" + std::to_string(b.std) + " -O0 -w -fpermissive -I" + repo() +
           " -D_LINUX -DPOSIX -D_vsnprintf=vsnprintf -Dstricmp=strcasecmp " + (b.release ? "-DNDEBUG " : "-DDEBUG -D_DEBUG ") + b.extra;
}
std::string names(const std::vector<int>& hs) {
    std::string s;
    for (int h : hs) s += (s.empty() ? "" : " ") + std::string(kClients[h].header);
    return hs.size() > 3 ? std::to_string(hs.size()) + " headers, " + kClients[hs[0]].header + " first" : s;
}
bool uses_parser(const std::vector<int>& hs) { for (int h : hs) if (strstr(kClients[h].header, "argparser")) return true; return false; }
void compile(const Scratch& d, const Build& b, const std::string& src, const std::string& obj, const std::string& what, bool only_check = false) {
    std::string out;
    mc::transitions(1);
    if (d.run(flags(b) + (only_check ? "-fsyntax-only " : "-c -o " + obj + " ") + src, &out))
        mc::fail("a source that includes %s does not compile: %s", what.c_str(), first_error(out).c_str());
}
// Two sources that include first / second are one program that works.
void program(const Build& b, const std::vector<int>& first, const std::vector<int>& second) {
    Scratch d;
    const std::vector<int>* hs[] = {&first, &second};
    mc::op("two sources, c++%d%s%s%s%s: %s / %s", b.std, b.release ? ", release" : "", b.clang ? ", clang" : "", *b.extra ? ", " : "", b.extra, names(first).c_str(), names(second).c_str());
    std::string objs, out;
    for (int u = 0; u < 2; u++) {
        std::string base = d.path("u" + std::to_string(u));
        std::ofstream(base + ".cpp") << source(*hs[u], u);
        compile(d, b, base + ".cpp", base + ".o", names(*hs[u]));
        objs += " " + base + ".o";
    }
    if (uses_parser(first) || uses_parser(second)) {
        compile(d, b, repo() + "/amtl/experimental/am-argparser.cpp", d.path("p.o"), "(am-argparser.cpp)");
        objs += " " + d.path("p.o");
    }
    mc::transitions(1);
    if (d.run((b.clang ? "clang++ -o " : "g++ -o ") + d.path("prog") + objs + " -pthread -ldl", &out))
        mc::fail("two sources that include %s cannot be linked: %s", names(second).c_str(), first_error(out).c_str());
    int r = d.run(d.path("prog"), &out);
    mc::state(mc::hash_str(names(first) + "/" + names(second) + b.extra, b.std * 4 + b.release * 2 + b.clang));
    if (r) mc::fail("the program of two sources that include %s ended with %d: %s", names(second).c_str(), r, out.substr(0, 200).c_str());
}
// Debug and release; then what the documentation offers: the STL's version of what an intrinsic does
// (KE_ALLOW_STD_CXX), and no run-time type information or exceptions; then the other languages and the other compiler.
const Build kBuilds[] = {{17, false, false, ""}, {17, true, false, "-DKE_ALLOW_STD_CXX -fno-rtti -fno-exceptions "}, {14, true, false, ""}, {17, false, true, ""}, {20, false, false, ""},
                         {17, true, false, ""}, {14, false, false, "-DKE_ALLOW_STD_CXX "}, {17, true, true, "-DKE_ALLOW_STD_CXX -fno-rtti -fno-exceptions "}, {17, false, false, "-DKE_SINGLE_THREADED "}};
constexpr int kB = sizeof kBuilds / sizeof *kBuilds;
}  // namespace

void mc_register() {
    mc::add("alone", [] {
        int h = mc::choose(kN);
        program(kBuilds[mc::choose(mc::thorough() ? kB : 2)], {h}, {h});
    }, 0, 2);
    mc::add("all", [] {
        Build b = kBuilds[mc::thorough() ? mc::choose(kB) : 0];
        int from = mc::thorough() ? 3 * mc::choose(kN / 3) : 0;
        bool back = mc::flip();
        std::vector<int> first, second;
        for (int k = 0; k < kN; k++) first.push_back((from + k) % kN);
        second = first;
        if (back) second.assign(first.rbegin(), first.rend());
        program(b, first, second);
    }, 0, 3);
    // Every ordered pair, in one source.
    if (mc::thorough()) mc::add("pairs", [] {
        int i = mc::choose(kN), j = mc::choose(kN);
        Build b = kBuilds[0];
        Scratch d;
        mc::op("one source: %s, %s", kClients[i].header, kClients[j].header);
        std::ofstream(d.path("u.cpp")) << source({i, j}, 1);
        compile(d, b, d.path("u.cpp"), "", names({i, j}), true);
        mc::state(uint64_t(i) * kN + j);
    }, 0, 2);
}

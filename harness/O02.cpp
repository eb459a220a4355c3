// O02: file-system queries report what is really there.  Everything happens below a scratch directory, through
// relative paths, as an unprivileged user where the process may become one.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/un.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include <amtl/os/am-fsutil.h>
#include <mc/core.h>

namespace {
const uid_t kNobody = 65534;
std::string g_base;

void wipe(const std::string& d, bool self) {       // d is always below g_base
    chmod(d.c_str(), 0700);
    std::vector<std::pair<std::string, bool>> names;
    if (DIR* h = opendir(d.c_str())) {
        while (dirent* e = readdir(h)) {
            std::string n = e->d_name;
            struct stat s;
            if (n != "." && n != ".." && !lstat((d + "/" + n).c_str(), &s)) names.push_back({d + "/" + n, S_ISDIR(s.st_mode)});
        }
        closedir(h);
    }
    for (auto& [n, dir] : names) dir ? wipe(n, true) : (void)unlink(n.c_str());
    if (self) rmdir(d.c_str());
}
// A fresh empty scratch directory that is the working directory; unprivileged inside.
struct Scratch {
    bool user;
    explicit Scratch(bool want_user) : user(false) {
        const char* s = getenv("MC_SCRATCH");
        g_base = std::string(s ? s : "/tmp") + "/O02." + std::to_string(getpid());
        if (setresuid(0, 0, 0)) {}
        wipe(g_base, false);
        mkdir(g_base.c_str(), 0755);
        umask(022);
        if (chdir(g_base.c_str())) mc::fail("no scratch directory %s", g_base.c_str());
        if (want_user && !geteuid() && !chown(".", kNobody, kNobody) && !setresuid(kNobody, kNobody, 0)) user = true;
    }
    ~Scratch() {
        if (user && setresuid(0, 0, 0)) {}
        umask(022);
        if (chdir("/")) {}
        wipe(g_base, true);
    }
};
void make_file(const char* p, int mode = 0644) { int fd = open(p, O_CREAT | O_WRONLY | O_EXCL, mode); if (fd >= 0) close(fd); chmod(p, mode); }
void make_socket(const char* p) {
    int fd = socket(AF_UNIX, SOCK_STREAM, 0);
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    strcpy(a.sun_path, p);
    if (bind(fd, (sockaddr*)&a, sizeof a)) {}
    close(fd);
}
enum Kind { kAbsent, kFile, kDir, kOther };
const char* kKinds[] = {"absent", "a file", "a directory", "a special file"};
void query(const std::string& p, Kind k) {
    bool e = ke::file::PathExists(p.c_str()), f = ke::file::IsFile(p.c_str()), d = ke::file::IsDirectory(p.c_str());
    std::string shown = p.size() > 80 ? p.substr(0, 80) + "..." : p;
    if (e != (k != kAbsent)) mc::fail("PathExists(\"%s\") is %d; it is %s", shown.c_str(), e, kKinds[k]);
    if (f != (k == kFile)) mc::fail("IsFile(\"%s\") is %d; it is %s", shown.c_str(), f, kKinds[k]);
    if (d != (k == kDir)) mc::fail("IsDirectory(\"%s\") is %d; it is %s", shown.c_str(), d, kKinds[k]);
    mc::evaluations(3);
}
// Every kind of entry under every spelling.
void kinds() {
    bool as_user = mc::flip();
    Scratch s(as_user);
    mc::op("every kind, as %s", s.user ? "an unprivileged user" : "the current user");
    umask(0);
    mkdir("d", 0755); mkdir("d/sub", 0755); make_file("d/file"); mkdir("empty", 0755);
    for (int m : {0, 0100, 0200, 0400, 0644, 0777, 07777}) { make_file(("f" + std::to_string(m)).c_str(), m); mkdir(("p" + std::to_string(m)).c_str(), 0755); make_file(("p" + std::to_string(m) + "/in").c_str()); mkdir(("p" + std::to_string(m) + "/indir").c_str(), 0755); chmod(("p" + std::to_string(m)).c_str(), m); }
    if (mkfifo("fifo", 0644)) {}
    make_socket("sock");
    auto link = [](const char* to, const char* name) { if (symlink(to, name)) {} };
    link("f420", "lf"); link("d", "ld"); link("nowhere", "dangling"); link("loop2", "loop1"); link("loop1", "loop2"); link("self", "self");
    link("lf", "llf"); link("ld", "lld"); link("dangling", "ldangling"); link("fifo", "lfifo"); link("sock", "lsock"); link("d/file", "ldf"); link("../f420", "d/up");
    link("/dev/null", "lnull"); link(".", "here"); link("d/sub/../file", "zigzag");
    std::map<std::string, Kind> flat{{"d", kDir}, {"d/sub", kDir}, {"d/file", kFile}, {"empty", kDir}, {"fifo", kOther}, {"sock", kOther}, {"lf", kFile}, {"ld", kDir},
        {"dangling", kAbsent}, {"loop1", kAbsent}, {"loop2", kAbsent}, {"self", kAbsent}, {"llf", kFile}, {"lld", kDir}, {"ldangling", kAbsent}, {"lfifo", kOther}, {"lsock", kOther},
        {"ldf", kFile}, {"d/up", kFile}, {"ld/file", kFile}, {"lld/sub", kDir}, {"ld/up", kFile}, {"lnull", kOther}, {"here", kDir}, {"zigzag", kFile}, {"nothing", kAbsent}, {"nothing/x", kAbsent},
        {"d/none", kAbsent}, {"f420/x", kAbsent}, {"lf/x", kAbsent}, {"fifo/x", kAbsent}, {"dangling/x", kAbsent}, {"D", kAbsent}, {"d/FILE", kAbsent}, {"d/fil", kAbsent}, {"d/file2", kAbsent}};
    for (int m : {0, 0100, 0200, 0400, 0644, 0777, 07777}) {
        std::string n = std::to_string(m);
        flat["f" + n] = kFile;
        flat["p" + n] = kDir;
        bool enter = !s.user ? geteuid() == 0 || (m & 0100) : (m & 0100);
        flat["p" + n + "/in"] = enter ? kFile : kAbsent;
        flat["p" + n + "/indir"] = enter ? kDir : kAbsent;
        flat["p" + n + "/none"] = kAbsent;
    }
    for (auto& [p, k] : flat) {
        query(p, k);
        query("./" + p, k);
        query(".//./" + p, k);
        query("d/../" + p, k);
        query("here/here/" + p, k);
        query("nothing/../" + p, kAbsent);
        query("f420/../" + p, kAbsent);
        if (!s.user) query(g_base + "/" + p, k);
        query(p + "/", k == kDir ? kDir : kAbsent);     // a trailing slash asks for a directory
        bool enter = k == kDir && !(p[0] == 'p' && (s.user || geteuid()) && !(atoi(p.c_str() + 1) & 0100) && p.find('/') == std::string::npos);
        query(p + "/.", enter ? kDir : kAbsent);
        query(p + " ", kAbsent);
        query(" " + p, kAbsent);
        mc::state(mc::hash_str(p, k));
    }
    query("", kAbsent);
    query(".", kDir);
    query("..", kDir);
    query("/", kDir);
    query("//", kDir);
    for (int n : {254, 255, 256, 257, 1000}) query(std::string(n, 'n'), kAbsent);
    std::string longname(255, 'L');
    make_file(longname.c_str());
    query(longname, kFile);
    query(longname + "L", kAbsent);
    std::string deep;
    while (deep.size() < 5000) { deep += "./"; if (deep.size() + 1 < PATH_MAX) query(deep + "d", kDir); else if (deep.size() + 1 > PATH_MAX) query(deep + "d", kAbsent); }
    for (int c = 1; c < 256; c++) if (c != '/' && c != '.') {
        std::string n = std::string("q") + char(c);
        query(n, kAbsent);
        make_file(n.c_str());
        query(n, kFile);
        unlink(n.c_str());
        query(n, kAbsent);
    }
}
std::map<std::string, Kind> listing(const std::string& d) {
    std::map<std::string, Kind> m;
    if (DIR* h = opendir(d.c_str())) {
        while (dirent* e = readdir(h)) {
            std::string n = e->d_name;
            struct stat s;
            if (n == "." || n == ".." || lstat((d + "/" + n).c_str(), &s)) continue;
            m[n] = S_ISREG(s.st_mode) ? kFile : S_ISDIR(s.st_mode) ? kDir : kOther;
        }
        closedir(h);
    }
    return m;
}
// Every mode under several process masks.
void modes() {
    Scratch s(true);
    std::vector<mode_t> masks{0, 022, 027, 077, 0777, 0111, 0200, 0400};
    uint64_t lo, hi;
    mc::slice(02001, &lo, &hi);     // with the sticky bit; the last stands for the default
    for (uint64_t mode = lo; mode < hi; mode++)
        for (mode_t mask : masks) {
            umask(mask);
            bool dflt = mode == 02000;
            if (!(dflt ? ke::file::CreateDirectory("new") : ke::file::CreateDirectory("new", unsigned(mode)))) mc::fail("CreateDirectory(mode %o, mask %o) failed", unsigned(mode), mask);
            struct stat st;
            mode_t want = (dflt ? 0755 : mode) & ~mask;
            if (lstat("new", &st) || !S_ISDIR(st.st_mode) || (st.st_mode & 01777) != want) mc::fail("directory of mode %o under mask %o has mode %o", unsigned(mode), mask, st.st_mode & 07777);
            if (umask(mask) != mask) mc::fail("the process mask changed");
            umask(0);
            if (ke::file::CreateDirectory("new", 0700)) mc::fail("an existing directory was created again");
            if (lstat("new", &st) || (st.st_mode & 01777) != want) mc::fail("an existing directory changed its mode");
            auto l = listing(".");
            if (l.size() != 1) mc::fail("%zu entries instead of one", l.size());
            rmdir("new");
            mc::evaluations(1);
        }
    mc::op("modes %d..%d", int(lo), int(hi));
}
// Histories of creation, removal and queries over a small tree, compared with a model of it.
struct Tree {
    std::map<std::string, std::pair<Kind, int>> at;    // path -> kind, mode (directories)
    bool has(const std::string& p) const { return at.count(p); }
    Kind kind(const std::string& p) const { auto i = at.find(p); return i == at.end() ? kAbsent : i->second.first; }
    // search permission on every directory above
    bool reach(const std::string& p, bool user) const {
        for (size_t k = p.find('/'); k != std::string::npos; k = p.find('/', k + 1)) {
            auto i = at.find(p.substr(0, k));
            if (i == at.end() || i->second.first != kDir || (user && !(i->second.second & 0100))) return false;
        }
        return true;
    }
};
const char* kPaths[] = {"a", "a/b", "a/b/c", "f", "f/x"};
void histories() {
    bool as_user = mc::flip();
    Scratch s(as_user);
    Tree t;
    for (int d = 0; d < (mc::thorough() ? 5 : 3); d++) {
        int k = mc::choose(13);
        std::string p = kPaths[k % 5];
        if (k < 5) {
            int mode = mc::flip() ? 0755 : 0500;
            bool par = p.find('/') == std::string::npos;
            std::string up = par ? "" : p.substr(0, p.rfind('/'));
            bool ok = t.reach(p, s.user) && !t.has(p) && (par || !s.user || (t.at[up].second & 0200));
            if (!par && !t.reach(p, s.user)) ok = false;
            bool got = ke::file::CreateDirectory(p.c_str(), mode);
            mc::op("CreateDirectory(%s, %o) = %d", p.c_str(), mode, got);
            if (got != ok) mc::fail("CreateDirectory(%s) is %d", p.c_str(), got);
            if (ok) t.at[p] = {kDir, mode};
        } else if (k < 10) {      // removal behind the library's back
            if (!t.has(p) || (rmdir(p.c_str()) && unlink(p.c_str()))) mc::prune();
            mc::op("remove %s", p.c_str());
            t.at.erase(p);
        } else if (k == 10) {
            if (t.has("f")) mc::prune();
            mc::op("make file f");
            make_file("f");
            t.at["f"] = {kFile, 0};
        } else if (k == 11) {
            if (t.kind("a") != kDir) mc::prune();
            int m = mc::choose(3);
            m = m == 0 ? 0 : m == 1 ? 0400 : 0700;
            mc::op("chmod a %o", m);
            chmod("a", m);
            t.at["a"].second = m;
        } else {
            if (t.has("f")) mc::prune();
            mc::op("make fifo f");
            if (mkfifo("f", 0600)) mc::prune();
            t.at["f"] = {kOther, 0};
        }
        uint64_t h = s.user;
        for (auto p : kPaths) { Kind want = t.reach(p, s.user) ? t.kind(p) : kAbsent; query(p, want); h = mc::mix(h, want); }
        for (auto& [p, x] : t.at) h = mc::mix(mc::hash_str(p, h), x.second);
        mc::state(h);
    }
    // nothing else appeared
    if (setresuid(0, 0, 0)) {}
    std::map<std::string, Kind> want, got;
    for (auto& [p, x] : t.at) want[p] = x.first;
    std::vector<std::string> todo{"."};
    while (!todo.empty()) {
        std::string d = todo.back();
        todo.pop_back();
        for (auto& [n, k] : listing(d)) { std::string q = d == "." ? n : d + "/" + n; got[q] = k; if (k == kDir) todo.push_back(q); }
    }
    if (got != want) mc::fail("the tree holds %zu entries, not the %zu expected", got.size(), want.size());
}
// Creation over entries of every kind, which must stay as they are.
void creations() {
    bool as_user = mc::flip();
    Scratch s(as_user);
    mkdir("d", 0755); make_file("d/keep"); make_file("f"); if (mkfifo("p", 0600)) {}
    for (auto [to, n] : {std::pair("f", "lf"), {"d", "ld"}, {"nowhere", "dangling"}, {"loop", "loop"}}) if (symlink(to, n)) {}
    mkdir("ro", 0755); make_file("ro/in"); chmod("ro", 0555);
    auto before = listing(".");
    struct { const char* p; bool ok; } cases[] = {{"d", false}, {"d/", false}, {"d/keep", false}, {"d/keep/x", false}, {"f", false}, {"f/x", false}, {"p", false}, {"p/x", false}, {"lf", false}, {"ld", false}, {"dangling", false},
        {"dangling/x", false}, {"loop", false}, {"loop/x", false}, {"", false}, {".", false}, {"..", false}, {"none/x", false}, {"none/x/y", false}, {"ro/x", !s.user && !geteuid()}, {"ro/in", false},
        {"ld/new1", true}, {"d/new2", true}, {"new3", true}, {"new4/", true}, {"./new5", true}, {"d/../new6", true}, {"new 7", true}, {"new\xff", true}};
    for (auto& c : cases) {
        bool got = ke::file::CreateDirectory(c.p);
        mc::op("CreateDirectory(\"%s\") = %d", c.p, got);
        if (got != c.ok) mc::fail("CreateDirectory(\"%s\") is %d", c.p, got);
        if (c.ok) query(c.p, kDir);
    }
    std::string l255(255, 'x'), l256(256, 'x');
    if (!ke::file::CreateDirectory(l255.c_str()) || ke::file::CreateDirectory(l256.c_str())) mc::fail("name length limits");
    rmdir(l255.c_str());
    auto now = listing(".");
    for (auto n : {"new3", "new4", "new5", "new6", "new 7", "new\xff"}) { if (now[n] != kDir) mc::fail("%s is missing", n); now.erase(n); }
    if (now != before) mc::fail("existing entries changed");
    auto in = listing("d");
    if (in.size() != 3 || in["keep"] != kFile || in["new1"] != kDir || in["new2"] != kDir) mc::fail("the contents of d changed");
    struct stat st;
    if (stat("d", &st) || (st.st_mode & 0777) != 0755 || stat("f", &st) || st.st_size) mc::fail("existing entries changed");
    query("dangling", kAbsent);
}
}  // namespace

void mc_register() {
    mc::add("kinds", kinds, 0, 1);
    mc::add("modes", modes, 0, -1);
    mc::add("creations", creations, 0, 1);
    mc::add("histories", histories, 0, 2);
}

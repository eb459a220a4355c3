// U02: the headers on a 32-bit machine.  harness/x32/program.cpp explores them in a program for 32-bit x86 that needs no library;
// this driver builds it against the tree, section by section, in several ways, and runs it.
#include <dirent.h>
#include <mc/core.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <string>

namespace {
const char* const kSections[] = {"bits", "arithmetic", "flags", "arrays", "tables", "hashers", "functions", "maybes", "references", "sequences", "strings", "floats", "times", "scopes", "texts"};
const char* const kBuilds[] = {"g++ -O1 -DDEBUG -D_DEBUG", "g++ -O2 -DNDEBUG", "g++ -O0 -DDEBUG -D_DEBUG", "g++ -O3 -DNDEBUG -march=i686", "clang++ -O1 -DDEBUG", "clang++ -O2 -DNDEBUG"};

std::string repo() { const char* r = getenv("AMTL_REPO"); return r ? r : "/repo"; }
std::string here() { std::string f = __FILE__; return f.substr(0, f.rfind('/')); }

struct Scratch {
    std::string dir;
    Scratch() {
        char t[] = "/tmp/u02.XXXXXX";
        if (!mkdtemp(t)) mc::fail("driver: mkdtemp");
        dir = t;
    }
    ~Scratch() {
        for (const char* n : {"out", "prog"}) unlink((dir + "/" + n).c_str());
        rmdir(dir.c_str());
    }
    int run(const std::string& cmd, std::string* out) const {
        int st = system((cmd + " >" + dir + "/out 2>&1 </dev/null").c_str());
        std::ifstream f(dir + "/out");
        std::stringstream s;
        s << f.rdbuf();
        *out = s.str();
        return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
    }
};
void explore() {
    const std::string section = kSections[mc::choose(sizeof kSections / sizeof *kSections)];
    const std::string build = kBuilds[mc::choose(mc::thorough() ? 6 : 2)];
    mc::op("%s, %s", section.c_str(), build.c_str());
    Scratch d;
    std::string out;
    std::string cmd = build + " -m32 -std=c++17 -w -fno-exceptions -fno-rtti -fno-stack-protector -fno-pic -no-pie -fno-threadsafe-statics -U_FORTIFY_SOURCE -nostdlib -static"
                      " -fno-builtin -D_LINUX -DPOSIX -DSECTION=" + section + " -I" + here() + "/x32 -I" + repo() + " -I/usr/include/x86_64-linux-gnu/c++/13"
                      " -I/usr/include/x86_64-linux-gnu -isystem /usr/include/c++/13 -o " + d.dir + "/prog " + here() + "/x32/program.cpp";
    mc::transitions(1);
    if (d.run(cmd, &out)) {
        // Something this program lacks (it has no C library): nothing can be said.
        if (out.find("undefined reference") != std::string::npos || out.find("No such file") != std::string::npos || out.find("error:") == std::string::npos) {
            mc::op("not explored: %s", out.substr(0, 200).c_str());
            return;
        }
        size_t at = out.find("error:");
        at = out.rfind('\n', at) == std::string::npos ? 0 : out.rfind('\n', at) + 1;
        mc::fail("does not compile for a 32-bit machine: %s", out.substr(at, 300).c_str());
    }
    if (d.run(d.dir + "/prog nothing", &out) || out.compare(0, 2, "ok")) {
        mc::op("not explored: this system runs no 32-bit programs");
        return;
    }
    int r = d.run("timeout 300 " + d.dir + "/prog " + section, &out);
    if (r == 0 && out.compare(0, 2, "ok") == 0) {
        mc::evaluations(strtoull(out.c_str() + 3, nullptr, 16));
        mc::state(mc::hash_str(section + build));
        return;
    }
    while (!out.empty() && out.back() == '\n') out.pop_back();
    mc::fail("%s on a 32-bit machine: %s (status %d)", section.c_str(), out.substr(0, 400).c_str(), r);
}
}  // namespace

void mc_register() { mc::add("machine", explore, 0, 2); }

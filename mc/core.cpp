#include "core.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                        void (*)(const volatile void*));
extern "C" const char* __asan_default_options() {
    return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
           "handle_abort=0:handle_segv=1:quarantine_size_mb=8:malloc_context_size=4:"
           "detect_container_overflow=1:print_stats=0:color=never";
}
extern "C" const char* __ubsan_default_options() {
    return "halt_on_error=1:exitcode=99:print_stacktrace=1:color=never";
}
#endif

namespace mc {

void (*prune_hook)() = nullptr;

namespace {
constexpr int kMaxShards = 32;
constexpr int kMaxPath = 1 << 16;
constexpr int kSamplePaths = 3;
constexpr size_t kLogSize = 1 << 18;

enum Status { RUNNING = 0, DONE = 1, VIOLATION = 2, ENGINE_ERROR = 3, CAPPED = 4 };

struct ShardMem {
    std::atomic<uint64_t> execs, counted, transitions, evals, points, beat;
    std::atomic<uint32_t> path_len, max_len;
    std::atomic<int> status;
    uint16_t path[kMaxPath];
    char msg[4096];
    uint32_t nsamples;
    uint32_t sample_len[kSamplePaths];
    uint16_t sample[kSamplePaths][4096];
    uint64_t obs;
    uint32_t nknown;
    struct { char id[64]; char text[192]; uint64_t count; } known[16];
};
constexpr size_t kSetSize = 1 << 23;
struct Shared {
    ShardMem shard[kMaxShards];
    std::atomic<uint64_t> nstates, noutcomes;
    std::atomic<uint64_t> set_full;
    char log[kLogSize];
    std::atomic<uint32_t> log_len;
    std::atomic<uint64_t> states[kSetSize];
    std::atomic<uint64_t> outcomes[1 << 20];
};
Shared* sh;
ShardMem* me;
int g_shard = 0, g_nshards = 1, g_shard_depth = 3;
bool g_logging = false, g_thorough = false, g_replaying = false;
std::vector<Scenario>* g_scen;
std::vector<std::string> g_known_ids;
uint64_t g_scen_seed;
double g_deadline = 0;
bool g_noleak = false;

struct Point { uint32_t n; uint16_t cost; };
Point g_pts[kMaxPath];
uint32_t g_prefix = 0;   // choices below this index are replayed
uint32_t g_pos = 0;
uint64_t g_obs = 0;
uint64_t g_prefix_hash = 0;
bool g_owned = true;
int g_bound = 0;

struct PruneEx {};

double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

[[noreturn]] void engine_error(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(me->msg, sizeof me->msg, fmt, ap);
    va_end(ap);
    me->status = ENGINE_ERROR;
    _exit(3);
}

bool set_insert(std::atomic<uint64_t>* tab, size_t size, std::atomic<uint64_t>& count, uint64_t h) {
    if (h == 0) h = 1;
    if (count.load(std::memory_order_relaxed) > size / 4 * 3) { sh->set_full = 1; return false; }
    size_t i = (h * 0x9E3779B97F4A7C15ULL) >> 20 & (size - 1);
    for (;;) {
        uint64_t v = tab[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) {
            if (tab[i].compare_exchange_strong(v, h)) { count++; return true; }
            if (v == h) return false;
            continue;
        }
        i = (i + 1) & (size - 1);
    }
}
}  // namespace

// ---- heap accounting ------------------------------------------------------
static uint64_t g_live, g_total, g_path_bytes, g_path_limit;
void path_bytes(uint64_t limit) { g_path_limit = limit; }
static bool g_guard_bytes = false;
uint64_t live_blocks() { return g_live; }
uint64_t total_allocs() { return g_total; }
#if defined(__SANITIZE_ADDRESS__)
static void malloc_hook(const volatile void* p, size_t n) {
    if (!p) return;
    g_live++;
    g_total++;
    g_path_bytes += n;
    if (g_guard_bytes && g_path_bytes > g_path_limit) {
        g_guard_bytes = false;
        fail("runaway allocation: more than %llu GB requested in one execution", (unsigned long long)(g_path_limit >> 30));
    }
}
static void free_hook(const volatile void* p) {
    if (p) g_live--;
}
#endif

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed) {
    const unsigned char* s = (const unsigned char*)p;
    uint64_t h = seed ^ (n * 0x9E3779B97F4A7C15ULL);
    while (n >= 8) {
        uint64_t v;
        memcpy(&v, s, 8);
        h = mix(h, v);
        s += 8;
        n -= 8;
    }
    uint64_t v = 0;
    memcpy(&v, s, n);
    return mix(h, v ^ (uint64_t(n) << 56));
}

bool thorough() { return g_thorough; }
bool logging() { return g_logging; }
void no_leak_check() { g_noleak = true; }
int shard_index() { return g_shard; }
int shard_count() { return g_nshards; }
void slice(uint64_t n, uint64_t* lo, uint64_t* hi) {
    *lo = n / g_nshards * g_shard + std::min<uint64_t>(g_shard, n % g_nshards);
    *hi = *lo + n / g_nshards + (uint64_t(g_shard) < n % g_nshards ? 1 : 0);
}

void prune() {
    if (prune_hook) prune_hook();
    throw PruneEx();
}

// Loops: off, the first round (recorded), the others (from the tape; 0 where the tape does not fit).
static int g_pump = 0;
static int g_tape[1024];
static size_t g_tape_len = 0, g_tape_at = 0;
static size_t g_tape_mark[16];
void pump_first(int k, const std::function<void()>& step) {
    if (k >= 16) engine_error("a loop of more than 16 steps");
    if (k == 0) g_tape_len = 0;
    g_tape_mark[k] = g_tape_len;
    g_pump = 1;
    step();
    g_pump = 0;
}
bool pump_again(int k, const std::function<void()>& step) {
    g_tape_at = g_tape_mark[k];
    g_pump = 2;
    bool done = true;
    try {
        step();
    } catch (PruneEx&) {
        done = false;
    }
    g_pump = 0;
    return done;
}

int choose_cost(int n, int alt_cost) {
    if (n <= 0) engine_error("choose(%d)", n);
    if (g_pump == 2) {
        int c = g_tape_at < g_tape_len ? g_tape[g_tape_at] : 0;
        g_tape_at++;
        return c < n ? c : 0;
    }
    uint32_t i = g_pos;
    if (i >= kMaxPath - 1) engine_error("path too long (%u choices)", i);
    if (i < g_prefix) {
        if (me->path[i] >= n || (g_pts[i].n && (g_pts[i].n != uint32_t(n) || g_pts[i].cost != alt_cost)))
            engine_error("nondeterminism: choice %u was %u of %u (cost %u), now %d alternatives (cost %d)", i,
                         me->path[i], g_pts[i].n, g_pts[i].cost, n, alt_cost);
        g_pts[i].n = n;
        g_pts[i].cost = alt_cost;
    } else {
        me->path[i] = 0;
        g_pts[i] = {uint32_t(n), uint16_t(alt_cost)};
    }
    g_pos = i + 1;
    me->path_len.store(g_pos, std::memory_order_relaxed);
    int c = me->path[i];
    if (g_pump == 1 && g_tape_len < 1024) g_tape[g_tape_len++] = c;
    if (int(i) < g_shard_depth) {
        g_prefix_hash = mix(g_prefix_hash, c + 1);
        if (int(i) == g_shard_depth - 1 && !g_replaying && g_nshards > 1) {
            if (int(g_prefix_hash % g_nshards) != g_shard) {
                g_owned = false;
                prune();
            }
        }
    }
    return c;
}
int choose(int n) { return choose_cost(n, 0); }
int choose_dev(int n) { return choose_cost(n, 1); }

static void vlog(const char* fmt, va_list ap) {
    if (!g_logging) return;
    uint32_t at = sh->log_len;
    if (at + 512 >= kLogSize) {
        // keep the tail of long logs: drop the first half
        memmove(sh->log, sh->log + at / 2, at - at / 2);
        at = at - at / 2;
    }
    int k = vsnprintf(sh->log + at, 500, fmt, ap);
    if (k < 0) k = 0;
    if (k > 499) k = 499;
    sh->log[at + k] = '\n';
    sh->log_len = at + k + 1;
}
void log(const char* fmt, ...) {
    if (!g_logging) return;
    va_list ap;
    va_start(ap, fmt);
    vlog(fmt, ap);
    va_end(ap);
}
void op(const char* fmt, ...) {
    me->transitions.store(me->transitions.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
    if (!g_logging) return;
    va_list ap;
    va_start(ap, fmt);
    vlog(fmt, ap);
    va_end(ap);
}
void transitions(uint64_t n) { me->transitions.store(me->transitions.load(std::memory_order_relaxed) + n, std::memory_order_relaxed); }
void evaluations(uint64_t n) { me->evals.store(me->evals.load(std::memory_order_relaxed) + n, std::memory_order_relaxed); }
bool state(uint64_t h) { return set_insert(sh->states, kSetSize, sh->nstates, mix(h, g_scen_seed)); }
void observe(uint64_t h) { g_obs = mix(g_obs, h); }
void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(me->msg, sizeof me->msg, fmt, ap);
    va_end(ap);
    log("FAIL: %s", me->msg);
    me->status = VIOLATION;
    _exit(1);
}
void known(const char* id, const char* fmt, ...) {
    char text[192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(text, sizeof text, fmt, ap);
    va_end(ap);
    if (std::find(g_known_ids.begin(), g_known_ids.end(), id) == g_known_ids.end())
        fail("%s: %s", id, text);
    for (uint32_t i = 0; i < me->nknown; i++) {
        if (!strcmp(me->known[i].id, id)) { me->known[i].count++; return; }
    }
    if (me->nknown >= 16) fail("%s: %s", id, text);
    auto& k = me->known[me->nknown++];
    snprintf(k.id, sizeof k.id, "%s", id);
    snprintf(k.text, sizeof k.text, "%s", text);
    k.count = 1;
}

void add(const std::string& name, std::function<void()> body, int dev_bound, int shard_depth) {
    g_scen->push_back({name, std::move(body), dev_bound, shard_depth});
}

namespace {
// Runs one path. Returns false if pruned.
bool run_once(const Scenario& s) {
    g_pos = 0;
    g_obs = 0;
    g_prefix_hash = 0;
    g_owned = true;
    g_path_bytes = 0;
    g_path_limit = 6ull << 30;
    g_pump = 0;
    me->path_len = 0;
    g_guard_bytes = true;
    bool ok = true;
    try {
        s.body();
    } catch (PruneEx&) {
        ok = false;
    }
    g_guard_bytes = false;
    if (ok && g_pos < g_prefix)
        engine_error("nondeterminism: execution ended after %u choices, prefix had %u", g_pos, g_prefix);
    return ok;
}

bool run_checked(const Scenario& s) {
    uint64_t live0 = g_live;
    bool ok = run_once(s);
#if defined(__SANITIZE_ADDRESS__)
    if (ok && !g_noleak && g_live != live0) {
        // Lazily initialised library state allocates once; a real leak repeats.
        uint32_t save = g_prefix;
        uint64_t obs = g_obs;
        g_prefix = g_pos;
        uint64_t live1 = g_live;
        run_once(s);
        if (g_live != live1) fail("leak: %lld heap block(s) not freed by this execution", (long long)(g_live - live1));
        g_prefix = save;
        g_obs = obs;
    }
#endif
    (void)live0;
    return ok;
}

void run_shard(const Scenario& s, int bound) {
    g_prefix = 0;
    g_bound = bound;
    for (;;) {
        bool ok = run_checked(s);
        me->beat++;
        uint32_t len = g_pos;
        if (ok) {
            uint32_t cost = 0;
            for (uint32_t i = 0; i < len; i++)
                if (me->path[i]) cost += g_pts[i].cost;
            bool mine = true;
            if (int(len) < g_shard_depth && g_nshards > 1) mine = int(g_prefix_hash % g_nshards) == g_shard;
            me->execs++;
            if (mine && (int(cost) == bound || bound == 0)) {
                uint64_t c = me->counted.fetch_add(1);
                if (len > me->max_len) me->max_len = len;
                set_insert(sh->outcomes, 1 << 20, sh->noutcomes, mix(g_obs, g_scen_seed));
                if ((c == 0 || c == 100 || c == 10000) && me->nsamples < kSamplePaths && len < 4096) {
                    memcpy(me->sample[me->nsamples], me->path, len * 2);
                    me->sample_len[me->nsamples] = len;
                    me->nsamples++;
                    if (me->nsamples == 1) me->obs = g_obs;
                }
            }
        }
        // next path
        uint32_t pre[1];
        (void)pre;
        int64_t i = int64_t(len) - 1;
        uint32_t total = 0;
        for (uint32_t k = 0; k < len; k++)
            if (me->path[k]) total += g_pts[k].cost;
        bool found = false;
        for (; i >= 0; i--) {
            uint32_t here = me->path[i] ? g_pts[i].cost : 0;
            uint32_t before = total - here;   // cost of choices before i
            total = before;
            if (me->path[i] + 1u < g_pts[i].n && before + g_pts[i].cost <= uint32_t(bound)) {
                me->path[i]++;
                g_prefix = uint32_t(i) + 1;
                found = true;
                break;
            }
        }
        if (!found) break;
        if (g_deadline && (me->beat & 63) == 0 && now() > g_deadline) {
            me->status = CAPPED;
            _exit(0);
        }
    }
    me->status = DONE;
    _exit(0);
}

struct ChildResult { int status; bool signaled; int sig; int code; bool hung; };

void redirect_stderr(int fd) {
    dup2(fd, 2);
    dup2(fd, 1);
}

std::string read_fd(int fd, size_t max) {
    off_t sz = lseek(fd, 0, SEEK_END);
    std::string out;
    off_t from = 0;
    if (sz > off_t(max)) sz = max;
    out.resize(sz);
    if (pread(fd, &out[0], sz, from) < 0) out.clear();
    return out;
}

int tmpfd() { return memfd_create("mc-stderr", 0); }

std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Replay { bool failed; bool hung; bool engine_error; std::string msg, log, err; uint64_t obs; };

Replay replay(const Scenario& s, const std::vector<uint16_t>& path, int bound, double limit, int shard, int nshards) {
    ShardMem* m = &sh->shard[kMaxShards - 1];
    me = m;
    m->status = RUNNING;
    m->msg[0] = 0;
    m->nknown = 0;
    sh->log_len = 0;
    int efd = tmpfd();
    pid_t pid = fork();
    if (pid == 0) {
        redirect_stderr(efd);
        g_logging = true;
        g_replaying = true;
        g_bound = bound;
        g_shard = shard;
        g_nshards = nshards;
        g_prefix = path.size();
        memcpy(m->path, path.data(), path.size() * 2);
        memset(g_pts, 0, sizeof(Point) * (path.size() + 1));
        run_checked(s);
        m->obs = g_obs;
        m->status = DONE;
        _exit(0);
    }
    Replay r{};
    double t0 = now();
    int st = 0;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (now() - t0 > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.hung = true;
            r.failed = true;
            r.msg = "does not terminate (replayed alone for " + std::to_string(int(limit)) + " s)";
            break;
        }
        usleep(2000);
    }
    r.log = std::string(sh->log, sh->log_len);
    r.err = read_fd(efd, 12000);
    close(efd);
    r.obs = m->obs;
    if (!r.hung) {
        if (m->status == VIOLATION) { r.failed = true; r.msg = m->msg; }
        else if (m->status == ENGINE_ERROR) { r.engine_error = true; r.msg = m->msg; }
        else if (m->status == DONE && WIFEXITED(st) && WEXITSTATUS(st) == 0) r.failed = false;
        else {
            r.failed = true;
            if (WIFSIGNALED(st)) r.msg = std::string("crash: signal ") + strsignal(WTERMSIG(st));
            else r.msg = "crash: exit status " + std::to_string(WEXITSTATUS(st));
            // First informative line of stderr.
            size_t p = r.err.find("ERROR: ");
            if (p == std::string::npos) p = r.err.find("runtime error");
            if (p == std::string::npos) p = r.err.find("Assertion");
            if (p != std::string::npos) {
                size_t b = r.err.rfind('\n', p);
                b = b == std::string::npos ? 0 : b + 1;
                size_t e = r.err.find('\n', p);
                r.msg += ": " + r.err.substr(b, e == std::string::npos ? std::string::npos : e - b);
            }
        }
    }
    return r;
}
}  // namespace

static int run_all(int argc, char** argv) {
    const char* out = nullptr;
    const char* only = nullptr;
    const char* rchoices = nullptr;
    const char* rscen = nullptr;
    double budget = 0, hang = 20;
    int jobs = 8, dev_override = -1, rshard = 0, rnshards = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") out = val();
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--only") only = val();
        else if (a == "--jobs") jobs = atoi(val());
        else if (a == "--budget") budget = atof(val());
        else if (a == "--hang") hang = atof(val());
        else if (a == "--dev") dev_override = atoi(val());
        else if (a == "--known") g_known_ids.push_back(val());
        else if (a == "--replay") { rscen = val(); rchoices = val(); }
        else if (a == "--rshard") { rshard = atoi(val()); rnshards = atoi(val()); }
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    if (jobs > kMaxShards - 2) jobs = kMaxShards - 2;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    me = &sh->shard[0];
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
#endif
    std::vector<Scenario> scen;
    g_scen = &scen;
    mc_register();

    if (rscen) {
        std::vector<uint16_t> path;
        for (const char* p = rchoices; *p;) {
            path.push_back(uint16_t(strtol(p, (char**)&p, 10)));
            while (*p == ',') p++;
        }
        for (auto& s : scen) {
            if (s.name != rscen) continue;
            Replay r = replay(s, path, 99, 60, rshard, rnshards);
            printf("%s\n%s\n", r.log.c_str(), r.err.c_str());
            printf("RESULT: %s %s\n", r.engine_error ? "ENGINE-ERROR" : r.failed ? "FAIL" : "ok", r.msg.c_str());
            return r.engine_error ? 2 : r.failed ? 1 : 0;
        }
        fprintf(stderr, "no such scenario %s\n", rscen);
        return 2;
    }

    double t0 = now();
    int left = 0;
    for (auto& s : scen) left += !only || s.name.find(only) != std::string::npos;
    double reserve = budget / (3 * std::max(1, left));   // of the time, for every scenario whatever the earlier ones take
    std::string json = "{\"scenarios\":[";
    std::string violation;
    std::map<std::string, std::pair<uint64_t, std::string>> knowns;
    bool first = true;
    int rc = 0;
    for (auto& s : scen) {
        if (only && s.name.find(only) == std::string::npos) continue;
        if (violation.size() || rc) break;
        left--;
        if (budget > 0) g_deadline = std::max(t0 + budget - reserve * left, now() + reserve);
        uint64_t states0 = sh->nstates, outc0 = sh->noutcomes;
        g_scen_seed = hash_str(s.name);
        int maxb = dev_override >= 0 ? std::min(dev_override, s.dev_bound) : s.dev_bound;
        uint64_t counted = 0, execs = 0, trans = 0, evals = 0, maxlen = 0;
        bool complete = true;
        int done_bound = -1;
        std::vector<uint16_t> sample0;
        std::vector<std::vector<uint16_t>> samples;
        uint64_t obs0 = 0;
        double ts = now();
        for (int b = 0; b <= maxb && violation.empty() && rc == 0; b++) {
            if (g_deadline && now() > g_deadline) { complete = false; break; }
            int n = s.shard_depth == 0 ? 1 : jobs;
            double hang_limit = hang;
        retry:
            pid_t pids[kMaxShards];
            int fds[kMaxShards];
            bool alive[kMaxShards];
            uint64_t beat[kMaxShards];
            double beat_t[kMaxShards];
            for (int k = 0; k < n; k++) {
                memset((void*)&sh->shard[k], 0, sizeof(ShardMem));
                fds[k] = tmpfd();
                pids[k] = fork();
                if (pids[k] == 0) {
                    redirect_stderr(fds[k]);
                    rlimit nocore{0, 0};
                    setrlimit(RLIMIT_CORE, &nocore);
                    g_shard = k;
                    g_nshards = n;
                    g_shard_depth = s.shard_depth < 0 ? 0 : s.shard_depth;
                    me = &sh->shard[k];
                    run_shard(s, b);
                }
                alive[k] = true;
                beat[k] = 0;
                beat_t[k] = now();
            }
            int bad = -1;
            bool hung = false;
            int nalive = n;
            while (nalive && bad < 0) {
                usleep(1000);
                for (int k = 0; k < n && bad < 0; k++) {
                    if (!alive[k]) continue;
                    int st;
                    pid_t w = waitpid(pids[k], &st, WNOHANG);
                    if (w == pids[k]) {
                        alive[k] = false;
                        nalive--;
                        int stt = sh->shard[k].status;
                        bool good = WIFEXITED(st) && WEXITSTATUS(st) == 0 && (stt == DONE || stt == CAPPED);
                        if (!good) bad = k;
                        if (stt == CAPPED) complete = false;
                        continue;
                    }
                    uint64_t v = sh->shard[k].beat + sh->shard[k].transitions + sh->shard[k].evals;
                    if (v != beat[k]) { beat[k] = v; beat_t[k] = now(); }
                    else if (now() - beat_t[k] > hang_limit) { bad = k; hung = true; }
                }
            }
            if (bad >= 0) {
                for (int k = 0; k < n; k++) if (alive[k]) { kill(pids[k], SIGKILL); waitpid(pids[k], nullptr, 0); }
                ShardMem& m = sh->shard[bad];
                if (m.status == ENGINE_ERROR) {
                    fprintf(stderr, "ENGINE ERROR in %s: %s\n", s.name.c_str(), m.msg);
                    rc = 2;
                } else {
                    std::vector<uint16_t> path(m.path, m.path + m.path_len);
                    std::string firstmsg = m.status == VIOLATION ? m.msg : hung ? "hang" : "crash";
                    std::string err0 = read_fd(fds[bad], 4000);
                    int rs = s.shard_depth < 0 ? bad : 0, rn = s.shard_depth < 0 ? n : 1;
                    Replay r = replay(s, path, b, hung ? hang_limit * 3 : 120, rs, rn);
                    if (r.engine_error || !r.failed) {
                        if (hung && !r.engine_error && hang_limit < 200) {
                            for (int k = 0; k < n; k++) close(fds[k]);
                            hang_limit = 250;
                            fprintf(stderr, "slow path in %s, retrying with a longer limit\n", s.name.c_str());
                            goto retry;
                        }
                        fprintf(stderr, "ENGINE ERROR in %s: failure '%s' did not replay (%s)\n%s\n", s.name.c_str(),
                                firstmsg.c_str(), r.msg.c_str(), err0.c_str());
                        rc = 2;
                    } else {
                        std::string pathtxt;
                        for (size_t i = 0; i < path.size(); i++) pathtxt += (i ? "," : "") + std::to_string(path[i]);
                        violation = "{\"scenario\":\"" + jesc(s.name) + "\",\"bound\":" + std::to_string(b) +
                                    ",\"choices\":\"" + pathtxt + "\",\"shard\":" + std::to_string(rs) +
                                    ",\"nshards\":" + std::to_string(rn) + ",\"message\":\"" + jesc(r.msg) +
                                    "\",\"log\":\"" + jesc(r.log) + "\",\"stderr\":\"" + jesc(r.err) + "\"}";
                    }
                }
            }
            for (int k = 0; k < n; k++) {
                close(fds[k]);
                ShardMem& m = sh->shard[k];
                counted += m.counted;
                execs += m.execs;
                trans += m.transitions;
                evals += m.evals;
                maxlen = std::max<uint64_t>(maxlen, m.max_len);
                for (uint32_t i = 0; i < m.nsamples && samples.size() < 4; i++)
                    samples.emplace_back(m.sample[i], m.sample[i] + m.sample_len[i]);
                for (uint32_t i = 0; i < m.nknown; i++) {
                    knowns[m.known[i].id].first += m.known[i].count;
                    knowns[m.known[i].id].second = m.known[i].text;
                }
                (void)obs0;
            }
            if (complete) done_bound = b;
        }
        // Samples: replay (twice, same observation) and keep the operation log.
        std::string sj;
        if (violation.empty() && rc == 0) {
            int ns = 0;
            for (size_t i = 0; i < samples.size() && ns < 2; i += (samples.size() > 2 ? samples.size() - 1 : 1)) {
                if (s.shard_depth < 0 && ns) break;
                int rn = s.shard_depth < 0 ? 64 : 1;   // data scenarios: replay a 64th of the domain
                Replay a = replay(s, samples[i], maxb, 120, 0, rn);
                if (a.engine_error || a.failed) {
                    fprintf(stderr, "ENGINE ERROR in %s: sample replay: %s\n%s\n", s.name.c_str(), a.msg.c_str(), a.err.c_str());
                    rc = 2;
                    break;
                }
                if (s.shard_depth >= 0) {
                    Replay c = replay(s, samples[i], maxb, 120, 0, rn);
                    if (c.log != a.log || c.obs != a.obs) {
                        fprintf(stderr, "ENGINE ERROR in %s: replaying one path twice gave different observations\n", s.name.c_str());
                        rc = 2;
                        break;
                    }
                }
                std::string l = a.log.substr(0, 700);
                std::replace(l.begin(), l.end(), '\n', ';');
                sj += std::string(ns ? "," : "") + "\"" + jesc(l) + "\"";
                ns++;
            }
        }
        if (!first) json += ",";
        first = false;
        json += "{\"name\":\"" + jesc(s.name) + "\",\"executions\":" + std::to_string(counted) +
                ",\"replays\":" + std::to_string(execs) + ",\"transitions\":" + std::to_string(trans) +
                ",\"evaluations\":" + std::to_string(evals) + ",\"states\":" + std::to_string(sh->nstates - states0) +
                ",\"outcomes\":" + std::to_string(sh->noutcomes - outc0) + ",\"max_choices\":" + std::to_string(maxlen) +
                ",\"deviation_bound\":" + std::to_string(maxb) + ",\"bound_completed\":" + std::to_string(done_bound) +
                ",\"complete\":" + (complete ? "true" : "false") + ",\"seconds\":" + std::to_string(now() - ts) +
                ",\"samples\":[" + sj + "]}";
    }
    json += "],\"known\":{";
    bool fk = true;
    for (auto& k : knowns) {
        json += std::string(fk ? "" : ",") + "\"" + jesc(k.first) + "\":{\"count\":" + std::to_string(k.second.first) +
                ",\"text\":\"" + jesc(k.second.second) + "\"}";
        fk = false;
    }
    json += "},\"state_set_full\":" + std::string(sh->set_full ? "true" : "false");
    json += ",\"violation\":" + (violation.empty() ? std::string("null") : violation) + "}\n";
    if (out) {
        FILE* f = fopen(out, "w");
        if (!f) { perror(out); return 2; }
        fputs(json.c_str(), f);
        fclose(f);
    } else {
        fputs(json.c_str(), stdout);
    }
    if (rc) return rc;
    return violation.empty() ? 0 : 1;
}

}  // namespace mc

int main(int argc, char** argv) { return mc::run_all(argc, argv); }

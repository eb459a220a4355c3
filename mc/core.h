// Exhaustive, replayable enumeration of the choice tree of a closed driver.  See DESIGN.md 1.1.
#pragma once
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <functional>
#include <string>

namespace mc {

// --- nondeterminism -------------------------------------------------------
// Returns every value in [0, n) over the exploration.
int choose(int n);
// As choose, but every value other than 0 costs one deviation (bounded per scenario).
int choose_dev(int n);
// General form: cost of any non-zero alternative.
int choose_cost(int n, int alt_cost);
inline bool flip() { return choose(2) != 0; }
// Abandon this path (it is not counted).
[[noreturn]] void prune();
extern void (*prune_hook)();   // used by the thread runtime (cannot throw across fibers)

// Runs step() |steps| times, its choices enumerated as usual, then the same choices again |times| - 1 times: every short
// loop, taken many times.  Where a later round abandons a step (its precondition no longer holds), the step is skipped.
void pump_first(int k, const std::function<void()>& step);
bool pump_again(int k, const std::function<void()>& step);
template <class F> void pump(int steps, int times, F&& step) {
    for (int k = 0; k < steps; k++) pump_first(k, std::ref(step));
    bool any = true;
    for (int t = 1; t < times && any; t++) {
        any = false;
        for (int k = 0; k < steps; k++) any |= pump_again(k, std::ref(step));
    }
}

// --- observation ----------------------------------------------------------
// One operation applied to the code under test.
void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool logging();
void transitions(uint64_t n);            // count n operations without logging
void evaluations(uint64_t n);            // count n oracle evaluations inside a path (data enumeration)
bool state(uint64_t h);                  // record an (abstract or concrete) state; true if new
void observe(uint64_t h);                // mix into the observation of this execution
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// A documented defect that is listed in known-findings: noted if listed, a violation otherwise.
void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Called by a scenario that wants no leak check (e.g. it forks).
void no_leak_check();

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 0);
inline uint64_t hash_str(const std::string& s, uint64_t seed = 0) { return hash_bytes(s.data(), s.size(), seed); }

// --- scenarios ------------------------------------------------------------
struct Scenario {
    std::string name;
    std::function<void()> body;
    int dev_bound;       // deviations / preemptions, iterated 0..dev_bound
    int shard_depth;     // choices that select the shard; 0 = run unsharded
};
void add(const std::string& name, std::function<void()> body, int dev_bound = 0, int shard_depth = 3);
bool thorough();
// Parallel data enumeration inside a scenario: returns [lo,hi) of n for this shard's slice.
// (use with shard_depth -1: every shard runs the body once with its own slice)
void slice(uint64_t n, uint64_t* lo, uint64_t* hi);
int shard_index();
int shard_count();

extern uint64_t live_blocks();   // heap blocks currently allocated (for leak/allocation oracles)
extern void path_bytes(uint64_t limit);   // raise the bound on the bytes one execution may request (6 GB)
extern uint64_t total_allocs();  // heap blocks ever allocated

}  // namespace mc

// Each driver defines this and registers its scenarios.
void mc_register();

#define MC_CHECK(cond, ...)                                        \
    do {                                                           \
        if (!(cond)) ::mc::fail("[" #cond "] " __VA_ARGS__);       \
    } while (0)

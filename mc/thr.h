// Controlled execution of real multi-threaded code.  See DESIGN.md 1.2.
#pragma once
#include <stddef.h>
#include <stdint.h>

#include <functional>
#include <initializer_list>

namespace thr {
struct Options {
    bool reuse = false;          // freed addresses are handed out again at once (otherwise never)
    bool leak_check = true;      // heap blocks or system slots left at the end are a failure
    int key_faults = 0;          // pthread_key_create: 0 always succeeds, 1 may fail (one deviation), 2 always fails
    int create_faults = 0;       // pthread_create: the same
    bool spurious = true;        // compare_exchange_weak may fail although the value is the expected one (one deviation)
    int max_keys = 1024;
    uint32_t max_steps = 30000;  // more scheduling points than that: the execution does not end
};
// Runs |body| as thread 0 of a fresh world; returns when every thread has finished.
void run(const std::function<void()>& body, const Options& o = Options());
// Starts all of them before any runs, and waits for all of them.
void parallel(std::initializer_list<std::function<void()>> fs);
// Inside: memory accesses are not monitored and nothing is scheduled (for oracles).
struct Quiet {
    Quiet();
    ~Quiet();
    void end();                  // before its time
    bool on = true;
};
int self();                      // number of the running thread, in order of creation
const char* name_of(int thread); // "" if never named
int keys_live();
int keys_created();
size_t heap_live();
void sched_point();              // an explicit one
void progress();                 // tells the livelock detector that the running thread's loop gets on
uint64_t now();                  // scheduling points so far in this execution: a logical time stamp
bool threads_done_except_self();
// Runs f; true if it ended in a failed assert() (control then returns here, f is abandoned).
bool asserts(const std::function<void()>& f);
}  // namespace thr

// Controlled scheduler for multi-threaded harnesses (see sched_rt.cpp). The harness and the library are compiled with
// -fsanitize=thread, but linked with our own runtime: it runs one thread at a time, decides at every synchronisation
// operation which thread continues, and checks every plain memory access for races.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace mcs {

struct Opt {
    int dev = 2;          // preemptions (and stale reads, spurious wake-ups) per execution
    bool weak = false;    // atomic loads may return any store that the C++ memory model allows
    bool spurious = false;// condition variables and weak compare-exchanges may fail spuriously
    bool forked = false;  // a new process for every execution; otherwise the global state of the program is restored
    bool cache = true;    // different interleavings that lead to the same state are continued only once
    int cpus = 1;         // what std::thread::hardware_concurrency() reports
};
void add_task(const std::string& name, std::function<void()> body, Opt opt = {});
bool thorough();
int depth(int quick, int deep);

// to be called inside an execution
size_t choose(size_t n);
[[noreturn]] void fail(const std::string& sig, const std::string& msg);
void log(const char* what, long a = 0, long b = 0);    // appended to the trace shown with a failure
int self();                                            // number of the calling thread, 0 for the first one
uint64_t tick();                                       // a global logical clock, without any synchronisation
void yield();
void point();                                          // the scheduler may switch here
void quiesce();                                        // waits until every other thread has finished or is blocked
void note(const std::string& s);
void state(uint64_t h);
void sample(const std::string& s);
uint64_t same(int slot, uint64_t value);               // the value that the first execution to get here has registered for this slot (shared by all executions)
bool quiet();                                          // no other thread is alive
void budget(int dev);                                  // changes the number of deviations for the rest of the execution
/**
* While one exists, nothing in this thread is a scheduling point or checked for races. For the bookkeeping of the harness:
* the explorer distinguishes the orders of all such blocks with the same key (-1: one for everything, -2: the block neither
* reads nor writes anything that other threads use), so what they observe is part of the state.
*/
struct Off { explicit Off(int key = -1); ~Off(); };
/** Makes new return nullptr/throw after n more allocations of the calling thread; -1 switches it off. */
void fail_alloc_after(long n);

int main_(int argc, char** argv, void (*setup)());

} // namespace mcs

#define MCS_CHECK(cond, sig, ...) do { if (!(cond)) { char b_[1024]; snprintf(b_, sizeof b_, __VA_ARGS__); ::mcs::fail(sig, b_); } } while (0)
#define MCS_MAIN(setup) int main(int argc, char** argv) { return mcs::main_(argc, argv, setup); }

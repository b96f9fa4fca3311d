// Deterministic thread runtime. Every thread of the code under test is a real thread that runs only
// while it holds the baton; locks, futexes, sleeping, clocks, thread creation and (through compiler
// instrumentation) every memory access go through here. One seed decides who runs at each of these
// points. Time is virtual and advances only when nobody can run. Along the way a happens-before
// checker watches all accesses, and freed memory is never reused within a run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "../core/sim.h"
namespace mt {
struct Faults {
    std::vector<uint64_t> thread_fail;                       // ordinals of thread creations by the code under test that fail
    std::vector<uint64_t> alloc_fail;                        // ordinals of its allocations that fail
    std::vector<std::pair<uint64_t, uint64_t>> thread_delay; // (ordinal, ns): the thread starts late
};
struct AllocFault { int tid; uint64_t step, vtime; bool sut_thread; };
struct ThreadFault { int tid; uint64_t step; };
struct Stats { uint64_t steps = 0, switches = 0, threads = 0, thread_fails = 0, alloc_fails = 0, delays = 0, allocs = 0, spurious = 0, accesses = 0; std::vector<AllocFault> allocs_failed; std::vector<ThreadFault> threads_failed; uint64_t sched_hash = 0; };
// Runs main_fn as simulated thread 0. Returns false if the run was abandoned (deadlock, no progress).
bool run(sim::Ctx &c, const sim::Plan &p, const Faults &f, std::function<void()> main_fn, const std::string &prop);
int spawn(std::function<void()> fn);      // a harness thread (client); returns its id
void join(int id);
void sleep_ns(uint64_t ns);
void quiesce();                           // sleeps until nothing else can happen
uint64_t now();                           // virtual ns
uint64_t seq();                           // global event number, unique per call
int self();
bool sut_thread();
void arm_faults(bool on);
Stats &stats();
uint64_t heap_mark();                     // memory the code under test allocated since then and still holds
int live_since(uint64_t mark, uint64_t &bytes);
int live_sut_threads();                   // created by the code under test and not finished
int unjoined_sut_threads();               // finished or not, neither joined nor detached
void fail(const std::string &cls, const std::string &msg);
std::string schedule_text();              // decisions of the last run, as plan lines
void enter_sut(); void leave_sut();       // around calls into the code under test
struct Sut { Sut() { enter_sut(); } ~Sut() { leave_sut(); } };
struct NoSut { int n; NoSut(); ~NoSut(); };  // harness code called from inside the code under test
struct NoFault { NoFault(); ~NoFault(); };    // calls in which no fault is injected
uint64_t aux(uint64_t salt);              // a decision that is a function of the run's seed and the salt only
bool in_arena(const void *p);
void init();
}

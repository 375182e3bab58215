// A deterministic scheduler for the concurrent drivers.  Logical threads are fibers of one process; every synchronization
// operation of the code under test (pthread mutexes and condition variables, atomics) and, on demand, every memory access
// is a point where another thread may be scheduled.  Implemented in sched.cpp, which is not instrumented.
#ifndef VERIF_SCHED_HPP_
#define VERIF_SCHED_HPP_

#include <cstddef>

namespace sched {

struct Plan {
    int threads;
    int preemptions;      // bound of the systematic search
    int spurious;         // spurious wake-ups per run
    long max_runs;        // of the systematic search
    long random_runs;     // further runs with random choices, some of them preempting at memory accesses
    unsigned long seed;
    bool race;            // record synchronization and accesses instead of calls
    long max_traces;      // distinct traces to write
};

struct Totals {
    long runs, distinct, stuck;
    bool complete;        // the systematic search was exhausted within its bound
};

// setup, finish and teardown run outside of any schedule; body runs in each logical thread 1..threads.  finish looks at
// what the finished threads left and returns a last event for the trace (or "").
typedef void (*Body)(int thread);
struct Work {
    void (*setup)();
    Body body;
    const char* (*finish)();
    void (*teardown)();
};
Totals explore(const Plan& plan, const char* header, const Work& work);

// outside of any schedule: runs f; false when it would have to wait for another thread
bool try_alone(void (*f)());

// a call of the object under test, by the current logical thread
void call(const char* op, int value);
void ret(const char* result, int value);

// why the current logical thread should give up: never returns
[[noreturn]] void die(const char* why);

}  // namespace sched
#endif

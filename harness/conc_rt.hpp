// Interface between the concurrent workloads and the two runtimes that execute them:
//   conc_sched.cpp  threads are fibers under a seeded scheduler; every synchronisation operation is a schedule point; accesses are
//                   checked by a happens-before race detector, a use-after-free/redzone shadow and a deadlock detector
//   conc_real.cpp   real threads, to be linked with ThreadSanitizer or AddressSanitizer
// The workload itself is compiled with -fsanitize=thread (or address); the runtimes and the history checker are not instrumented.
#pragma once
#include <cstdint>

namespace rt
{
    constexpr int MAXT = 8;
    // Runs fn(arg) as thread 0 of one execution; length: about how many synchronisation operations the threads will do.
    void execute(uint64_t seed, int strategy, uint64_t length, void (*fn)(void*), void* arg);
    void spawn(void (*fn)(void*), void* arg);
    void join_all();
    int self();             // number of the running thread
    void yield();           // a point at which the scheduler may switch
    int locks_held();       // locks held by the running thread, -1 if unknown
    bool controlled();      // fibers?
    uint64_t steps();       // schedule points of the last execution
    uint64_t parallel_steps(); // those between the first spawn and the join
    uint64_t schedule_hash();
    void set_label(const char* what); // what the running thread is doing (for reports)
    void collect_counters();
    void check_leaks();     // at the end of an execution: every block allocated in it has been freed
    constexpr int STRATEGIES = 6;

    // Monitor code allocates outside the monitored heap and is not scheduled.
    struct monitor_section { monitor_section(); ~monitor_section(); };
}

// Recorder: per-thread event logs with globally ordered time stamps; judged after the execution.
namespace hist
{
    enum type : int
    {
        CONN_B, CONN_E,         // a = slot, b = signal
        DISC_B, DISC_E,         // a = slot, c = 1 success, 0 none, -1 unknown (scope)
        DKEY_B, DKEY_E,         // a = signal, b = key, c = count
        BLK_B, BLK_E, UNB_B, UNB_E, // a = slot
        BKR_B, BKR_E, BKD_B, BKD_E, // a = slot: blocker created, destroyed
        EM_B, EM_E,             // a = emission, b = signal; end: c = result (-1 disengaged, -2 exception)
        RUN_B, RUN_E,           // a = emission, b = slot; end: c = 1 normal, 0 exception
        REL_B, REL_E,           // a = object: the last owner outside the library gives it up
        QC_B, QC_E, QB_B, QB_E, // a = slot, c = result of connected() / blocked()
        OBJ_NEW, OBJ_DEL,       // a = callable/object id: a copy came to life, died; c = address
        OBJ_BAD,                // a = id: dead object used
        LOCKED,                 // a = slot or callable id, b = 0 run, 1 destroyed, c = number of locks held
        N_TYPES
    };
    void ev(type t, int a, int b = 0, long c = 0);
    int begin_emission(int sig);                // records EM_B, returns the emission
    void end_emission(int em, int sig, long result);
    int current_emission();                     // innermost emission of this thread, -1
    int depth();
    void reset();
}

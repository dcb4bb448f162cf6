// Real threads: the same workloads under ThreadSanitizer or AddressSanitizer. Not instrumented itself.
#include "conc_rt.hpp"
#include "vf.hpp"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>

namespace vf { uint64_t mutex_acquisitions = 0; long locks_held = 0; }
namespace hist { uint64_t order_hash(); }

namespace
{
    thread_local int self_ = 0;
    thread_local uint64_t rs = 1;
    thread_local const char* label_ = "";
    pthread_t th[rt::MAXT]; int n = 0;
    struct Start { void (*fn)(void*); void* arg; int id; uint64_t seed; };
    Start starts[rt::MAXT];
    std::atomic<int> gate{ 0 };
    std::atomic<uint64_t> yields{ 0 };
    uint64_t seed_ = 1, execs = 0; int strat_ = 0;

    uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
    void* entry(void* p)
    {
        Start& s = *static_cast<Start*>(p);
        self_ = s.id; rs = s.seed | 1;
        while (!gate.load(std::memory_order_relaxed)) sched_yield();
        s.fn(s.arg);
        return nullptr;
    }
}

namespace rt
{
    monitor_section::monitor_section() {}
    monitor_section::~monitor_section() {}
    void execute(uint64_t seed, int strategy, uint64_t, void (*fn)(void*), void* arg)
    {
        seed_ = seed; strat_ = strategy; self_ = 0; rs = seed | 1; n = 1; gate = 0; ++execs;
        fn(arg);
    }
    void spawn(void (*fn)(void*), void* arg)
    {
        int i = n++;
        starts[i] = Start{ fn, arg, i, seed_ * 31 + uint64_t(i) * 977 };
        pthread_create(&th[i], nullptr, entry, &starts[i]);
    }
    void join_all()
    {
        gate.store(1, std::memory_order_relaxed);
        for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
    }
    int self() { return self_; }
    void yield()
    {
        uint64_t r = rnd() >> 20;
        yields.fetch_add(1, std::memory_order_relaxed);
        switch (strat_ % 3)
        {
        case 0: if (r % 4 == 0) sched_yield(); break;
        case 1: if (r % 16 == 0) for (volatile int i = 0, k = int(r >> 8 & 1023); i < k; i = i + 1) {} break;
        default: if (r % 64 == 0) usleep(unsigned(r >> 8 & 31)); break;
        }
    }
    int locks_held() { return 0; }
    bool controlled() { return false; }
    uint64_t steps() { return 0; }
    uint64_t parallel_steps() { return 0; }
    uint64_t schedule_hash() { return hist::order_hash(); }
    void set_label(const char* w) { label_ = w; }
    void check_leaks() {}
    void collect_counters() { vf::count("real_thread_executions", execs); vf::count("injected_yields", yields); }
}

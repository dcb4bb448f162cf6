// Controlled runtime: fibers, seeded scheduler, happens-before race detector, heap shadow, deadlock detector.
// Provides the __tsan_* entry points that clang's -fsanitize=thread instrumentation calls, and the pthread locks.
#include "conc_rt.hpp"
#include "vf.hpp"
#include <algorithm>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>

extern "C" char __libc_single_threaded;
extern "C" char __executable_start, etext, edata, end;

namespace vf { uint64_t mutex_acquisitions = 0; long locks_held = 0; }

namespace
{
    using rt::MAXT;
    using vf::fail;

    // ---- vector clocks --------------------------------------------------------------------------------------------
    struct VC
    {
        uint32_t v[MAXT];
        void clear() { std::memset(v, 0, sizeof v); }
        void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.v[i] > v[i]) v[i] = o.v[i]; }
    };

    // ---- fibers ---------------------------------------------------------------------------------------------------
    struct cxa_globals { void* caught; unsigned uncaught; };
    enum State { FREE, RUNNABLE, BLOCKED, DONE };
    constexpr size_t STACK = 256 * 1024;
    struct Fiber
    {
        void* sp = nullptr;
        char* stack = nullptr;
        State state = FREE;
        void (*fn)(void*) = nullptr;
        void* arg = nullptr;
        cxa_globals eh{};
        VC vc, rel_fence, acq_pending;
        const void* waits = nullptr;
        const char* wait_kind = "";
        int held = 0;
        uint32_t prio = 0;
        uint32_t run_len = 0;
        int harness = 0;
        const char* label = "";
        void* calls[256];
        int ncalls = 0;
        char* tls = nullptr;    // thread-local variables of the program while the fiber does not run
        struct Exit { void (*f)(void*); void* o; };
        Exit exits[32]; int nexits = 0; // destructors of its thread-local variables
    };
    Fiber fib[MAXT];
    int nfib = 0, cur = -1;
    void* main_sp = nullptr;
    bool active = false;
    cxa_globals main_eh{};

    // ---- schedule -------------------------------------------------------------------------------------------------
    vf::rng rnd(1);
    int strategy = 0;
    uint64_t nsteps = 0, spawned_at = 0, joined_at = 0, shash = 0, nswitch = 0;
    uint64_t change_at[8]; int nchange = 0; uint32_t next_low = 1000;
    bool reuse = false;
    uint64_t c_exec = 0, c_points = 0, c_switches = 0, c_plain = 0, c_atomic = 0, c_locks = 0, c_contended = 0, c_blocks = 0, c_freed = 0;
    struct Point { uint8_t t; uint8_t kind; const void* addr; };
    Point ring[64]; unsigned nring = 0;

    // Thread-local variables: the program's TLS block is exchanged when fibers switch. Thread 0 keeps the process's own.
    char* tls_block = nullptr; const char* tls_image = nullptr; size_t tls_size = 0, tls_init = 0;
    int find_tls(dl_phdr_info* i, size_t, void*)
    {
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data)
            {
                tls_size = i->dlpi_phdr[k].p_memsz; tls_init = i->dlpi_phdr[k].p_filesz;
                tls_image = reinterpret_cast<const char*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
                tls_block = static_cast<char*>(i->dlpi_tls_data);
            }
        return 1; // the first object is the program
    }

    bool mine() { return active && cur >= 0 && !fib[cur].harness; }

    void shash_mix(uint64_t v) { shash ^= v + 0x9E3779B97F4A7C15ull + (shash << 6) + (shash >> 2); shash *= 0xff51afd7ed558ccdull; shash ^= shash >> 33; }
}

extern "C" void vf_switch(void** save, void* to);
asm(R"(
.text
.globl vf_switch
.type vf_switch,@function
vf_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vf_switch,.-vf_switch
)");

namespace
{
    // ---- reports --------------------------------------------------------------------------------------------------
    std::string where(void* pc)
    {
        Dl_info i;
        if (pc && dladdr(pc, &i) && i.dli_sname)
        {
            int st = 0;
            char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
            std::string s = d ? d : i.dli_sname;
            std::free(d);
            if (s.size() > 160) s = s.substr(0, 160) + "...";
            return s;
        }
        return "?";
    }
    std::string stack_of(const Fiber& f)
    {
        std::string s;
        for (int i = std::min(f.ncalls, 256) - 1, k = 0; i >= 0 && k < 14; --i, ++k) s += "\n      " + where(f.calls[i]);
        return s;
    }
    void describe_threads(const char* title)
    {
        vf::note("-- %s", title);
        for (int i = 0; i < nfib; ++i)
        {
            const Fiber& f = fib[i];
            vf::note("thread %d: %s%s, %s, holds %d lock(s), executing %s", i, f.state == BLOCKED ? "blocked on " : f.state == DONE ? "done" : "runnable",
                f.state == BLOCKED ? f.wait_kind : "", i == cur ? "current" : "", f.held, f.label);
            if (f.state != DONE) { vf::guard_harness g; vf::st().trace.push_back("   stack:" + stack_of(f)); }
        }
    }

    // ---- heap -----------------------------------------------------------------------------------------------------
    struct Rec { uint32_t epoch; uint8_t tid, mask, flags; void* pc; const char* label; }; // flags: 1 write, 2 atomic, 4 free
    constexpr int NREC = 10;
    struct Gran { uint8_t state; uint8_t n; uint8_t valid; Rec r[NREC]; }; // state: 0 never allocated, 1 allocated, 2 freed; valid: bytes at the end
    constexpr size_t ARENA = 2u << 20, NG = ARENA / 8;
    char* arena = nullptr; size_t used = 0, high = 0;
    Gran* gran = nullptr;
    struct Block { uint32_t size; uint32_t real; bool live; VC freed_at; };
    std::vector<Block>* blocks_; // index by order; address -> block through map
    std::unordered_map<const void*, size_t>* block_of;
    std::map<uint32_t, std::vector<void*>>* free_lists;
    size_t live_count = 0;
    std::vector<std::pair<size_t, size_t>>* kept_ranges; size_t next_kept = 0;
    size_t kept = 0;            // blocks of earlier executions that are still allocated (static storage)

    // globals of the program: shadow in a hash table
    std::unordered_map<uintptr_t, Gran>* gshadow;

    struct Sync { VC vc; };
    std::unordered_map<uintptr_t, Sync>* syncs;
    struct Lock { int owner = -1; int count = 0; int readers[MAXT] = {}; int nreaders = 0; VC w, r; bool rw = false; };
    std::unordered_map<uintptr_t, Lock>* locks;

    bool in_arena(const void* p) { return p >= arena && p < arena + ARENA; }
    bool is_global(const void* p) { return p >= &etext && p < &end; }

    [[noreturn]] void bad_access(const void* p, bool write, void* pc, const char* what)
    {
        fib[cur].harness++;
        describe_threads("state at the invalid access");
        fail("%s: %s by thread %d in %s while executing %s", what, write ? "write" : "read", cur, where(pc).c_str(), fib[cur].label);
    }

    [[noreturn]] void race(const Rec& o, uint8_t flags, void* pc)
    {
        fib[cur].harness++;
        describe_threads("state at the race");
        const char* kind[] = { "read", "write", "atomic read", "atomic write", "free", "free", "free", "free" };
        fail("data race: %s by thread %d in %s (%s), earlier unordered %s by thread %d in %s (%s)",
            kind[flags & 7], cur, where(pc).c_str(), fib[cur].label, kind[o.flags & 7], int(o.tid), where(o.pc).c_str(), o.label);
    }

    inline void check_gran(Gran& g, uint8_t mask, uint8_t flags, void* pc)
    {
        Fiber& f = fib[cur];
        int slot = -1;
        for (int i = 0; i < g.n; ++i)
        {
            Rec& r = g.r[i];
            if (r.tid == cur)
            {
                if (r.mask == mask && r.flags == flags) slot = i;
                continue;
            }
            if (!(r.mask & mask)) continue;
            if (!((r.flags | flags) & 5)) continue;            // both read
            if ((r.flags & 2) && (flags & 2)) continue;         // both atomic
            if (r.epoch > f.vc.v[r.tid]) race(r, flags, pc);
        }
        if (slot < 0)
        {
            if (g.n < NREC) slot = g.n++;
            else
            {
                slot = int(nsteps % NREC);
                for (int i = 0; i < g.n; ++i) if (g.r[i].epoch <= f.vc.v[g.r[i].tid]) { slot = i; break; }
            }
        }
        g.r[slot] = Rec{ f.vc.v[cur], uint8_t(cur), mask, flags, pc, f.label };
    }

    void access(const void* p, size_t n, uint8_t flags, void* pc)
    {
        if (!mine()) return;
        uintptr_t a = uintptr_t(p);
        if (in_arena(p))
        {
            ++c_plain;
            while (n)
            {
                size_t off = a & 7, k = std::min<size_t>(n, 8 - off);
                size_t gi = (a - uintptr_t(arena)) >> 3;
                if (gi >= NG) return;
                Gran& g = gran[gi];
                if (g.state != 1)
                    bad_access(p, flags & 1, pc, g.state == 2 ? "use after free" : "access outside of any allocated block");
                if (off + k > g.valid) bad_access(p, flags & 1, pc, "access past the end of an allocated block");
                check_gran(g, uint8_t(((1u << k) - 1) << off), flags, pc);
                a += k; n -= k;
            }
        }
        else if (is_global(p))
        {
            ++c_plain;
            while (n)
            {
                size_t off = a & 7, k = std::min<size_t>(n, 8 - off);
                Fiber& f = fib[cur]; f.harness++;
                Gran& g = (*gshadow)[a >> 3];
                f.harness--;
                check_gran(g, uint8_t(((1u << k) - 1) << off), flags, pc);
                a += k; n -= k;
            }
        }
    }

    // ---- scheduling -----------------------------------------------------------------------------------------------
    void go(int next)
    {
        if (next == cur) return;
        ++nswitch; ++c_switches;
        cxa_globals* g = reinterpret_cast<cxa_globals*>(abi::__cxa_get_globals());
        Fiber& f = fib[cur];
        f.eh = *g; *g = fib[next].eh;
        f.run_len = 0;
        if (tls_size) { std::memcpy(f.tls, tls_block, tls_size); std::memcpy(tls_block, fib[next].tls, tls_size); }
        cur = next;
        fib[next].run_len = 0;
        vf_switch(&f.sp, fib[next].sp);
    }

    [[noreturn]] void deadlock()
    {
        fib[cur].harness++;
        describe_threads("deadlock");
        std::string s;
        for (int i = 0; i < nfib; ++i) if (fib[i].state == BLOCKED) s += " thread " + std::to_string(i) + " waits for " + fib[i].wait_kind + " while executing " + fib[i].label + ";";
        fail("deadlock:%s", s.c_str());
    }

    int pick_other(bool include_cur)
    {
        int c[MAXT], n = 0;
        for (int i = 0; i < nfib; ++i) if (fib[i].state == RUNNABLE && (include_cur || i != cur)) c[n++] = i;
        if (!n) return -1;
        return c[rnd.below(uint32_t(n))];
    }
    int pick_prio()
    {
        int b = -1;
        for (int i = 0; i < nfib; ++i) if (fib[i].state == RUNNABLE && (b < 0 || fib[i].prio > fib[b].prio)) b = i;
        return b;
    }

    // The running fiber cannot go on (blocked or done).
    void leave()
    {
        int n = strategy >= 3 ? pick_prio() : pick_other(false);
        if (n < 0) deadlock();
        go(n);
    }

    void point(uint8_t kind, const void* addr, bool yields = false)
    {
        Fiber& f = fib[cur];
        ++nsteps; ++c_points;
        ring[nring++ % 64] = Point{ uint8_t(cur), kind, addr };
        shash_mix(uint64_t(cur) << 40 | uint64_t(kind) << 32 | uint32_t(in_arena(addr) ? uintptr_t(addr) - uintptr_t(arena) : 0));
        if (nsteps > 300000)
        {
            f.harness++;
            describe_threads("no end in sight");
            fail("the threads make no progress: %llu synchronisation steps in one execution", (unsigned long long)nsteps);
        }
        int n = cur;
        if (++f.run_len > 2000 || yields)
        {
            f.prio = next_low > 1 ? --next_low : 1;
            n = pick_other(false);
            if (n < 0) n = cur;
            f.run_len = 0;
        }
        else switch (strategy)
        {
            case 0: if (rnd.below(2) == 0) n = pick_other(true); break;
            case 1: if (rnd.below(6) == 0) n = pick_other(true); break;
            case 2: if (rnd.below(24) == 0) n = pick_other(true); break;
            default:
                for (int i = 0; i < nchange; ++i) if (spawned_at && change_at[i] == nsteps - spawned_at) { f.prio = next_low > 1 ? --next_low : 1; }
                n = pick_prio();
                break;
        }
        go(n);
    }

    void fiber_main()
    {
        Fiber& f = fib[cur];
        try { f.fn(f.arg); }
        catch (...) { f.harness++; describe_threads("exception left a thread"); fail("an exception escaped from thread %d while executing %s", cur, f.label); }
        while (f.nexits) { auto e = f.exits[--f.nexits]; e.f(e.o); }
        f.state = DONE;
        if (cur == 0)
        {
            cxa_globals* g = reinterpret_cast<cxa_globals*>(abi::__cxa_get_globals());
            *g = main_eh;
            vf_switch(&f.sp, main_sp);
        }
        for (int i = 0; i < nfib; ++i) if (fib[i].state == BLOCKED && fib[i].waits == &fib[0].fn) fib[i].state = RUNNABLE; // joiner looks again
        leave();
        std::abort();
    }

    int new_fiber(void (*fn)(void*), void* arg)
    {
        if (nfib >= MAXT) { std::fprintf(stderr, "HARNESS-ERROR too many threads\n"); std::_Exit(3); }
        int id = nfib++;
        Fiber& f = fib[id];
        if (!f.stack)
        {
            f.stack = static_cast<char*>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            mprotect(f.stack, 4096, PROT_NONE);
        }
        f.fn = fn; f.arg = arg; f.state = RUNNABLE; f.eh = cxa_globals{}; f.waits = nullptr; f.held = 0; f.run_len = 0; f.harness = 0; f.label = "start"; f.ncalls = 0;
        f.vc.clear(); f.rel_fence.clear(); f.acq_pending.clear(); f.nexits = 0;
        if (tls_size)
        {
            if (!f.tls) f.tls = static_cast<char*>(std::malloc(tls_size));
            std::memcpy(f.tls, tls_image, tls_init); std::memset(f.tls + tls_init, 0, tls_size - tls_init);
        }
        f.prio = 2000 + rnd.below(1000000);
        void** sp = reinterpret_cast<void**>(f.stack + 4096 + STACK);
        *--sp = nullptr;                                    // return address of fiber_main
        *--sp = reinterpret_cast<void*>(&fiber_main);
        for (int i = 0; i < 6; ++i) *--sp = nullptr;
        f.sp = sp;
        return id;
    }

    // ---- happens-before -------------------------------------------------------------------------------------------
    Sync* sync_at(const void* p, bool create)
    {
        Fiber& f = fib[cur]; f.harness++;
        Sync* s = nullptr;
        if (create) { auto it = syncs->find(uintptr_t(p)); if (it == syncs->end()) { s = &(*syncs)[uintptr_t(p)]; s->vc.clear(); } else s = &it->second; }
        else { auto it = syncs->find(uintptr_t(p)); if (it != syncs->end()) s = &it->second; }
        f.harness--;
        return s;
    }
    bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
    bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

    void hb_load(const void* p, int mo)
    {
        Fiber& f = fib[cur];
        if (Sync* s = sync_at(p, false)) { if (acq(mo)) f.vc.join(s->vc); else f.acq_pending.join(s->vc); }
    }
    void hb_store(const void* p, int mo, bool rmw)
    {
        Fiber& f = fib[cur];
        Sync* s = sync_at(p, true);
        if (!rmw) s->vc.clear();                            // a plain store ends the release sequence
        if (rel(mo)) { s->vc.join(f.vc); ++f.vc.v[cur]; }
        else s->vc.join(f.rel_fence);
    }

    // ---- locks ----------------------------------------------------------------------------------------------------
    Lock& lock_at(const void* p) { Fiber& f = fib[cur]; f.harness++; Lock& l = (*locks)[uintptr_t(p)]; f.harness--; return l; }
    void touch_lock(const void* p, void* pc)
    {
        if (in_arena(p) && gran[(uintptr_t(p) - uintptr_t(arena)) >> 3].state != 1) bad_access(p, true, pc, "use of a lock in freed memory");
    }
    void block_on(const void* p, const char* kind)
    {
        Fiber& f = fib[cur];
        f.state = BLOCKED; f.waits = p; f.wait_kind = kind; ++c_contended;
        leave();
    }
    void wake(const void* p) { for (int i = 0; i < nfib; ++i) if (fib[i].state == BLOCKED && fib[i].waits == p) { fib[i].state = RUNNABLE; fib[i].waits = nullptr; } }

    int lock_write(const void* p, bool try_, bool recursive, bool errorcheck, void* pc)
    {
        touch_lock(p, pc);
        point('L', p);
        touch_lock(p, pc);
        ++c_locks;
        for (;;)
        {
            Lock& l = lock_at(p);
            if (l.owner < 0 && !l.nreaders)
            {
                l.owner = cur; l.count = 1; ++fib[cur].held;
                fib[cur].vc.join(l.w); fib[cur].vc.join(l.r);
                return 0;
            }
            if (l.owner == cur)
            {
                if (recursive) { ++l.count; return 0; }
                if (try_) return EBUSY;
                if (errorcheck) return EDEADLK;
                describe_threads("self deadlock");
                fail("deadlock: thread %d locks a mutex it already holds while executing %s", cur, fib[cur].label);
            }
            if (try_) return EBUSY;
            block_on(p, "a mutex");
            touch_lock(p, pc);
        }
    }
    int lock_read(const void* p, bool try_, void* pc)
    {
        touch_lock(p, pc);
        point('R', p);
        ++c_locks;
        for (;;)
        {
            Lock& l = lock_at(p);
            l.rw = true;
            if (l.owner < 0) { ++l.readers[cur]; ++l.nreaders; ++fib[cur].held; fib[cur].vc.join(l.w); return 0; }
            if (try_) return EBUSY;
            if (l.owner == cur) { describe_threads("self deadlock"); fail("deadlock: thread %d read-locks a lock it holds for writing while executing %s", cur, fib[cur].label); }
            block_on(p, "a read-write lock");
        }
    }
    int unlock(const void* p, void* pc)
    {
        touch_lock(p, pc);
        Lock& l = lock_at(p);
        Fiber& f = fib[cur];
        if (l.owner == cur)
        {
            if (--l.count == 0)
            {
                l.owner = -1; --f.held; l.w.join(f.vc); ++f.vc.v[cur]; wake(p);
                point('U', p);
            }
            return 0;
        }
        if (l.readers[cur])
        {
            --l.readers[cur]; --l.nreaders; --f.held; l.r.join(f.vc); ++f.vc.v[cur]; wake(p);
            point('U', p);
            return 0;
        }
        describe_threads("bad unlock");
        fail("thread %d unlocks a lock it does not hold while executing %s", cur, f.label);
    }
    template<typename F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
    bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
    bool is_checking(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }
}

// ---- pthread ----------------------------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m) { if (!mine()) return 0; return lock_write(m, false, is_recursive(m), is_checking(m), PC); }
    int pthread_mutex_trylock(pthread_mutex_t* m) { if (!mine()) return 0; return lock_write(m, true, is_recursive(m), false, PC); }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { if (!mine()) return 0; return lock_write(m, false, is_recursive(m), false, PC); }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { if (!mine()) return 0; return lock_write(m, false, is_recursive(m), false, PC); }
    int pthread_mutex_unlock(pthread_mutex_t* m) { if (!mine()) return 0; return unlock(m, PC); }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!mine()) return 0; return lock_read(m, false, PC); }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!mine()) return 0; return lock_read(m, true, PC); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!mine()) return 0; return lock_write(m, false, false, false, PC); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!mine()) return 0; return lock_write(m, true, false, false, PC); }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!mine()) return 0; return unlock(m, PC); }
    int pthread_spin_lock(pthread_spinlock_t* m) { if (!mine()) return 0; return lock_write(const_cast<int*>(m), false, false, false, PC); }
    int pthread_spin_trylock(pthread_spinlock_t* m) { if (!mine()) return 0; return lock_write(const_cast<int*>(m), true, false, false, PC); }
    int pthread_spin_unlock(pthread_spinlock_t* m) { if (!mine()) return 0; return unlock(const_cast<int*>(m), PC); }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!mine()) return 0;
        Lock& l = lock_at(m); Fiber& f = fib[cur];
        l.owner = -1; l.count = 0; --f.held; l.w.join(f.vc); ++f.vc.v[cur]; wake(m);
        block_on(c, "a condition variable");
        return lock_write(m, false, false, false, PC);
    }
    int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const timespec*) { if (!mine()) return ETIMEDOUT; unlock(m, PC); point('T', m, true); lock_write(m, false, false, false, PC); return ETIMEDOUT; }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return pthread_cond_timedwait(c, m, t); }
    int pthread_cond_signal(pthread_cond_t* c) { if (mine()) { wake(c); point('C', c); } return 0; }
    int pthread_cond_broadcast(pthread_cond_t* c) { if (mine()) { wake(c); point('C', c); } return 0; }
    int sched_yield() { if (mine()) point('Y', nullptr, true); return 0; }
    int nanosleep(const timespec*, timespec*) { if (mine()) point('Y', nullptr, true); return 0; }
    int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { if (mine()) point('Y', nullptr, true); return 0; }
    int usleep(useconds_t) { if (mine()) point('Y', nullptr, true); return 0; }

    pthread_t pthread_self()
    {
        static auto r = real<pthread_t (*)()>("pthread_self");
        return mine() ? pthread_t(0x70000000 + cur * 64) : r();
    }
    int __cxa_thread_atexit(void (*f)(void*), void* o, void* d) noexcept
    {
        if (active && cur > 0)
        {
            Fiber& b = fib[cur];
            if (b.nexits == 32) { std::fprintf(stderr, "HARNESS-ERROR too many thread-local variables\n"); std::_Exit(3); }
            b.exits[b.nexits++] = Fiber::Exit{ f, o };
            return 0;
        }
        static auto r = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit");
        return r(f, o, d);
    }

    // static local variables
    int __cxa_guard_acquire(__cxxabiv1::__guard* g)
    {
        char* done = reinterpret_cast<char*>(g); char* busy = done + 1;
        for (;;)
        {
            if (*done) { if (mine()) hb_load(g, __ATOMIC_ACQUIRE); return 0; }
            if (!*busy) { *busy = 1; return 1; }
            if (!mine()) std::abort();
            block_on(g, "a static initialisation");
        }
    }
    void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
    {
        char* done = reinterpret_cast<char*>(g);
        if (mine()) hb_store(g, __ATOMIC_RELEASE, false);
        done[1] = 0; *done = 1;
        if (active) wake(g);
    }
    void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept { reinterpret_cast<char*>(g)[1] = 0; if (active) wake(g); }
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        for (;;)
        {
            if (*o == 2) { if (mine()) hb_load(o, __ATOMIC_ACQUIRE); return 0; }
            if (*o == 0) { *o = 1; f(); if (mine()) hb_store(o, __ATOMIC_RELEASE, false); *o = 2; if (active) wake(o); return 0; }
            if (!mine()) std::abort();
            block_on(o, "a one-time initialisation");
        }
    }
}

// ---- heap -------------------------------------------------------------------------------------------------------------
namespace
{
    void* alloc(size_t n, void* pc)
    {
        Fiber& f = fib[cur];
        f.harness++;
        size_t real = (n + 7) & ~size_t(7); if (!real) real = 8;
        void* p = nullptr; size_t id = 0;
        if (reuse)
        {
            auto it = free_lists->find(uint32_t(real));
            if (it != free_lists->end() && !it->second.empty())
            {
                p = it->second.back(); it->second.pop_back();
                id = (*block_of)[p];
                f.vc.join((*blocks_)[id].freed_at);         // the allocator synchronises free and reuse
            }
        }
        if (!p)
        {
            size_t at = used + 16;
            at = (at + 15) & ~size_t(15);
            while (next_kept < kept_ranges->size() && at + real + 16 > (*kept_ranges)[next_kept].first)
                at = ((*kept_ranges)[next_kept++].second + 16 + 15) & ~size_t(15);
            if (at + real + 16 > ARENA) { std::fprintf(stderr, "HARNESS-ERROR arena exhausted\n"); std::_Exit(3); }
            p = arena + at; used = at + real;
            id = blocks_->size(); blocks_->push_back(Block{}); (*block_of)[p] = id;
        }
        (*blocks_)[id].size = uint32_t(n); (*blocks_)[id].real = uint32_t(real); (*blocks_)[id].live = true;
        size_t g0 = (static_cast<char*>(p) - arena) >> 3;
        for (size_t i = 0; i < real / 8; ++i)
        {
            Gran& g = gran[g0 + i];
            g.state = 1; g.n = 0; g.valid = uint8_t(n >= (i + 1) * 8 ? 8 : n > i * 8 ? n - i * 8 : 0);
        }
        std::memset(p, 0xA5, real);
        ++live_count; ++c_blocks;
        f.harness--;
        (void)pc;
        return p;
    }
    void release(void* p, void* pc)
    {
        if (!p) return;
        if (!in_arena(p)) { std::free(p); return; }
        if (cur < 0 || !active) // static storage at the end of the program
        {
            auto i = block_of->find(p);
            if (i == block_of->end() || !(*blocks_)[i->second].live) fail("double free, or free of an address that was not allocated");
            (*blocks_)[i->second].live = false;
            return;
        }
        Fiber& f = fib[cur];
        f.harness++;
        auto it = block_of->find(p);
        if (it == block_of->end()) { describe_threads("bad free"); fail("free of an address that was not allocated by thread %d in %s (%s)", cur, where(pc).c_str(), f.label); }
        Block& b = (*blocks_)[it->second];
        if (!b.live) { describe_threads("double free"); fail("double free by thread %d in %s (%s)", cur, where(pc).c_str(), f.label); }
        for (auto& l : *locks)
            if (l.first >= uintptr_t(p) && l.first < uintptr_t(p) + b.real && (l.second.owner >= 0 || l.second.nreaders))
            { describe_threads("free of a locked lock"); fail("memory with a lock that is held is freed by thread %d (%s)", cur, f.label); }
        size_t g0 = (static_cast<char*>(p) - arena) >> 3;
        for (size_t i = 0; i < b.real / 8; ++i)
        {
            Gran& g = gran[g0 + i];
            uint8_t flags = 5;
            for (int k = 0; k < g.n; ++k) if (g.r[k].tid != cur && g.r[k].epoch > f.vc.v[g.r[k].tid]) race(g.r[k], flags, pc);
            g.state = 2;
        }
        b.live = false; --live_count; ++c_freed;
        b.freed_at = f.vc;
        std::memset(p, 0xDD, b.real);
        if (reuse) (*free_lists)[b.real].push_back(p);
        f.harness--;
    }
}

void* operator new(size_t n)
{
    if (mine()) return alloc(n, PC);
    void* p = std::malloc(n ? n : 1);
    if (!p) std::abort();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { release(p, PC); }
void operator delete[](void* p) noexcept { release(p, PC); }
void operator delete(void* p, size_t) noexcept { release(p, PC); }
void operator delete[](void* p, size_t) noexcept { release(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p, PC); }

// ---- instrumentation entry points -------------------------------------------------------------------------------------
#define ACC(N) \
    void __tsan_read##N(void* p) { access(p, N, 0, PC); } \
    void __tsan_write##N(void* p) { access(p, N, 1, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, 0, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, 1, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, 1, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, 1, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, 0, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, 1, PC); }
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void* pc) { if (active && cur >= 0) { Fiber& f = fib[cur]; if (f.ncalls < 256) f.calls[f.ncalls] = __builtin_return_address(0); ++f.ncalls; } (void)pc; }
    void __tsan_func_exit() { if (active && cur >= 0) --fib[cur].ncalls; }
    ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
    void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 1, PC); else access(p, 8, 0, PC); }
    void __tsan_vptr_read(void** p) { access(p, 8, 0, PC); }
    void __tsan_read_range(void* p, size_t n) { access(p, n, 0, PC); }
    void __tsan_write_range(void* p, size_t n) { access(p, n, 1, PC); }
    void* __tsan_memset(void* p, int c, size_t n) { access(p, n, 1, PC); return std::memset(p, c, n); }
    void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return std::memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return std::memmove(d, s, n); }

    void __tsan_atomic_thread_fence(int mo)
    {
        if (!mine()) return;
        Fiber& f = fib[cur];
        point('F', nullptr);
        if (acq(mo)) f.vc.join(f.acq_pending);
        if (rel(mo)) { f.rel_fence = f.vc; ++f.vc.v[cur]; }
    }
    void __tsan_atomic_signal_fence(int) {}
}
#define ATOMIC(B, T) \
extern "C" { \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) { \
        if (!mine()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
        ++c_atomic; point('r', const_cast<T*>(a)); access(const_cast<T*>(a), sizeof(T), 2, PC); hb_load(const_cast<T*>(a), mo); return *a; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { \
        if (!mine()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } \
        ++c_atomic; point('w', const_cast<T*>(a)); access(const_cast<T*>(a), sizeof(T), 3, PC); hb_store(const_cast<T*>(a), mo, false); *a = v; } \
    static T rmw##B(volatile T* a, int mo, void* pc) { \
        ++c_atomic; point('x', const_cast<T*>(a)); access(const_cast<T*>(a), sizeof(T), 3, pc); hb_load(const_cast<T*>(a), mo); hb_store(const_cast<T*>(a), mo, true); return *a; } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { if (!mine()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); T o = rmw##B(a, mo, PC); *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { if (!mine()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); T o = rmw##B(a, mo, PC); *a = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { if (!mine()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); T o = rmw##B(a, mo, PC); *a = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { if (!mine()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); T o = rmw##B(a, mo, PC); *a = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { if (!mine()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); T o = rmw##B(a, mo, PC); *a = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { if (!mine()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); T o = rmw##B(a, mo, PC); *a = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { if (!mine()) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); T o = rmw##B(a, mo, PC); *a = ~(o & v); return o; } \
    static bool cas##B(volatile T* a, T* c, T v, int mo, int fmo, void* pc) { \
        if (!mine()) { T o = *a; if (o == *c) { *a = v; return true; } *c = o; return false; } \
        ++c_atomic; point('x', const_cast<T*>(a)); T o = *a; \
        if (o == *c) { access(const_cast<T*>(a), sizeof(T), 3, pc); hb_load(const_cast<T*>(a), mo); hb_store(const_cast<T*>(a), mo, true); *a = v; return true; } \
        access(const_cast<T*>(a), sizeof(T), 2, pc); hb_load(const_cast<T*>(a), fmo); *c = o; return false; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas##B(a, c, v, mo, fmo, PC); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas##B(a, c, v, mo, fmo, PC); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { cas##B(a, &c, v, mo, fmo, PC); return c; } \
}
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)

// ---- interface --------------------------------------------------------------------------------------------------------
namespace rt
{
    monitor_section::monitor_section() { if (active && cur >= 0) fib[cur].harness++; }
    monitor_section::~monitor_section() { if (active && cur >= 0) fib[cur].harness--; }

    static void on_signal(int s)
    {
        static const char* n = s == SIGSEGV ? "a segmentation fault" : s == SIGABRT ? "an abort (uncaught exception or failed assertion)" : "a fatal signal";
        if (active && cur >= 0) { fib[cur].harness++; describe_threads("crash"); fail("crash: %s in thread %d while executing %s", n, cur, fib[cur].label); }
        fail("crash: %s", n);
    }

    static void init()
    {
        static bool done = false;
        if (done) return;
        done = true;
        __libc_single_threaded = 0;
        arena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        gran = static_cast<Gran*>(mmap(nullptr, NG * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        blocks_ = new std::vector<Block>; block_of = new std::unordered_map<const void*, size_t>; free_lists = new std::map<uint32_t, std::vector<void*>>;
        gshadow = new std::unordered_map<uintptr_t, Gran>; syncs = new std::unordered_map<uintptr_t, Sync>; locks = new std::unordered_map<uintptr_t, Lock>; kept_ranges = new std::vector<std::pair<size_t, size_t>>;
        dl_iterate_phdr(find_tls, nullptr);
        static char alt[65536];
        stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
        sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
    }

    void execute(uint64_t seed, int strat, uint64_t length, void (*fn)(void*), void* arg)
    {
        init();
        // clean state
        high = std::max(high, used);
        if (!live_count)
        {
            for (size_t i = 0, n = (high >> 3) + 4; i < n && i < NG; ++i) { gran[i].state = 0; gran[i].n = 0; }
            used = high = 0;
            blocks_->clear(); block_of->clear();
        }
        else // blocks that are kept by the library stay where they are
        {
            if (std::getenv("VF_KEPT")) std::fprintf(stderr, "kept %zu\n", live_count);
            for (size_t i = 0, n = (high >> 3) + 4; i < n && i < NG; ++i) { gran[i].n = 0; if (gran[i].state == 2) gran[i].state = 0; }
            std::vector<Block> b; kept_ranges->clear();
            for (auto it = block_of->begin(); it != block_of->end();)
            {
                Block& x = (*blocks_)[it->second];
                if (!x.live) { it = block_of->erase(it); continue; }
                size_t at = size_t(static_cast<const char*>(it->first) - arena);
                kept_ranges->emplace_back(at, at + x.real);
                it->second = b.size(); b.push_back(x); b.back().freed_at.clear();
                ++it;
            }
            blocks_->swap(b);
            std::sort(kept_ranges->begin(), kept_ranges->end());
            used = 0;
        }
        if (!live_count) kept_ranges->clear();
        next_kept = 0;
        kept = live_count;
        free_lists->clear(); gshadow->clear(); syncs->clear(); locks->clear();
        rnd = vf::rng(seed); strategy = strat % STRATEGIES; nsteps = 0; spawned_at = joined_at = 0; shash = 0; nswitch = 0; next_low = 1000; nring = 0;
        reuse = rnd.below(2) == 0;
        const uint64_t est_len = std::max<uint64_t>(16, length);
        nchange = strategy == 3 ? 1 : strategy == 4 ? 2 : strategy == 5 ? 3 + int(rnd.below(3)) : 0;
        for (int i = 0; i < nchange; ++i) change_at[i] = 1 + rnd.next() % est_len;
        nfib = 0;
        for (auto& f : fib) f.state = FREE;
        cxa_globals* g = reinterpret_cast<cxa_globals*>(abi::__cxa_get_globals());
        main_eh = *g; *g = cxa_globals{};
        int id = new_fiber(fn, arg);
        fib[id].vc.v[id] = 1;
        cur = id; active = true;
        vf_switch(&main_sp, fib[id].sp);
        active = false; cur = -1;
        
        ++c_exec;
    }

    void spawn(void (*fn)(void*), void* arg)
    {
        fib[cur].harness++;
        if (!spawned_at) spawned_at = nsteps + 1;
        int id = new_fiber(fn, arg);
        fib[id].vc = fib[cur].vc;
        fib[id].vc.v[id] = 1;
        ++fib[cur].vc.v[cur];
        fib[cur].harness--;
    }
    void join_all()
    {
        for (;;)
        {
            bool open = false;
            for (int i = 1; i < nfib; ++i) if (fib[i].state != DONE) open = true;
            if (!open) break;
            fib[cur].state = BLOCKED; fib[cur].waits = &fib[0].fn; fib[cur].wait_kind = "the end of the other threads";
            leave();
        }
        for (int i = 1; i < nfib; ++i) fib[cur].vc.join(fib[i].vc);
        joined_at = nsteps;
    }
    int self() { return cur < 0 ? 0 : cur; }
    void yield() { if (mine()) point('y', nullptr); }
    int locks_held() { return cur < 0 ? 0 : fib[cur].held; }
    bool controlled() { return true; }
    uint64_t steps() { return nsteps; }
    uint64_t parallel_steps() { return joined_at > spawned_at ? joined_at - spawned_at : 0; }
    uint64_t schedule_hash() { return shash; }
    void set_label(const char* w) { if (cur >= 0) fib[cur].label = w; }
    void check_leaks()
    {
        if (live_count <= kept || vf::unconfirmed_leak()) return;
        fib[cur].harness++;
        size_t n = 0, sz = 0; for (auto& b : *blocks_) if (b.live) { ++n; sz = b.size; }
        fail("memory leak: %zu blocks (one of %zu bytes) are still allocated after everything was destroyed", n, sz);
    }
    void collect_counters()
    {
        vf::count("executions", c_exec); vf::count("schedule_points", c_points); vf::count("context_switches", c_switches); vf::count("plain_accesses_checked", c_plain);
        vf::count("atomic_operations", c_atomic); vf::count("lock_operations", c_locks); vf::count("contended_waits", c_contended);
        vf::count("heap_blocks", c_blocks); vf::count("heap_blocks_freed", c_freed);
    }
}

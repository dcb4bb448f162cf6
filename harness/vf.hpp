// Shared monitor runtime of the sequential drivers: PRNG, trace, verdicts, canaries, evidence counters.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <unistd.h>

#if defined(__has_feature) // clang
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#elif defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#endif
#ifdef VF_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vf
{
    struct rng
    {
        uint64_t s;
        explicit rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        // uniform in [0,n)
        uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 32) * uint64_t(n) >> 32) : 0; }
        bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
        template<typename T> const T& pick(const std::vector<T>& v) { return v[below(uint32_t(v.size()))]; }
    };

    // ---- options -------------------------------------------------------------------------------------------------
    struct options
    {
        uint64_t seed = 1;
        long cases = 1000;
        long first = 0;
        long only = -1;
        std::string profile;
        bool verbose = false;
        std::string hashes; // file that receives the hashes of the distinct non-trivial cases
        std::string extra;
    };
    inline options& opt() { static options o; return o; }

    inline void parse(int argc, char** argv)
    {
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") opt().seed = std::strtoull(val().c_str(), nullptr, 10);
            else if (a == "--cases") opt().cases = std::atol(val().c_str());
            else if (a == "--first") opt().first = std::atol(val().c_str());
            else if (a == "--only") opt().only = std::atol(val().c_str());
            else if (a == "--profile") opt().profile = val();
            else if (a == "--hashes") opt().hashes = val();
            else if (a == "--extra") opt().extra = val();
            else if (a == "-v") opt().verbose = true;
            else { std::fprintf(stderr, "bad option %s\n", a.c_str()); std::_Exit(2); }
        }
    }

    // ---- trace and verdicts --------------------------------------------------------------------------------------
    struct state
    {
        long current_case = -1;
        const char* what = "";
        std::vector<std::string> trace;
        size_t dropped = 0;
        std::map<std::string, uint64_t> counters;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        uint64_t hash = 0;
        uint64_t evaluations = 0;
        void (*describe)(FILE*) = nullptr; // prints the workload of the current case
        bool harness = false; // monitor code is running (allocation faults are off)
        bool leak_pending = false; int leak_runs = 0;
    };
    inline state& st() { static state* s = new (std::malloc(sizeof(state))) state; return *s; } // never destroyed: usable at any time

    inline void dump_trace(FILE* f)
    {
        std::fprintf(f, "CASE %ld (%s) seed %llu\n", st().current_case, st().what, (unsigned long long)opt().seed);
        if (st().dropped) std::fprintf(f, "  ... %zu earlier steps\n", st().dropped);
        for (auto& t : st().trace) std::fprintf(f, "  %s\n", t.c_str());
        if (st().describe) st().describe(f);
        std::fflush(f);
    }

    struct guard_harness_flag
    {
        bool h;
        guard_harness_flag() : h(st().harness) { st().harness = true; }
        ~guard_harness_flag() { st().harness = h; }
    };

    inline void mix(uint64_t v)
    {
        uint64_t& h = st().hash;
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 33;
    }

    inline void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    inline void tr(const char* fmt, ...)
    {
        bool h = st().harness; st().harness = true;
        char buf[400];
        va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        for (const char* p = buf; *p; ++p) mix(uint64_t(*p));
        if (opt().verbose) std::fprintf(stderr, "    %s\n", buf);
        auto& t = st().trace;
        if (t.size() >= 400) { t.erase(t.begin(), t.begin() + 200); st().dropped += 200; }
        t.push_back(buf);
        st().harness = h;
    }

    // A line that is shown but does not make the case a different one (seeds, addresses).
    inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    inline void note(const char* fmt, ...)
    {
        bool h = st().harness; st().harness = true;
        char buf[400];
        va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (opt().verbose) std::fprintf(stderr, "    %s\n", buf);
        st().trace.push_back(buf);
        st().harness = h;
    }

    [[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    [[noreturn]] inline void fail(const char* fmt, ...)
    {
        st().harness = true;
        char buf[1000];
        va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        std::fflush(stdout);
        std::fprintf(stderr, "MISMATCH case=%ld %s\n", st().current_case, buf);
        dump_trace(stderr);
        std::fprintf(stderr, "MISMATCH-END\n");
        std::fflush(stderr);
        std::_Exit(1);
    }

    inline void count(const char* name, uint64_t n = 1)
    {
        bool h = st().harness; st().harness = true;
        st().counters[name] += n;
        st().harness = h;
    }

    inline void on_death() { dump_trace(stderr); }

    inline void begin_case(long k, const char* what)
    {
        state& s = st();
        guard_harness_flag g;
        s.current_case = k; s.what = what; s.trace.clear(); s.dropped = 0; s.hash = 0;
    }
    // A case counts as non-trivial if the monitor judged at least one event in it.
    inline void end_case(bool nontrivial)
    {
        state& s = st();
        guard_harness_flag g;
        ++s.evaluations;
        if (nontrivial) s.distinct.insert(s.hash);
        if (nontrivial && s.samples.size() < 2 && s.trace.size() >= 3 && s.trace.size() <= 60)
        {
            std::string x;
            for (auto& t : s.trace) { x += t; x += "; "; }
            s.samples.push_back(x);
        }
    }

    inline std::string js(const std::string& s)
    {
        std::string o = "\"";
        for (char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if ((unsigned char)c < 32) o += ' ';
            else o += c;
        }
        return o + "\"";
    }

    extern uint64_t mutex_acquisitions; // lockshim.cpp
    extern long locks_held;
    inline uint64_t& addresses_reused() { static uint64_t n = 0; return n; } // counted by fault.cpp
    inline bool& forbid_locks() { static bool b = false; return b; } // callables must not be called or destroyed while a lock is held

    // fault.cpp: blocks allocated by library code (not by the monitor) and not yet freed.
    void track_blocks(bool on);
    size_t live_blocks();
    struct fault_state { long countdown = -1; bool fired = false; uint64_t injected = 0; };
    inline fault_state& faults() { static fault_state f; return f; }
    // A block that outlives its case may belong to a cache with static storage. It is a leak if the same case, run again and again, always leaves more.
    inline bool unconfirmed_leak()
    {
        if (st().leak_runs >= 2) return false;
        st().leak_pending = true;
        return true;
    }
    template<typename F> void run_one(long k, const char* what, F f)
    {
        state& s = st();
        s.leak_runs = 0;
        do { s.leak_pending = false; begin_case(k, what); f(k); ++s.leak_runs; } while (s.leak_pending);
        s.leak_runs = 0;
    }
    inline void expect_no_blocks(const char* when)
    {
        guard_harness_flag g;
        if (size_t n = live_blocks())
        {
            if (unconfirmed_leak()) return;
            fail("memory leak: %zu blocks allocated by the library are not freed %s", n, when);
        }
    }

    inline void summary()
    {
        state& s = st();
        s.harness = true;
        if (addresses_reused()) s.counters["addresses_reused"] += addresses_reused();
        if (mutex_acquisitions) s.counters["mutex_acquisitions"] += mutex_acquisitions;
        if (!opt().hashes.empty())
            if (FILE* f = std::fopen(opt().hashes.c_str(), "wb"))
            {
                for (uint64_t h : s.distinct) std::fwrite(&h, sizeof h, 1, f);
                std::fclose(f);
            }
        std::string o = "SUMMARY {\"evaluations\":" + std::to_string(s.evaluations) +
            ",\"distinct_nontrivial\":" + std::to_string(s.distinct.size()) + ",\"counters\":{";
        bool first = true;
        for (auto& c : s.counters) { o += (first ? "" : ",") + js(c.first) + ":" + std::to_string(c.second); first = false; }
        o += "},\"samples\":[";
        first = true;
        for (auto& c : s.samples) { o += (first ? "" : ",") + js(c); first = false; }
        o += "]}";
        std::printf("%s\n", o.c_str());
        std::fflush(stdout);
    }

    inline void init(int argc, char** argv)
    {
        parse(argc, argv);
#ifdef VF_ASAN
        __sanitizer_set_death_callback(on_death);
#endif
    }

    inline uint64_t case_seed(long k, uint64_t salt = 0)
    {
        return opt().seed * 1000003ull + uint64_t(k) * 7919ull + salt * 104729ull + 17;
    }

    template<typename F> void run_cases(const char* what, long cases, F f)
    {
        if (opt().only >= 0) { run_one(opt().only, what, f); return; }
        for (long k = opt().first; k < opt().first + cases; ++k) run_one(k, what, f);
    }

    // ---- canaries: every construction, use and destruction of an instrumented object is observed --------------------
    // Registry of live objects by address; per-uid live counts.
    struct registry
    {
        std::unordered_map<const void*, int> live; // address -> uid
        std::unordered_map<int, int> per_uid;
        uint64_t created = 0, destroyed = 0;
    };
    inline registry& reg() { static registry* r = new (std::malloc(sizeof(registry))) registry; return *r; }

    using guard_harness = guard_harness_flag;

    class canary
    {
    public:
        int uid;
        explicit canary(int u = -1) : uid(u) { add(); }
        canary(const canary& o) : uid(o.uid) { o.check("copied"); add(); }
        canary(canary&& o) noexcept : uid(o.uid) { o.check("moved"); add(); }
        canary& operator=(const canary& o) { o.check("copied"); check("assigned"); remove(); uid = o.uid; add(); return *this; }
        canary& operator=(canary&& o) noexcept { o.check("moved"); check("assigned"); remove(); uid = o.uid; add(); return *this; }
        ~canary() { check("destroyed"); if (locks_held && forbid_locks()) fail("object %p (uid %d) is destroyed while the library holds a lock", (const void*)this, uid); remove(); }
        void check(const char* how) const
        {
            guard_harness g;
            auto it = reg().live.find(this);
            if (it == reg().live.end()) fail("object %p (uid %d) is %s but is not alive", (const void*)this, uid, how);
            if (it->second != uid) fail("object %p is %s with uid %d, expected %d: memory was overwritten", (const void*)this, how, uid, it->second);
        }
    private:
        void add() const
        {
            guard_harness g;
            if (!reg().live.emplace(this, uid).second) fail("object constructed at %p over a live object", (const void*)this);
            ++reg().per_uid[uid]; ++reg().created;
        }
        void remove() const
        {
            guard_harness g;
            reg().live.erase(this); ++reg().destroyed;
            if (--reg().per_uid[uid] == 0) reg().per_uid.erase(uid);
        }
    };
    inline int live_uid(int uid) { auto it = reg().per_uid.find(uid); return it == reg().per_uid.end() ? 0 : it->second; }
}

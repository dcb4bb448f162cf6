// Many threads (2 to 100 at a time, and hundreds one after another) on the same signals, real threads under ThreadSanitizer or AddressSanitizer.
// Each thread judges what only its own actions decide: slots run in the thread that emits, so every thread sees its emissions completely.
#include "vf.hpp"
#include <signals.hpp>
#include <algorithm>
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <time.h>
#include <unistd.h>

namespace vf { uint64_t mutex_acquisitions = 0; long locks_held = 0; }
namespace
{
    using vf::rng;
    std::mutex fail_mutex; // only one report
    template<typename... A> [[noreturn]] void bad(const char* f, A... a) { fail_mutex.lock(); vf::fail(f, a...); }

    std::atomic<long> case_began{ 0 }; // cpu seconds of the process
    uint64_t threads = 0, most = 0;
    double seconds() { struct timespec x; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &x); return double(x.tv_sec) + double(x.tv_nsec) * 1e-9; }
    std::atomic<long> judged{ 0 }, alive{ 0 }, emissions{ 0 };
    std::atomic<int> tag{ 0 };
    thread_local std::vector<int>* ran = nullptr;   // ids of the slots that ran in the current emission of this thread
    thread_local int now = 0;                       // argument of the current emission of this thread
    thread_local int depth = 0;

    struct life
    {
        std::atomic<uint32_t> m{ 0x11FE11FE };
        life() { alive.fetch_add(1, std::memory_order_relaxed); }
        life(const life& o) { o.use(); alive.fetch_add(1, std::memory_order_relaxed); }
        ~life() { use(); m.store(0xDEADDEAD, std::memory_order_relaxed); alive.fetch_sub(1, std::memory_order_relaxed); }
        void use() const { if (m.load(std::memory_order_relaxed) != 0x11FE11FE) bad("a callable or object is used that is not alive"); }
    };
    struct fn
    {
        int id, key; life l; std::string text; // a state on the heap
        fn(int i, int k) : id(i), key(k), text("callable " + std::to_string(i) + " with a state that lives on the heap") {}
        int operator()(int a) const
        {
            l.use();
            if (a != now) bad("slot %d received %d, the emission passed %d", id, a, now);
            if (text[0] != 'c') bad("the state of slot %d is destroyed", id);
            if (ran) ran->push_back(id);
            return id;
        }
        friend bool operator==(const fn& a, const fn& b) { return a.key == b.key; }
    };
    struct obj
    {
        int id; life l;
        explicit obj(int i) : id(i) {}
        int run(int a) { l.use(); if (a != now) bad("slot %d received %d, the emission passed %d", id, a, now); if (ran) ran->push_back(id); std::this_thread::yield(); l.use(); return id; }
    };
    using signal = sig::signal<int(int)>;

    std::vector<int> emit(const signal& s)
    {
        std::vector<int> r; auto* before = ran; int was = now;
        ran = &r; now = tag.fetch_add(1, std::memory_order_relaxed); ++depth;
        auto v = s(now);
        --depth; now = was; ran = before;
        emissions.fetch_add(1, std::memory_order_relaxed); judged.fetch_add(1, std::memory_order_relaxed);
        std::vector<int> sorted(r); std::sort(sorted.begin(), sorted.end());
        for (size_t i = 1; i < sorted.size(); ++i) if (sorted[i] == sorted[i - 1]) bad("slot %d ran twice in one emission", sorted[i]);
        if (bool(v) != !r.empty()) bad("an emission in which %zu slots ran returned %s", r.size(), v ? "a value" : "nothing");
        if (v && *v != r.back()) bad("an emission returned %d, the last slot that ran was %d", *v, r.back());
        return r;
    }
    bool has(const std::vector<int>& r, int id) { return std::find(r.begin(), r.end(), id) != r.end(); }
    // ids 0 .. n-1 are connected for good: they run in every emission, first and in this order.
    void permanent(const std::vector<int>& r, int n)
    {
        int i = 0;
        for (int id : r) if (id < n) { if (id != i) bad("slot %d ran where slot %d is due", id, i); ++i; }
        if (i != n) bad("an emission ran %d of %d slots that are always connected", i, n);
    }

    template<typename F> void parallel(int t, F f)
    {
        std::atomic<int> ready{ 0 };
        std::vector<std::thread> v;
        for (int i = 0; i < t; ++i) v.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < t) std::this_thread::yield(); f(i); });
        for (auto& x : v) x.join();
    }
    void jitter(rng& r) { if (r.chance(1, 3)) std::this_thread::yield(); else if (r.chance(1, 8)) for (volatile int i = 0, n = int(r.below(400)); i < n; i = i + 1) {} }

    // One thread's own slots, on a signal that everybody uses.
    void own_slots(signal& s, int me, int perm, int rounds, uint64_t seed)
    {
        rng r(seed);
        for (int round = 0; round < rounds; ++round)
        {
            int k = 1 + int(r.below(3)), base = 1000 + me * 100;
            std::vector<sig::connection> c; std::vector<sig::scoped_connection> sc;
            for (int i = 0; i < k; ++i) { c.push_back(s.connect(fn(base + i, base))); if (!c.back().connected()) bad("a new connection is not connected"); jitter(r); }
            auto e = emit(s); permanent(e, perm);
            for (int i = 0; i < k; ++i) if (!has(e, base + i)) bad("slot %d was connected by the emitting thread and did not run", base + i);
            int b = int(r.below(uint32_t(k)));
            {
                sig::connection_blocker keep;
                if (r.chance(1, 2)) c[size_t(b)].block(); else keep = c[size_t(b)].blocker();
                if (!c[size_t(b)].blocked()) bad("a blocked slot does not report it");
                e = emit(s); permanent(e, perm);
                for (int i = 0; i < k; ++i) if (has(e, base + i) == (i == b)) bad(i == b ? "slot %d is blocked and ran" : "slot %d did not run", base + i);
                c[size_t(b)].unblock();
            }
            int how = int(r.below(4)), gone = 0;
            if (how == 1) { sc.emplace_back(c[0]); sc.clear(); ++gone; if (c[0].connected()) bad("the slot of a scope that has ended is connected"); }
            else if (how == 2) { if (!c[0].disconnect()) bad("disconnecting a connected slot reports false"); ++gone; if (c[0].disconnect()) bad("disconnecting twice reports true"); }
            if (how != 3) { e = emit(s); permanent(e, perm); for (int i = 0; i < k; ++i) if (has(e, base + i) == (i < gone)) bad(i < gone ? "slot %d is disconnected and ran" : "slot %d did not run", base + i); }
            if (r.chance(1, 2)) { size_t n = s.disconnect(fn(-1, base)); if (int(n) != k - gone) bad("disconnecting by callable reports %zu instead of %d", n, k - gone); }
            else for (int i = gone; i < k; ++i) if (!c[size_t(i)].disconnect()) bad("disconnecting a connected slot reports false");
            for (auto& x : c) if (x.connected() || x.disconnect()) bad("a disconnected slot reports that it is connected");
            e = emit(s); permanent(e, perm);
            for (int id : e) if (id >= base && id < base + 100) bad("slot %d is disconnected and ran", id);
            judged.fetch_add(8, std::memory_order_relaxed);
        }
    }

    void mix(int t, rng& r)
    {
        signal s; int perm = r.chance(1, 4) ? 33 + int(r.below(120)) : int(r.below(5)); std::vector<sig::connection> p;
        for (int i = 0; i < perm; ++i) p.push_back(s.connect(fn(i, i)));
        uint64_t seed = r.next(); int rounds = std::max(1, 40 / t);
        parallel(t, [&](int i) { own_slots(s, i, perm, rounds, seed + uint64_t(i)); });
        auto e = emit(s); permanent(e, perm);
        if (int(e.size()) != perm) bad("slots that nobody has left connected run");
    }
    void short_lived(int t, rng& r) // several hundred threads in all, each new
    {
        signal s; int perm = 2; auto a = s.connect(fn(0, 0)), b = s.connect(fn(1, 1));
        for (int n = 0; n < 200 / t + 1; ++n) { uint64_t seed = r.next(); parallel(t, [&](int i) { own_slots(s, i, perm, 1, seed + uint64_t(i)); }); }
        if (!a.disconnect() || !b.disconnect()) bad("a slot that was left connected cannot be disconnected");
        if (!emit(s).empty()) bad("a signal without slots runs one");
    }
    void pool(int t, rng& r) // everybody disconnects everything
    {
        signal s; int n = 1 + int(r.below(r.chance(1, 4) ? 200 : 24)), keys = 1 + int(r.below(6));
        std::vector<sig::connection> c; std::atomic<long> ok{ 0 };
        for (int i = 0; i < n; ++i) c.push_back(s.connect(fn(i, i % keys)));
        int keep = r.chance(1, 2) ? int(r.below(uint32_t(n))) : -1; // not disconnected by handle; by callable perhaps
        bool erases = r.chance(1, 2); uint64_t seed = r.next();
        std::vector<std::vector<sig::connection>> own(static_cast<size_t>(t), c);
        parallel(t, [&](int me) {
            rng q(seed + uint64_t(me)); auto& h = own[size_t(me)];
            std::vector<int> order; for (int i = 0; i < n; ++i) order.push_back(i);
            for (int i = n - 1; i > 0; --i) std::swap(order[size_t(i)], order[q.below(uint32_t(i + 1))]);
            for (int i : order)
            {
                if (q.chance(1, 8)) emit(s);
                if (erases && q.chance(1, 4)) { int k = int(q.below(uint32_t(keys))); if (keep < 0 || k != keep % keys) { ok += long(s.disconnect(fn(-1, k))); auto e = emit(s); for (int id : e) if (id % keys == k) bad("slot %d ran after it was disconnected by its callable", id); } }
                if (i == keep) continue;
                if (h[size_t(i)].disconnect()) ok += 1;
                if (h[size_t(i)].connected()) bad("slot %d is connected after disconnect() has returned", i);
                if (q.chance(1, 4)) { auto e = emit(s); if (has(e, i)) bad("slot %d ran after it was disconnected", i); }
                judged.fetch_add(2, std::memory_order_relaxed);
            }
        });
        long want = keep >= 0 ? n - 1 : n;
        if (ok != want) bad("%ld disconnections of %ld slots were reported as successful", ok.load(), want);
        auto e = emit(s);
        if (e != (keep >= 0 ? std::vector<int>{ keep } : std::vector<int>{})) bad("afterwards %zu slots run instead of %d", e.size(), keep >= 0);
        own.clear();
        if (alive != (keep >= 0)) bad("%ld callables are alive afterwards", alive.load());
    }
    void blockers(int t, rng& r)
    {
        signal s; auto c = s.connect(fn(0, 0)), d = s.connect(fn(1, 1)); uint64_t seed = r.next();
        parallel(t, [&](int me) {
            rng q(seed + uint64_t(me)); sig::connection mine(c);
            for (int k = 0; k < std::max(2, 60 / t); ++k)
            {
                std::vector<sig::connection_blocker> b;
                for (int n = 1 + int(q.below(4)); n > 0; --n) b.push_back(mine.blocker());
                for (size_t n = b.size(); n-- > 0;)
                {
                    if (!mine.blocked()) bad("a slot with living blockers is not blocked");
                    auto e = emit(s);
                    if (has(e, 0)) bad("a slot ran although this thread blocks it");
                    if (!has(e, 1)) bad("a slot nobody blocks did not run");
                    if (n) { if (q.chance(1, 2)) { sig::connection_blocker x(std::move(b[n])); } b.resize(n); }
                }
                b.clear(); jitter(q);
                judged.fetch_add(4, std::memory_order_relaxed);
            }
        });
        if (c.blocked()) bad("a slot is blocked although no blocker is left");
        if (emit(s) != std::vector<int>{ 0, 1 }) bad("a slot does not run although no blocker is left");
    }
    void tracked(int t, rng& r)
    {
        signal s; int n = 1 + int(r.below(r.chance(1, 5) ? 90 : 6)); std::vector<std::vector<std::shared_ptr<obj>>> own(static_cast<size_t>(t), std::vector<std::shared_ptr<obj>>(static_cast<size_t>(n)));
        std::vector<sig::connection> c; uint64_t seed = r.next();
        for (int i = 0; i < n; ++i)
        {
            auto o = std::make_shared<obj>(i); c.push_back(s.connect(&obj::run, o));
            bool any = false;
            for (auto& x : own) if (r.chance(1, 2)) { x[size_t(i)] = o; any = true; }
            if (!any) own[0][size_t(i)] = o;
        }
        parallel(t, [&](int me) {
            rng q(seed + uint64_t(me)); auto& mine = own[size_t(me)]; std::vector<sig::connection> h(c);
            for (int i = 0; i < n; ++i)
            {
                auto e = emit(s);
                for (int k = i; k < n; ++k) if (mine[size_t(k)]) { if (!has(e, k)) bad("slot %d did not run although this thread owns its object", k); if (!h[size_t(k)].connected()) bad("slot %d is not connected although its object exists", k); }
                mine[size_t(i)].reset(); jitter(q);
                if (q.chance(1, 2)) emit(s);
                judged.fetch_add(2, std::memory_order_relaxed);
            }
        });
        for (auto& x : c) if (x.connected()) bad("a slot is connected although its object is gone");
        if (alive) bad("%ld objects are alive without owner", alive.load());
        if (!emit(s).empty()) bad("a slot ran although its object is gone");
    }
    void ring(int t, rng& r) // signals that emit into each other, everybody everywhere
    {
        int n = 2 + int(r.below(5)); std::vector<std::unique_ptr<signal>> s; uint64_t seed = r.next();
        for (int i = 0; i < n; ++i) s.emplace_back(new signal);
        for (int i = 0; i < n; ++i)
            s[size_t(i)]->connect([&s, i, n](int) -> int
            {
                if (ran) ran->push_back(i);
                if (depth < 5) { auto e = emit(*s[size_t((i + 1) % n)]); if (!has(e, (i + 1) % n)) bad("a nested emission did not run its slot"); }
                return i;
            });
        parallel(t, [&](int me) {
            rng q(seed + uint64_t(me));
            for (int k = 0; k < std::max(1, 40 / t); ++k)
            {
                int i = int(q.below(uint32_t(n))), j = int(q.below(uint32_t(n)));
                auto c = s[size_t(j)]->connect([&s, j, me](int) -> int { if (ran) ran->push_back(1000 + me); (void)s; (void)j; return 1000 + me; });
                auto e = emit(*s[size_t(i)]);
                if (!has(e, i)) bad("a slot that is always connected did not run");
                if (i == j && !has(e, 1000 + me)) bad("a slot was connected by the emitting thread and did not run");
                if (!c.disconnect()) bad("disconnecting a connected slot reports false");
                judged.fetch_add(2, std::memory_order_relaxed);
            }
        });
    }
    void shared_slots(int t, rng& r) // the same slot objects are connected, compared and copied by everybody
    {
        using slot = sig::slot<int(int)>;
        signal s; auto owner = std::make_shared<obj>(5);
        const int kinds = 1 + int(r.below(5)); uint64_t seed = r.next();
        std::atomic<long> connects{ 0 }, gone{ 0 };
        {
            std::vector<slot> proto; obj raw(7);
            for (int k = 0; k < kinds; ++k) proto.push_back(k == 4 ? slot(&obj::run, owner) : k == 3 ? slot(&obj::run, &raw) : slot(fn(k, k)));
            const std::vector<slot>& shared = proto;
            parallel(t, [&](int me) {
                rng q(seed + uint64_t(me)); long made = 0, lost = 0; std::vector<sig::connection> mine;
                for (int n = 0; n < std::max(2, 60 / t); ++n)
                {
                    const slot& x = shared[q.below(uint32_t(kinds))];
                    const bool tracked = &x == &shared[0] + 4;
                    switch (q.below(5))
                    {
                    case 0: { slot copy(x); if (!tracked && !(copy == x)) bad("the copy of a slot is not equal to it"); if (!copy.connected()) bad("the copy of a slot is not connected"); mine.push_back(s.connect(copy)); ++made; } break;
                    case 1: if (!tracked) { lost += long(s.disconnect(x)); } break;
                    case 2: if (!mine.empty()) { lost += mine.back().disconnect(); if (mine.back().connected()) bad("a slot is connected after disconnect()"); mine.pop_back(); } break;
                    default: mine.push_back(s.connect(x)); ++made; break;
                    }
                    jitter(q); judged.fetch_add(1, std::memory_order_relaxed);
                }
                for (auto& c : mine) lost += c.disconnect();
                connects += made; gone += lost;
            });
            if (gone != connects) bad("%ld slots were connected, %ld disconnections were reported", connects.load(), gone.load());
            if (alive != 2 + std::min(kinds, 3)) bad("%ld callables and objects are alive, %d are owned", alive.load(), 2 + std::min(kinds, 3));
            now = 1; std::vector<int> none; ran = &none; if (s(1) || !none.empty()) bad("a disconnected slot ran"); ran = nullptr;
        }
    }
    void cow(int t, rng& r)
    {
        using cp = sig::detail::cow_ptr<std::vector<int>>;
        cp base = sig::detail::make_cow<std::vector<int>>(size_t(1 + r.below(50)), 7);
        const size_t n = const_cast<const cp&>(base).read().size(); std::vector<cp> own(static_cast<size_t>(t), base); uint64_t seed = r.next();
        if (r.chance(1, 2)) base = cp();
        parallel(t, [&](int me) {
            rng q(seed + uint64_t(me)); cp h(own[size_t(me)]); own[size_t(me)] = cp();
            std::vector<int> want(n, 7);
            for (int k = 0; k < 6; ++k)
            {
                if (const_cast<const cp&>(h).read() != want) bad("a value was changed by another thread's handle");
                cp copy(h);
                if (q.chance(1, 2)) { int v = int(q.below(1000)); size_t at = q.below(uint32_t(n)); h.write()[at] = v; const auto old = want; want[at] = v; if (const_cast<const cp&>(copy).read() != old) bad("a write through one handle shows in another"); }
                jitter(q); judged.fetch_add(2, std::memory_order_relaxed);
            }
            if (const_cast<const cp&>(h).read() != want) bad("a value was changed by another thread's handle");
        });
        if (base) if (const_cast<const cp&>(base).read() != std::vector<int>(n, 7)) bad("a value was changed by another thread's handle");
    }
}
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    std::thread([] { // nothing has happened and no cpu time was used for 30 s: every thread waits
        struct timespec a, b; long seen = -1; int quiet = 0;
        for (clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);; a = b)
        {
            usleep(1000000);
            clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
            const long used = long(b.tv_sec - a.tv_sec) * 1000000 + long(b.tv_nsec - a.tv_nsec) / 1000, j = judged;
            quiet = used < 20000 && j == seen ? quiet + 1 : 0; seen = j;
            if (quiet == 30) bad("deadlock: every thread waits");
            // ThreadSanitizer can starve the thread that releases a spin lock; livelocks of the library are for the scheduler to find.
            if (b.tv_sec - case_began > 60) { std::printf("SUMMARY {\"evaluations\":0,\"distinct_nontrivial\":0,\"counters\":{\"judged_events\":%ld,\"cases_abandoned_because_slow\":1},\"samples\":[]}\n", judged.load()); std::fflush(stdout); std::_Exit(0); }
        }
    }).detach();
    struct { const char* name; void (*f)(int, rng&); const char* props; } all[] = {
        { "mix", mix, "C14 C15 C23 C05 C01" }, { "short-lived", short_lived, "C14 C15" }, { "pool", pool, "C14 C23 C05 C11" }, { "blockers", blockers, "C14 C08" },
        { "tracked", tracked, "C14 C17 C09" }, { "ring", ring, "C14 C16 C15 C10" }, { "shared-slots", shared_slots, "C14 C21 C23" }, { "cow", cow, "C20" } };
    std::vector<int> use;
    for (int i = 0; i < int(sizeof all / sizeof *all); ++i) if (std::string(all[i].props).find(vf::opt().profile) != std::string::npos) use.push_back(i);
    static const int sizes[] = { 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100 };
    int most_allowed = 100;
    if (vf::opt().only < 0) // a library that spins instead of waiting is right, but slow with many threads
    {
        rng r(5);
        for (int t : { 6, 12, 24, 48 }) { const double t0 = seconds(); short_lived(t, r); if (seconds() - t0 > (t < 24 ? 0.8 : t < 48 ? 2.5 : 5)) { most_allowed = std::max(4, t / 2); vf::count("threads_limited_because_slow"); break; } }
        judged = 0; emissions = 0;
    }
    vf::run_cases("many threads", vf::opt().cases, [&](long k)
    {
        rng r(vf::case_seed(k, 31));
        auto& sc = all[use[size_t(k) % use.size()]];
        int t = sizes[r.below(r.chance(1, 3) ? 21 : 12)];
        if (seconds() > 40) { vf::count("cases_left_out_because_slow"); vf::end_case(false); return; }
        while (t > most_allowed) t = t / 2;
        const double t0 = seconds(); case_began = long(t0);
        vf::tr("%s with %d threads", sc.name, t);
        vf::note("random %llu", (unsigned long long)r.s);
        vf::mix(r.s);
        long before = judged;
        alive = 0;
        sc.f(t, r);
        if (alive) vf::fail("%ld callables or objects are alive at the end", alive.load());
        if (seconds() - t0 > 4 && most_allowed > 2 && t > 2) most_allowed = t / 2;
        vf::end_case(judged > before);
        vf::count(sc.name); threads += uint64_t(t); if (uint64_t(t) > most) most = uint64_t(t);
    });
    vf::count("judged_events", uint64_t(judged.load())); vf::count("emissions", uint64_t(emissions.load())); vf::count("real_threads_started", threads); vf::count("most_threads_at_once", most);
    vf::summary();
}

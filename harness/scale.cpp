// Behaviour at every scale: each scenario has a size N (slots, handles, blockers, signals, depth of recursion, repetitions ...)
// that runs through small numbers and both sides of every power of two up to 65536; the expected result has a closed form.
#include "vf.hpp"
#include <signals.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <time.h>
using namespace vf;
namespace
{
    rng R(1);
    uint64_t judged = 0;
    long alive = 0;                 // instances of callables and bound objects
    std::vector<int> ran;           // ids of the slots that ran
    std::vector<int> none;

    struct counted
    {
        counted() { ++alive; } counted(const counted&) { ++alive; } counted(counted&&) noexcept { ++alive; }
        counted& operator=(const counted&) = default; ~counted() { --alive; }
    };
    // comparable by key
    struct F
    {
        counted c; int id, key;
        F(int i, int k) : id(i), key(k) {}
        int operator()(int x) const { guard_harness g; ran.push_back(id); return x + id; }
        bool operator==(const F& o) const { return key == o.key; }
    };
    using sg = sig::signal<int(int)>;
    template<typename Fn> struct L // not comparable
    {
        counted c; Fn f;
        explicit L(Fn x) : f(x) {}
        int operator()(int x) const { return f(x); }
    };
    template<typename Fn> L<Fn> mk(Fn f) { return L<Fn>(f); }
    template<typename Fn> struct L2 { counted c; Fn f; template<typename... A> void operator()(A&&... a) const { f(std::forward<A>(a)...); } };
    template<typename Fn> L2<Fn> mk2(Fn f) { return L2<Fn>{ {}, f }; }

    void expect_run(const sg& s, const std::vector<int>& want, const char* when, bool check_result = true)
    {
        { guard_harness g; ran.clear(); }
        auto res = s(1);
        guard_harness g;
        ++judged;
        if (ran != want)
        {
            size_t i = 0; while (i < ran.size() && i < want.size() && ran[i] == want[i]) ++i;
            fail("%s: the emission ran %zu slots instead of %zu; position %zu: ran %d, expected %d", when, ran.size(), want.size(), i, i < ran.size() ? ran[i] : -1, i < want.size() ? want[i] : -1);
        }
        if (!check_result) return;
        if (want.empty() ? bool(res) : (!res || *res != 1 + want.back())) fail("%s: the emission did not return the result of the last slot", when);
    }
    // list with removal that moves the last element into the gap
    struct order
    {
        std::vector<int> l, at;
        void add(int id) { guard_harness g; if (size_t(id) >= at.size()) at.resize(size_t(id) + 1, -1); at[size_t(id)] = int(l.size()); l.push_back(id); }
        void remove(int id) { guard_harness g; int p = at[size_t(id)]; l[size_t(p)] = l.back(); at[size_t(l.back())] = p; l.pop_back(); at[size_t(id)] = -1; }
    };
    std::vector<int> sequence(int n, int how) // an order in which to visit 0..n-1
    {
        guard_harness g;
        std::vector<int> v(size_t(n), 0);
        for (int i = 0; i < n; ++i) v[size_t(i)] = i;
        if (how == 1) std::reverse(v.begin(), v.end());
        if (how >= 2) for (int i = n - 1; i > 0; --i) std::swap(v[size_t(i)], v[R.below(uint32_t(i + 1))]);
        return v;
    }

    // ---- scenarios ----------------------------------------------------------------------------------------------------------
    void s_order(int n)
    {
        sg s; std::vector<sig::connection> c; order o;
        for (int i = 0; i < n; ++i) { c.push_back(s.connect(F(i, i))); o.add(i); }
        expect_run(s, o.l, "after connecting");
        int k = 0, step = std::max(1, n / 4);
        for (int i : sequence(n, int(R.below(4))))
        {
            if (!c[size_t(i)].connected()) fail("slot %d of %d is not connected", i, n);
            if (!c[size_t(i)].disconnect()) fail("slot %d of %d cannot be disconnected", i, n);
            if (c[size_t(i)].disconnect() || c[size_t(i)].connected()) fail("slot %d of %d can be disconnected twice", i, n);
            o.remove(i); judged += 3;
            if (++k % step == 0 || k == 1) expect_run(s, o.l, "after disconnecting");
            if (k == n / 2) for (int j = 0; j < 3; ++j) { guard_harness g; int id = n + j; st().harness = false; c.push_back(s.connect(F(id, id))); o.add(id); }
        }
        expect_run(s, o.l, "at the end");
        if (alive != long(o.l.size())) fail("%ld callables are alive, %zu slots are connected", alive, o.l.size());
    }
    void s_erase(int n)
    {
        sg s; std::vector<sig::connection> c;
        int m = 1 + int(R.below(5));
        for (int i = 0; i < n; ++i) c.push_back(s.connect(F(i, i % m)));
        int key = int(R.below(uint32_t(m))), want = 0;
        for (int i = 0; i < n; ++i) want += i % m == key;
        if (s.disconnect(F(-1, m)) != 0) fail("disconnecting by a callable that is not connected removed something");
        size_t got = s.disconnect(F(-1, key));
        if (got != size_t(want)) fail("disconnecting by callable returned %zu, %d of %d slots are equal", got, want, n);
        for (int i = 0; i < n; ++i) if (c[size_t(i)].connected() != (i % m != key)) fail("slot %d of %d: connected() is wrong after disconnecting by callable", i, n);
        judged += 2 + uint64_t(n);
        if (s.disconnect(F(-1, key)) != 0) fail("disconnecting by callable again removed something");
        { guard_harness g; ran.clear(); }
        s(1);
        guard_harness g;
        std::sort(ran.begin(), ran.end());
        std::vector<int> w; for (int i = 0; i < n; ++i) if (i % m != key) w.push_back(i);
        if (ran != w) fail("after disconnecting by callable %zu slots run instead of %zu", ran.size(), w.size());
    }
    void s_blockers(int n)
    {
        sg s; sig::connection a = s.connect(F(0, 0)), b = s.connect(F(1, 1)), c = s.connect(F(2, 2));
        std::vector<sig::connection_blocker> v;
        for (int i = 0; i < n; ++i)
        {
            if (b.blocked() != (i > 0)) fail("blocked() is %d with %d blockers", int(b.blocked()), i);
            v.push_back(b.blocker());
        }
        judged += uint64_t(n) + 1;
        expect_run(s, n ? std::vector<int>{ 0, 2 } : std::vector<int>{ 0, 1, 2 }, "with all blockers");
        if (R.chance(1, 2)) b.block(), b.unblock(); // does not affect the blockers
        for (int i = n; i > 0; --i)
        {
            if (!b.blocked()) fail("not blocked although %d of %d blockers are alive", i, n);
            if (a.blocked() || c.blocked()) fail("another slot is blocked");
            size_t k = R.below(uint32_t(v.size()));
            if (k + 1 != v.size()) v[k] = std::move(v.back());
            v.pop_back();
            if (i == 2 || i == n) expect_run(s, i == 1 ? std::vector<int>{ 0, 1, 2 } : std::vector<int>{ 0, 2 }, "while blockers die");
        }
        if (b.blocked()) fail("still blocked after the last of %d blockers is gone", n);
        expect_run(s, { 0, 1, 2 }, "after the blockers are gone");
    }
    void s_toggle(int n)
    {
        sg s; std::vector<sig::connection> c; 
        for (int i = 0; i < 4; ++i) c.push_back(s.connect(F(i, i)));
        for (int i = 0; i < n; ++i) { c[1].block(); if (R.chance(1, 3)) { sig::connection_blocker x = c[2].blocker(); } if (!c[1].blocked()) fail("not blocked in round %d", i); if (i + 1 < n || R.chance(1, 2)) { c[1].unblock(); if (c[1].blocked()) fail("still blocked in round %d", i); } }
        judged += uint64_t(2 * n);
        bool b = c[1].blocked();
        expect_run(s, b ? std::vector<int>{ 0, 2, 3 } : std::vector<int>{ 0, 1, 2, 3 }, "after blocking and unblocking many times");
        for (int i = 0; i < n; ++i) c[1].block();
        c[1].unblock(); // any number of block() calls is undone by one unblock()
        expect_run(s, { 0, 1, 2, 3 }, "after blocking many times and unblocking once");
    }
    void s_handles(int n)
    {
        sg s; sig::connection a = s.connect(F(0, 0)), b = s.connect(F(1, 1)), z = s.connect(F(2, 2));
        std::vector<sig::connection> v;
        for (int i = 0; i < n; ++i) v.push_back(i && R.chance(1, 2) ? v[R.below(uint32_t(i))] : b);
        for (auto& h : v) if (!h.connected() || !h.valid()) fail("a copy of a handle is not connected");
        judged += 2 * uint64_t(n);
        expect_run(s, { 0, 1, 2 }, "with many handles");
        int yes = 0;
        for (int i : sequence(n, 3)) { sig::connection t = v[size_t(i)]; yes += R.chance(1, 3) ? t.disconnect() : v[size_t(i)].disconnect(); }
        if (yes != (n ? 1 : 0)) fail("%d of %d handles report to have disconnected the slot", yes, n);
        for (auto& h : v) if (h.connected()) fail("a copy of a handle still reports connected");
        expect_run(s, n ? std::vector<int>{ 0, 2 } : std::vector<int>{ 0, 1, 2 }, "after disconnecting through one of many handles");
        if (!a.connected() || !z.connected()) fail("another slot was disconnected");
    }
    void s_scoped(int n)
    {
        sg s; order o;
        {
            std::vector<sig::scoped_connection> v; // grows: the scoped connections are moved
            for (int i = 0; i < n; ++i) { if (i % 3) v.push_back(s.connect_scoped(F(i, i))); else v.emplace_back(s.connect(F(i, i))); o.add(i); }
            expect_run(s, o.l, "with scoped connections");
            std::vector<sig::connection> released;
            int stop = n / 2; std::vector<int> at;
            { guard_harness g; for (int i = 0; i < n; ++i) at.push_back(i); }
            while (int(v.size()) > stop)
            {
                size_t k = R.below(uint32_t(v.size()));
                int id = at[k];
                if (R.chance(1, 4)) { released.push_back(v[k].release()); if (!released.back().connected()) fail("releasing disconnects"); }
                else o.remove(id);
                if (k + 1 != v.size()) { v[k] = std::move(v.back()); guard_harness g; at[k] = at.back(); }
                v.pop_back();
                { guard_harness g; at.pop_back(); }
                ++judged;
            }
            expect_run(s, o.l, "after half of the scoped connections died");
            { guard_harness g; for (int id : at) o.remove(id); } // the others die now (first to last), those released stay
        }
        judged++;
        { guard_harness g; ran.clear(); }
        s(1);
        guard_harness g;
        std::vector<int> a = ran, b = o.l; // many removals: compared as sets
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) fail("after all scoped connections died %zu slots run instead of %zu", a.size(), b.size());
    }
    void s_recursion(int n)
    {
        n = std::min(n, 1025);
        sg s; int depth = 0; long leaf = 0, top = 0;
        s.connect(mk([&](int x) { ++top; ++depth; int d = depth; if (d <= n) { auto r = s(x + 1); if (!r || *r != -(x + 1)) fail("a nested emission at depth %d did not return its own result", d); } if (depth != d) fail("nested emissions are out of step"); --depth; return x; }));
        s.connect(mk([&](int x) { ++leaf; return -x; }));
        auto r = s(0);
        if (!r || *r != 0) fail("the outermost of %d nested emissions returned a wrong result", n + 1);
        if (top != n + 1 || leaf != n + 1) fail("%d nested emissions ran the slots %ld and %ld times", n + 1, top, leaf);
        judged += uint64_t(n) + 2;
    }
    void s_recursive_changes(int n) // every level connects a slot and disconnects the previous one
    {
        n = std::min(n, 700);
        sg s; int depth = 0; std::vector<int> runs(size_t(n) + 2, 0); std::vector<sig::connection> c(size_t(n) + 2);
        s.connect(mk([&](int x) {
            int d = depth++;
            if (d < n)
            {
                c[size_t(d)] = s.connect(mk([&, d](int) { ++runs[size_t(d)]; return d; }));
                if (d >= 2 && !c[size_t(d - 2)].disconnect()) fail("a slot cannot be disconnected at depth %d", d);
                s(x);
            }
            --depth;
            return x;
        }));
        s(0);
        // slot d is part of the emissions of depth > d; it is gone before any of them reaches it, unless nothing disconnected it
        for (int d = 0; d < n; ++d)
        {
            int want = d + 2 < n ? 0 : n - d; 
            if (runs[size_t(d)] != want) fail("the slot connected at depth %d of %d ran %d times instead of %d", d, n, runs[size_t(d)], want);
        }
        judged += uint64_t(n) + 1;
    }
    void s_churn(int n)
    {
        sg s; s.connect(F(0, 0)); s.connect(F(1, 1));
        sig::connection last;
        size_t blocks = 0;
        for (int i = 0; i < n; ++i)
        {
            sig::connection c = s.connect(F(2, 2));
            if (i % 64 == 0) expect_run(s, { 0, 1, 2 }, "in a series of connects and disconnects");
            if (last.connected() || last.disconnect()) fail("the handle of an earlier slot became connected again in round %d", i);
            switch (R.below(4))
            {
            case 0: if (s.disconnect(F(9, 2)) != 1) fail("disconnecting by callable did not remove one slot in round %d", i); break;
            case 1: { sig::scoped_connection x(c); } break;
            default: if (!c.disconnect()) fail("disconnecting failed in round %d", i);
            }
            if (c.connected()) fail("still connected in round %d", i);
            if (alive != 2) fail("%ld callables are alive with two slots connected in round %d", alive, i);
            last = c; judged += 4;
            if (i == 10) blocks = live_blocks();
            if (i > 10 && live_blocks() > blocks + 64) fail("memory grows: %zu blocks in round %d, %zu in round 10", live_blocks(), i, blocks);
        }
        expect_run(s, { 0, 1 }, "after a series of connects and disconnects");
    }
    void s_unseen(int n) // n changes between two emissions, after which the list is as long as before
    {
        sg s; std::vector<sig::connection> c; order o; int next = 0, oldest = 0;
        auto add = [&] { c.push_back(s.connect(F(next, next))); o.add(next++); };
        auto drop = [&] { if (!c[size_t(oldest)].disconnect()) fail("disconnecting the oldest slot failed"); o.remove(oldest++); };
        add(); add();
        expect_run(s, o.l, "before the changes");
        for (int i = 0; i < n; ++i) if (i % 2) drop(); else add();
        expect_run(s, o.l, "after changes that no emission has seen");
        for (int i = 0; i < n; ++i) { c.back().block(); if (!c.back().blocked()) fail("block %d is not reported", i); c.back().unblock(); }
        expect_run(s, o.l, "after blocks that no emission has seen");
        judged += uint64_t(2 * n);
    }
    void s_emissions(int n)
    {
        sg s; sig::connection a = s.connect(F(0, 0)), b = s.connect(F(1, 1)), c = s.connect(F(2, 2));
        b.block();
        for (int i = 0; i < n; ++i)
        {
            { guard_harness g; ran.clear(); }
            auto r = s(i);
            if (ran.size() != 2 || ran[0] != 0 || ran[1] != 2 || !r || *r != i + 2) fail("emission %d went wrong", i);
        }
        judged += uint64_t(n);
        b.unblock();
        expect_run(s, { 0, 1, 2 }, "after many emissions");
        s.connect(F(3, 3)); a.disconnect();
        expect_run(s, { 3, 1, 2 }, "after many emissions and a change");
    }
    void s_signals(int n)
    {
        n = std::min(n, 20000);
        std::vector<sg> v; std::vector<sig::connection> c; // grows: the signals are moved
        for (int i = 0; i < n; ++i) { v.emplace_back(); c.push_back(v.back().connect(F(i, i))); c.push_back(v.back().connect(F(i + 1000000, i))); }
        std::vector<int> who; { guard_harness g; for (int i = 0; i < n; ++i) who.push_back(i); }
        for (int i = 0; i + 1 < n && i < 300; ++i) // signals change places
        {
            size_t a = R.below(uint32_t(n)), b = R.below(uint32_t(n));
            std::swap(v[a], v[b]);
            guard_harness g; std::swap(who[a], who[b]);
        }
        for (int i = 0; i < n; ++i) expect_run(v[size_t(i)], { who[size_t(i)], who[size_t(i)] + 1000000 }, "one of many signals");
        for (int i = 0; i < n; i += 2) if (!c[size_t(2 * i)].disconnect()) fail("the handle of signal %d of %d does not work", i, n);
        for (int i = 0; i < n; ++i)
        {
            int w = who[size_t(i)];
            expect_run(v[size_t(i)], w % 2 ? std::vector<int>{ w, w + 1000000 } : std::vector<int>{ w + 1000000 }, "one of many signals, after disconnecting");
        }
        v.resize(size_t(n) / 2); // the others are destroyed
        std::vector<char> left(size_t(n), 0); for (size_t i = 0; i < v.size(); ++i) left[size_t(who[i])] = 1;
        for (int i = 0; i < n; ++i) if (c[size_t(2 * i) + 1].connected() != bool(left[size_t(i)])) fail("handle of signal %d of %d reports the wrong state", i, n);
        judged += 2 * uint64_t(n);
    }
    struct O
    {
        counted c; int id; explicit O(int i) : id(i) {}
        int f(int x) { guard_harness g; ran.push_back(id); return x + id; }
    };
    void s_tracked(int n)
    {
        sg s; std::vector<std::shared_ptr<O>> o; std::vector<sig::connection> c; std::vector<int> want, owner;
        int m = 1 + int(R.below(4));
        for (int i = 0; i < m; ++i) o.push_back(std::make_shared<O>(i));
        for (int i = 0; i < n; ++i) { int k = int(R.below(uint32_t(m))); c.push_back(s.connect(&O::f, o[size_t(k)])); owner.push_back(k); want.push_back(k); }
        for (int k = 0; k < m; ++k) if (o[size_t(k)].use_count() != 1) fail("an object with slots has %ld owners", o[size_t(k)].use_count());
        expect_run(s, want, "with tracked objects");
        for (int k = 0; k < m; ++k)
        {
            o[size_t(k)].reset();
            if (alive != m - k - 1) fail("%ld objects are alive after %d of %d were released", alive, k + 1, m);
            { guard_harness g; want.erase(std::remove(want.begin(), want.end(), k), want.end()); }
            for (int i = 0; i < n; ++i) if (c[size_t(i)].connected() != (owner[size_t(i)] > k)) fail("slot %d of %d: connected() is wrong after its object died", i, n);
            expect_run(s, want, "after a tracked object died");
            judged += uint64_t(n);
        }
    }
    void s_connect_during(int n)
    {
        sg s; int todo = n, next = 1;
        s.connect(mk([&](int x) { while (todo > 0) { --todo; s.connect(F(next++, 0)); } { guard_harness g; ran.push_back(0); } return x; }));
        expect_run(s, { 0 }, "an emission that connects slots", false);
        std::vector<int> w = sequence(n + 1, 0);
        expect_run(s, w, "the emission after slots were connected in an emission", n > 0);
        if (s.disconnect(F(0, 0)) != size_t(n)) fail("not all slots connected during an emission can be disconnected");
    }
    void s_disconnect_during(int n)
    {
        sg s; std::vector<sig::connection> c; std::vector<int> gone, w;
        int how = int(R.below(3)); bool done = false;
        std::vector<sig::scoped_connection> sc;
        s.connect(mk([&](int x) {
            if (!done)
            {
                done = true;
                for (int i : gone)
                {
                    if (how == 0) { if (!c[size_t(i)].disconnect()) fail("slot %d of %d cannot be disconnected during an emission", i, n); }
                    else if (how == 1) sc[size_t(i)] = sig::scoped_connection();
                }
                if (how == 2 && s.disconnect(F(0, 1)) != gone.size()) fail("disconnecting by callable during an emission returned a wrong number");
            }
            guard_harness g; ran.push_back(n); return x;
        }));
        { guard_harness g; w.push_back(n); }
        for (int i = 0; i < n; ++i)
        {
            bool g = R.chance(1, 2);
            c.push_back(s.connect(F(i, g)));
            sc.emplace_back(); if (how == 1) sc.back() = sig::scoped_connection(c.back());
            guard_harness h; if (g) gone.push_back(i); else w.push_back(i);
        }
        { guard_harness g; auto q = sequence(int(gone.size()), 3); std::vector<int> t; for (int i : q) t.push_back(gone[size_t(i)]); gone.swap(t); }
        expect_run(s, w, "an emission whose first slot disconnects others", w.size() > 1);
        for (auto& x : sc) x.release();
        { guard_harness g; ran.clear(); }
        s(1);
        guard_harness g; std::sort(ran.begin(), ran.end()); std::sort(w.begin(), w.end());
        if (ran != w) fail("the emission after slots were disconnected in an emission ran %zu slots instead of %zu", ran.size(), w.size());
        if (alive != long(w.size())) fail("%ld callables are alive, %zu slots are connected", alive, w.size());
    }
    void s_oneshot(int n) // every slot disconnects itself
    {
        sg s; std::vector<sig::connection> c(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i) c[size_t(i)] = s.connect(mk([&c, i](int x) { { guard_harness g; ran.push_back(i); } if (!c[size_t(i)].disconnect()) fail("slot %d cannot disconnect itself", i); return x + i; }));
        expect_run(s, sequence(n, 0), "slots that disconnect themselves");
        expect_run(s, {}, "after all slots disconnected themselves");
        if (alive) fail("%ld callables are alive after all slots disconnected themselves", alive);
    }
    void s_chain(int n) // signal i emits signal i + 1
    {
        n = std::min(std::max(n, 1), 1025);
        std::vector<std::unique_ptr<sg>> v; int hits = 0;
        for (int i = 0; i < n; ++i) v.emplace_back(new sg);
        for (int i = 0; i < n; ++i) v[size_t(i)]->connect(mk([&, i](int x) { ++hits; if (i + 1 < n) { auto r = (*v[size_t(i) + 1])(x + 1); return r ? *r : -1; } return x; }));
        auto r = (*v[0])(5);
        if (hits != n || !r || *r != 5 + n - 1) fail("a chain of %d signals ran %d slots and returned %d", n, hits, r ? *r : -1);
        judged += uint64_t(n);
    }
    void s_moves(int n)
    {
        std::unique_ptr<sg> s(new sg); sig::connection a = s->connect(F(0, 0)), b = s->connect(F(1, 1)), c = s->connect(F(2, 2));
        b.block();
        for (int i = 0; i < n; ++i)
        {
            std::unique_ptr<sg> t;
            if (i % 2) t.reset(new sg(std::move(*s))); else { t.reset(new sg); t->connect(F(7, 7)); *t = std::move(*s); }
            if (i % 50 == 0) { expect_run(*s, {}, "a signal that was moved from"); if (alive != 3) fail("%ld callables are alive after a move", alive); }
            s.swap(t);
        }
        expect_run(*s, { 0, 2 }, "a signal that was moved many times");
        b.unblock();
        if (!a.disconnect() || !b.connected() || !c.connected()) fail("the handles do not work after %d moves", n);
        expect_run(*s, { 2, 1 }, "a signal that was moved many times and changed");
        s.reset();
        if (b.connected() || c.connected() || b.disconnect()) fail("handles report connected after the signal is gone");
        if (alive) fail("%ld callables are alive after the signal is gone", alive);
    }
    void s_destroy(int n) // a signal with n slots is moved and destroyed, sometimes by one of its slots
    {
        std::unique_ptr<sg> s(new sg); std::vector<sig::connection> c; std::vector<sig::scoped_connection> sc; std::vector<sig::connection_blocker> bl;
        int killer = n ? int(R.below(uint32_t(n))) : -1; bool inside = R.chance(1, 2);
        for (int i = 0; i < n; ++i)
        {
            c.push_back(inside && i == killer ? s->connect(mk([&, i](int x) { { guard_harness g; ran.push_back(i); } s.reset(); return x; })) : s->connect(F(i, i)));
            if (i % 5 == 0) sc.emplace_back(c.back());
            if (i % 7 == 0 && i != killer) bl.push_back(c.back().blocker());
        }
        std::vector<int> w; { guard_harness g; for (int i = 0; i < n; ++i) { if (i % 7 == 0 && i != killer) continue; w.push_back(i); if (inside && i == killer) break; } }
        std::unique_ptr<sg> t(new sg(std::move(*s)));
        s.swap(t); t.reset();
        expect_run(*s, w, "a signal that may be destroyed by a slot", false);
        if (inside && n ? bool(s) : !s) fail("harness: signal");
        s.reset();
        for (auto& x : c) if (x.connected() || x.disconnect()) fail("a handle reports connected after the signal is gone");
        if (alive) fail("%ld callables are alive after the signal is gone", alive);
        bl.clear(); sc.clear(); judged += uint64_t(n);
    }
    struct boom { int id; };
    void s_moved_list(int n) // a signal with n slots changes hands and is used through the handles it had before
    {
        sg s, other; std::vector<sig::connection> c; order o; int how = int(R.below(4));
        for (int i = 0; i < n; ++i) { c.push_back(s.connect(F(i, i % 3))); o.add(i); }
        sig::connection old = other.connect(F(-1, 9));
        std::unique_ptr<sg> t;
        if (how == 0) t.reset(new sg(std::move(s)));
        else if (how == 1) { t.reset(new sg); *t = std::move(s); }
        else if (how == 2) { other = std::move(s); t.reset(new sg(std::move(other))); if (old.connected()) fail("a slot of the target of a move is connected"); }
        else { std::swap(s, other); t.reset(new sg); std::swap(*t, other); if (!old.connected()) fail("a swapped slot is not connected"); }
        expect_run(*t, o.l, "a signal that was moved");
        expect_run(s, how == 3 ? std::vector<int>{ -1 } : none, "a signal that was moved from");
        int k = 0;
        for (int i : sequence(n, int(R.below(4))))
        {
            auto& x = c[size_t(i)];
            if (R.chance(1, 8)) { x.block(); if (!x.blocked()) fail("slot %d of a moved signal cannot be blocked", i); x.unblock(); }
            if (R.chance(1, 3)) continue;
            if (!x.connected() || !x.disconnect() || x.connected()) fail("handle %d of %d does not work after the signal was moved", i, n);
            o.remove(i); ++judged;
            if (++k % std::max(1, n / 4) == 1 || n < 2) expect_run(*t, o.l, "a signal that was moved, after disconnecting");
        }
        expect_run(*t, o.l, "a signal that was moved, after disconnecting");
        size_t want = 0; for (int id : o.l) want += id % 3 == 1;
        if (t->disconnect(F(0, 1)) != want) fail("disconnecting by callable on a moved signal did not remove %zu slots", want);
        if (s.disconnect(F(0, 0)) != 0) fail("a signal that was moved from still has the slots");
        if (alive != long(o.l.size() - want) + (how != 2)) fail("%ld callables are alive", alive);
        t.reset();
        for (auto& x : c) if (x.connected() || x.disconnect()) fail("a handle reports connected after the signal is gone");
        judged += uint64_t(n);
    }
    void s_throwing(int n)
    {
        sg s; int thrower = -1;
        int m = 5;
        for (int i = 0; i < m; ++i) s.connect(mk([&, i](int x) { { guard_harness g; ran.push_back(i); } if (i == thrower) throw boom{ i }; return x + i; }));
        for (int k = 0; k < n; ++k)
        {
            thrower = int(R.below(uint32_t(m)));
            { guard_harness g; ran.clear(); }
            bool threw = false;
            try { s(1); } catch (const boom& b) { threw = b.id == thrower; }
            if (!threw || int(ran.size()) != thrower + 1) fail("round %d: an emission whose slot %d throws ran %zu slots", k, thrower, ran.size());
            ++judged;
        }
        thrower = -1;
        expect_run(s, sequence(m, 0), "after many emissions that threw");
        sig::connection c = s.connect(F(m, m));
        expect_run(s, sequence(m + 1, 0), "after many emissions that threw and a connect");
        if (!c.disconnect()) fail("cannot disconnect after emissions that threw");
    }
    struct sum_until
    {
        using result_type = long;
        template<typename It> long operator()(It a, It b) const { long r = 0; for (; a != b; ++a) { auto v = *a; if (v) r += *v; if (v && *v == stop) break; } return r; }
        static int stop;
    };
    int sum_until::stop = -1;
    void s_combiner(int n)
    {
        sig::signal<int(int), sum_until> s;
        std::vector<sig::connection> c;
        for (int i = 0; i < n; ++i) c.push_back(s.connect(F(i, i)));
        for (int k = 0; k < 4; ++k)
        {
            sum_until::stop = n && k ? int(R.below(uint32_t(n))) + 1 : -1;
            { guard_harness g; ran.clear(); }
            long got = s(1), want = 0;
            int lim = sum_until::stop > 0 ? sum_until::stop : n;
            for (int i = 0; i < lim; ++i) want += 1 + i;
            if (got != want || int(ran.size()) != lim) fail("a combiner that stops at slot %d of %d: result %ld instead of %ld, %zu slots ran", lim, n, got, want, ran.size());
            for (int i = 0; i < lim; ++i) if (ran[size_t(i)] != i) fail("a combiner was given the slots in a wrong order");
            ++judged;
        }
    }
    void s_args(int n)
    {
        sig::signal<void(std::string, const std::vector<int>&, std::vector<int>&, std::unique_ptr<int>&)> s;
        int m = 1 + int(R.below(6));
        std::string str(size_t(n), 'x'); if (n) str[size_t(n) / 2] = 'y';
        std::vector<int> in(static_cast<size_t>(n), 3), out(static_cast<size_t>(n), 0); const std::vector<int>* pin = &in; std::vector<int>* pout = &out; int k = 0;
        std::unique_ptr<int> up(new int(4)), *pup = &up;
        const std::string orig = str;
        for (int i = 0; i < m; ++i)
            s.connect(mk2([&, i](std::string a, const std::vector<int>& b, std::vector<int>& c, std::unique_ptr<int>& d) {
                if (a != orig) fail("slot %d received another string of %zu characters instead of %zu", i, a.size(), orig.size());
                std::string eat = std::move(a); (void)eat;
                if (&b != pin || &c != pout || &d != pup) fail("a reference argument does not denote the caller's object");
                for (int& x : c) { if (x != k) fail("a change made by an earlier slot is not seen"); ++x; }
                ++k; *d += 1; judged += 4;
            }));
        s(str, in, out, up);
        if (k != m || *up != 4 + m || str != orig) fail("arguments of size %d: %d slots ran", n, k);
        k = 0; std::fill(out.begin(), out.end(), 0);
        s(std::move(str), in, out, up);
        if (k != m) fail("arguments of size %d: %d slots ran", n, k);
    }
    void s_slots(int n)
    {
        using slot = sig::slot<int(int)>;
        sg s; slot x(F(3, 3)); std::vector<slot> v; std::vector<sig::connection> c;
        for (int i = 0; i < n; ++i) { v.push_back(i % 2 && !v.empty() ? v[R.below(uint32_t(v.size()))] : x); if (!(v.back() == x)) fail("copy %d of a slot is not equal to it", i); }
        if (alive != n + 1) fail("%ld callables are alive, %d slots hold one", alive, n + 1);
        for (int i = 0; i < n; ++i) { if (i % 3 == 0) v[size_t(i)].block(); c.push_back(s.connect(v[size_t(i)])); if (c.back().blocked() != (i % 3 == 0)) fail("a connected copy of a slot has a wrong blocked state"); }
        judged += 2 * uint64_t(n);
        { guard_harness g; ran.clear(); }
        s(1);
        size_t want = size_t(n) - size_t((n + 2) / 3);
        if (ran.size() != want) fail("%zu of %d connected slots ran instead of %zu", ran.size(), n, want);
        v.clear();
        if (alive != n + 1) fail("%ld callables are alive, %d slots hold one", alive, n + 1);
        if (s.disconnect(x) != size_t(n)) fail("not all %d copies of a slot were disconnected", n);
        if (alive != 1) fail("%ld callables are alive, one slot holds one", alive);
    }
    struct owner { counted c; std::shared_ptr<sig::scoped_connection> o; int operator()(int x) const { return x; } };
    void s_cascade(int n) // disconnecting one slot destroys a callable that owns the connection of the next one
    {
        n = std::min(n, 400);
        sg s, t; std::vector<sig::connection> c;
        auto prev = std::make_shared<sig::scoped_connection>();
        for (int i = 0; i < n; ++i)
        {
            c.push_back((R.chance(1, 2) ? s : t).connect(owner{ {}, prev }));
            prev = std::make_shared<sig::scoped_connection>(c.back());
        }
        if (alive != n) fail("%ld callables are alive instead of %d", alive, n);
        prev.reset();
        for (auto& x : c) if (x.connected()) fail("a slot of a chain of %d is still connected", n);
        if (alive) fail("%ld callables of a chain are alive", alive);
        expect_run(s, {}, "after a chain of slots was disconnected"); expect_run(t, {}, "after a chain of slots was disconnected");
        judged += uint64_t(n);
    }
    struct V { counted c; std::vector<int> d; };
    void s_cow(int n)
    {
        using cow = sig::detail::cow_ptr<V>;
        std::vector<cow> v; v.push_back(sig::detail::make_cow<V>()); v[0].write().d.assign(10, 0);
        for (int i = 0; i < n; ++i) v.push_back(v[R.below(uint32_t(v.size()))]);
        if (alive != 1) fail("%ld values exist although %d handles share one", alive, n + 1);
        const cow& r = v[0]; const V* p = &r.read();
        for (auto& x : v) if (&static_cast<const cow&>(x).read() != p) fail("handles do not share the value");
        size_t k = R.below(uint32_t(v.size()));
        v[k].write().d[3] = 7;
        if (alive != (n ? 2 : 1)) fail("%ld values exist after one of %d handles wrote", alive, n + 1);
        for (size_t i = 0; i < v.size(); ++i) if (static_cast<const cow&>(v[i])->d[3] != (i == k ? 7 : 0)) fail("a write through handle %zu shows in handle %zu of %d", k, i, n + 1);
        judged += 2 * uint64_t(n) + 1;
        cow& w = v[k]; const V* before = w.data();
        for (int i = 0; i < std::min(n, 1000); ++i) { w.write().d[1] = i; if (w.data() != before) fail("a sole owner copies when it writes"); }
        v.clear();
        if (alive) fail("%ld values are alive after the last handle", alive);
    }

    struct scenario { const char* name; void (*f)(int); int limit; const char* props; };
    const scenario all[] = {
        { "order", s_order, 70000, "C01 C02 C05" }, { "erase", s_erase, 70000, "C01 C06" }, { "blockers", s_blockers, 70000, "C08" },
        { "toggle", s_toggle, 70000, "C08" }, { "handles", s_handles, 70000, "C05" }, { "scoped", s_scoped, 70000, "C07" },
        { "recursion", s_recursion, 1025, "C10 C16" }, { "recursive-changes", s_recursive_changes, 700, "C10" }, { "churn", s_churn, 70000, "C01 C02 C05 C11" },
        { "unseen-changes", s_unseen, 70000, "C01 C02 C05" },
        { "emissions", s_emissions, 70000, "C01 C02" }, { "signals", s_signals, 10000, "C01 C05 C12" }, { "tracked", s_tracked, 70000, "C09" },
        { "connect-during", s_connect_during, 70000, "C10" }, { "disconnect-during", s_disconnect_during, 70000, "C10 C11" }, { "oneshot", s_oneshot, 1100, "C10 C11" },
        { "chain", s_chain, 1025, "C10 C16" }, { "moves", s_moves, 5000, "C12" }, { "moved-list", s_moved_list, 70000, "C12 C05 C02" }, { "destroy", s_destroy, 70000, "C12" }, { "throwing", s_throwing, 70000, "C13" },
        { "combiner", s_combiner, 70000, "C04" }, { "arguments", s_args, 70000, "C03" }, { "slots", s_slots, 70000, "C21" }, { "cascade", s_cascade, 400, "C07 C11" },
        { "cow", s_cow, 70000, "C20" },
    };
}
int main(int argc, char** argv)
{
    init(argc, argv);
    static const int sizes[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400,
        511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
    int shard = 0, shards = 1;
    std::sscanf(vf::opt().extra.c_str(), "%d/%d", &shard, &shards);
    std::map<const scenario*, std::pair<double, int>> slowest; // longest time and its size
    // How fast the library is: one that takes quadratic time breaks no property but would not get through the largest sizes.
    double t2048 = 0;
    {
        const clock_t t = clock();
        sg s; std::vector<sig::connection> c;
        for (int i = 0; i < 2048; ++i) c.push_back(s.connect(F(i, i % 4)));
        for (int i = 1024; i < 2048; ++i) c[size_t(i)].disconnect();
        s.disconnect(F(-1, 2));
        t2048 = double(clock() - t) / CLOCKS_PER_SEC;
    }
    if (t2048 > 0.1) count("slow_library");
    long k = 0;
    for (long rep = 0; rep < vf::opt().cases; ++rep)
        for (int n : sizes)
            for (auto& sc : all)
            {
                if (!vf::opt().profile.empty() && !std::strstr(sc.props, vf::opt().profile.c_str())) continue;
                if (n > sc.limit) continue;
                auto& slow = slowest[&sc];
                if (t2048 > 0.1 && n > 2048 && t2048 * (n / 2048.) * (n / 2048.) > 10) { ++k; count("sizes_left_out_because_slow"); continue; }
                if (slow.first > (t2048 > 0.1 ? 0.3 : 5) && slow.first * (double(n) / slow.second) * (double(n) / slow.second) > 10) { ++k; count("sizes_left_out_because_slow"); continue; } // a change that makes the library slow breaks no property
                if (rep > 0 && n > 5000 && rep % 8) continue;
                long id = k++;
                if (vf::opt().only >= 0 ? id != vf::opt().only : id % shards != shard) continue;
                const clock_t t0 = clock();
                run_one(id, "scale", [&](long) {
                    R = rng(vf::opt().seed / 64 * 1000003u + uint64_t(id) * 7919 + 5);
                    tr("scenario %s size %d repetition %ld", sc.name, n, rep);
                    { guard_harness g; ran.clear(); ran.reserve(80000); }
                    uint64_t before = judged;
                    track_blocks(true);
                    sc.f(n);
                    { guard_harness g; std::vector<int>().swap(ran); }
                    if (alive) fail("%ld callables or objects are alive at the end", alive);
                    expect_no_blocks("at the end of the case");
                    track_blocks(false);
                    count(sc.name);
                    end_case(judged > before);
                });
                const double t = double(clock() - t0) / CLOCKS_PER_SEC;
                if (t > slow.first) slow = { t, std::max(1, n) };
            }
    count("judged_events", judged);
    summary();
}

// C21: slots as values. Random operations on a pool of slot objects and two signals, against a model of what each slot holds.
#include "vf.hpp"
#include <signals.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>
using namespace vf;
namespace
{
    rng R(1);
    uint64_t judged = 0;
    long throw_in = -1;
    struct boom {};

    std::vector<long> log_; // what ran
    // comparable functor with its own state: a copy starts from the state of the original and goes its own way
    template<int Type> struct fun
    {
        canary c; int id; int calls = 0; std::unique_ptr<int> heap;
        explicit fun(int i) : c(1), id(i), heap(new int(i)) {}
        fun(const fun& o) : c((o.c.check("copied"), (throw_in >= 0 && throw_in-- == 0) ? throw boom() : 0, o.c)), id(o.id), calls(o.calls), heap(new int(*o.heap)) {}
        fun(fun&& o) : c(std::move(o.c)), id(o.id), calls(o.calls), heap(new int(*o.heap)) {}
        int operator()(int x) { c.check("called"); if (*heap != id) fail("the state of a functor was overwritten"); ++calls; log_.push_back(Type * 1000000L + id * 1000 + x); return id * 100 + calls; }
        friend bool operator==(const fun& a, const fun& b) { a.c.check("compared"); b.c.check("compared"); return a.id == b.id; }
    };
    int f0(int x) { log_.push_back(7000000 + x); return 1; }
    int f1(int x) { log_.push_back(8000000 + x); return 2; }
    int (*const fns[])(int) = { f0, f1 };
    struct obj
    {
        canary c{ 2 }; int id; int calls = 0;
        explicit obj(int i) : id(i) {}
        int a(int x) { c.check("called"); log_.push_back(9000000 + id * 1000 + x); return id * 50 + ++calls; }
        int b(int x) { c.check("called"); log_.push_back(9500000 + id * 1000 + x); return -id * 50 - ++calls; }
        int k(int x) const { c.check("called"); log_.push_back(9700000 + id * 1000 + x); return id; }
        friend bool operator==(const obj& p, const obj& q) { return p.id == q.id; }
    };
    using pm = int (obj::*)(int);
    const pm pms[] = { &obj::a, &obj::b };
    struct noncmp { int id; int operator()(int x) const { log_.push_back(9900000 + id * 1000 + x); return id; } };

    enum kind { Empty, FunA, FunB, Function, MemPtr, MemCopy, Tracked, NonCmp, MemConst };
    struct model
    {
        kind k = Empty; int id = 0, fn = 0; bool blocked = false; int calls = 0; // calls: own state of functors and object copies
    };

    struct game
    {
        using slot = sig::slot<int(int)>;
        using signal = sig::signal<int(int)>;
        std::vector<std::unique_ptr<slot>> s; std::vector<model> m;
        std::vector<std::shared_ptr<obj>> objs; std::vector<int> obj_calls;
        struct entry { model m; int handle; };
        signal sg[2]; std::vector<entry> list[2];
        std::vector<sig::connection> con; std::vector<bool> con_alive;

        game() { for (int i = 0; i < 4; ++i) { s.emplace_back(new slot()); m.emplace_back(); } for (int i = 0; i < 3; ++i) { objs.emplace_back(new obj(i + 1)); obj_calls.push_back(0); } }

        bool runs(const model& x) { return x.k != Empty && !x.blocked && (x.k != Tracked || objs[size_t(x.id)]); }
        // performs the call in the model
        bool predict(model& x, int arg, std::vector<long>& log, int& result)
        {
            if (!runs(x)) return false;
            switch (x.k)
            {
            case FunA: log.push_back(1000000L + x.id * 1000 + arg); result = x.id * 100 + ++x.calls; break;
            case FunB: log.push_back(2000000L + x.id * 1000 + arg); result = x.id * 100 + ++x.calls; break;
            case Function: log.push_back((x.fn ? 8000000 : 7000000) + arg); result = x.fn + 1; break;
            case MemPtr: case Tracked: { int id = x.id + 1; log.push_back((x.fn ? 9500000 : 9000000) + id * 1000 + arg); int c = ++obj_calls[size_t(x.id)]; result = x.fn ? -id * 50 - c : id * 50 + c; break; }
            case MemCopy: { int id = x.id; log.push_back((x.fn ? 9500000 : 9000000) + id * 1000 + arg); int c = ++x.calls; result = x.fn ? -id * 50 - c : id * 50 + c; break; }
            case MemConst: log.push_back(9700000 + (x.id + 1) * 1000 + arg); result = x.id + 1; break;
            case NonCmp: log.push_back(9900000 + x.id * 1000 + arg); result = x.id; break;
            default: break;
            }
            return true;
        }
        // 0 unequal, 1 equal, 2 not comparable, 3: 0 or 2 (different member functions may be told apart without comparing the objects)
        static int equal(const model& a, const model& b)
        {
            if (a.k == Empty || b.k == Empty) return a.k == b.k;
            if (a.k != b.k) return 0;
            switch (a.k)
            {
            case FunA: case FunB: return a.id == b.id;
            case Function: return a.fn == b.fn;
            case MemPtr: case MemCopy: return a.id == b.id && a.fn == b.fn;
            case MemConst: return a.id == b.id;
            case Tracked: return a.fn == b.fn ? 2 : 3;
            default: return 2;
            }
        }
        void make(size_t i, kind k, int v)
        {
            model n; n.k = k; n.id = v % 3; n.fn = v & 1;
            if ((k == MemPtr || k == MemConst || k == Tracked) && !objs[size_t(n.id)]) return;
            if (k == MemPtr || k == MemConst) pinned[size_t(n.id)] = true;
            bool lvalue = R.chance(1, 2);
            slot* p = nullptr;
            switch (k)
            {
            case Empty: p = new slot(); n = model(); break;
            case FunA: if (lvalue) { fun<1> f(n.id); const fun<1>& c = f; p = R.chance(1, 2) ? new slot(c) : new slot(f); } else p = new slot(fun<1>(n.id)); break;
            case FunB: if (lvalue) { fun<2> f(n.id); p = new slot(f); } else p = new slot(fun<2>(n.id)); break;
            case Function: switch (R.below(3)) { case 0: p = n.fn ? new slot(f1) : new slot(f0); break; case 1: p = n.fn ? new slot(&f1) : new slot(&f0); break; default: p = new slot(fns[n.fn]); } break;
            case MemPtr: p = lvalue ? new slot(pms[n.fn], objs[size_t(n.id)].get()) : new slot(n.fn ? &obj::b : &obj::a, &*objs[size_t(n.id)]); break;
            case MemConst: p = new slot(&obj::k, const_cast<const obj*>(objs[size_t(n.id)].get())); break;
            case MemCopy: { obj o(n.id); if (lvalue) p = new slot(pms[n.fn], o); else p = new slot(n.fn ? &obj::b : &obj::a, obj(n.id)); break; }
            case Tracked: if (lvalue) p = new slot(pms[n.fn], objs[size_t(n.id)]); else p = new slot(pms[n.fn], std::weak_ptr<obj>(objs[size_t(n.id)])); break;
            case NonCmp: p = new slot(noncmp{ n.id }); break;
            }
            s[i].reset(p); m[i] = n;
        }
        bool pinned[3] = { false, false, false };

        void call(const char* how, const std::function<opt::optional<int>(int)>& f, model& x, const char* what)
        {
            int arg = int(R.below(900)); std::vector<long> want; int result = 0;
            log_.clear();
            auto got = f(arg);
            bool ran = predict(x, arg, want, result);
            ++judged;
            if (log_ != want) fail("%s %s: %zu invocations were observed, %zu expected (or others)", how, what, log_.size(), want.size());
            if (got.has_value() != ran) fail("%s %s: the result is %s", how, what, got ? "engaged" : "disengaged");
            if (ran && *got != result) fail("%s %s returns %d instead of %d", how, what, *got, result);
        }
        void check(const char* op)
        {
            for (size_t i = 0; i < s.size(); ++i)
            {
                const slot& c = *s[i]; const model& x = m[i]; ++judged;
                if (bool(c) != (x.k != Empty)) fail("slot %zu is %s after %s", i, c ? "not empty" : "empty", op);
                if (c.blocked() != x.blocked) fail("slot %zu is wrongly %s after %s", i, c.blocked() ? "blocked" : "not blocked", op);
                bool con = x.k != Empty && (x.k != Tracked || objs[size_t(x.id)]);
                if (c.connected() != con) fail("slot %zu is wrongly %s after %s", i, c.connected() ? "connected" : "not connected", op);
            }
            for (size_t i = 0; i < con.size(); ++i) if (con[i].connected() != expected_connected(i)) fail("connection %zu is wrongly %s after %s", i, con[i].connected() ? "connected" : "not connected", op);
        }
        bool expected_connected(size_t h)
        {
            for (auto& l : list) for (auto& e : l) if (e.handle == int(h)) return e.m.k != Tracked || objs[size_t(e.m.id)];
            return false;
        }
        void remove(std::vector<entry>& l, size_t i) { std::swap(l[i], l.back()); l.pop_back(); }

        void step()
        {
            size_t i = R.below(4), j = R.below(4); int v = int(R.below(60)), op = int(R.below(26));
            tr("op %d on %zu, %zu, value %d", op, i, j, v);
            const char* what = "";
            switch (op)
            {
            case 0: case 1: case 2: case 3: what = "construction"; make(i, kind(R.below(9)), v); break;
            case 4: case 5: { what = "copy construction"; const slot& c = *s[j]; std::unique_ptr<slot> n(R.chance(1, 2) ? new slot(c) : new slot(*s[j])); model x = m[j]; s[i] = std::move(n); m[i] = x; break; }
            case 6: { what = "move construction"; std::unique_ptr<slot> n(new slot(std::move(*s[j]))); model x = m[j]; m[j] = model(); s[i] = std::move(n); m[i] = x; break; }
            case 7: case 8: what = i == j ? "self assignment" : "copy assignment"; *s[i] = static_cast<const slot&>(*s[j]); m[i] = m[j]; break;
            case 9: if (i != j) { what = "move assignment"; *s[i] = std::move(*s[j]); m[i] = m[j]; m[j] = model(); } break;
            case 10: what = "blocking"; s[i]->block(); if (m[i].k != Empty) m[i].blocked = true; break;
            case 11: what = "unblocking"; s[i]->unblock(); m[i].blocked = false; break;
            case 12: case 13: case 14: what = "a direct call"; call("a direct call of", [&](int a) { return (*s[i])(std::move(a)); }, m[i], "a slot"); break;
            case 15: case 16: case 17:
            {
                what = "comparison"; int want = equal(m[i], m[j]); int got, got2;
                try { got = *s[i] == *s[j]; } catch (const sig::not_comparable_exception&) { got = 2; }
                try { got2 = *s[i] != *s[j]; } catch (const sig::not_comparable_exception&) { got2 = 2; }
                ++judged;
                if (want == 3 && got != 1) want = got;
                if (got != want) fail("comparing slots %zu and %zu yields %d instead of %d (0 unequal, 1 equal, 2 exception)", i, j, got, want);
                if (got2 != (want == 2 ? 2 : !want)) fail("slots %zu and %zu: != does not agree with ==", i, j);
                break;
            }
            case 18: what = "slot.disconnect"; ++judged; if (s[i]->disconnect()) fail("disconnect of a slot object that belongs to no signal reports success"); break;
            case 19: case 20:
            {
                what = "connect"; size_t g = R.below(2); if (list[g].size() > 5) break;
                bool scoped = R.chance(1, 4);
                sig::connection c; if (scoped) { auto sc = sg[g].connect_scoped(*s[i]); c = sc.release(); } else if (R.chance(1, 2)) c = sg[g].connect(*s[i]); else c = sg[g].connect(static_cast<const slot&>(*s[i]));
                con.push_back(c);
                if (m[i].k != Empty) list[g].push_back({ m[i], int(con.size()) - 1 });
                break;
            }
            case 21: case 22:
            {
                what = "emission"; size_t g = R.below(2); int arg = int(R.below(900)); std::vector<long> want; int result = 0; bool any = false;
                log_.clear(); auto got = sg[g](arg);
                for (auto& e : list[g]) any |= predict(e.m, arg, want, result);
                ++judged;
                if (log_ != want) fail("an emission ran %zu slots, %zu expected (or others, or in another order)", log_.size(), want.size());
                if (got.has_value() != any || (any && *got != result)) fail("an emission returns the wrong value");
                break;
            }
            case 23: if (con.size()) { size_t c = R.below(uint32_t(con.size())); for (auto& l : list) for (size_t e = 0; e < l.size(); ++e) if (l[e].handle == int(c)) { if (v & 1) { what = "blocking a connected copy"; con[c].block(); l[e].m.blocked = true; } else { what = "unblocking a connected copy"; con[c].unblock(); l[e].m.blocked = false; } goto done; } } done: break;
            case 24:
            {
                what = "disconnect by slot"; size_t g = R.below(2); bool thr = false;
                for (auto& e : list[g]) thr |= equal(e.m, m[i]) >= 2;
                if (thr) break; // exceptions from comparisons are judged elsewhere
                size_t n = sg[g].disconnect(*s[i]), w = 0;
                for (size_t e = 0; e < list[g].size();) if (equal(list[g][e].m, m[i]) == 1) { if (list[g][e].m.k != Tracked || objs[size_t(list[g][e].m.id)]) ++w; remove(list[g], e); } else ++e;
                ++judged;
                if (n != w) fail("disconnecting by slot removed %zu slots instead of %zu", n, w);
                break;
            }
            case 25:
                if (v & 1) { what = "destruction of a tracked object"; size_t o = size_t(v) % 3; if (objs[o] && !pinned[o]) objs[o].reset(); }
                else if ((m[j].k == FunA || m[j].k == FunB) && i != j)
                {
                    what = "a copy that throws"; throw_in = 0; bool threw = false;
                    try { if (v & 2) *s[i] = static_cast<const slot&>(*s[j]); else { slot x(static_cast<const slot&>(*s[j])); } } catch (const boom&) { threw = true; }
                    throw_in = -1; ++judged;
                    if (!threw) fail("an exception from copying a callable got lost");
                }
                break;
            }
            check(what);
        }
    };
}
int main(int argc, char** argv)
{
    init(argc, argv);
    run_cases("slots", vf::opt().cases, [&](long k) {
        R = rng(case_seed(k, 21)); uint64_t before = judged;
        track_blocks(true);
        {
            std::unique_ptr<game> g(new game());
            int steps = 8 + int(R.below(50));
            for (int i = 0; i < steps; ++i) g->step();
        }
        { guard_harness h; std::vector<long>().swap(log_); }
        if (live_uid(1) || live_uid(2)) fail("%d callables and %d objects are alive after the last slot and signal is gone", live_uid(1), live_uid(2));
        expect_no_blocks("at the end of the case");
        track_blocks(false);
        end_case(judged > before);
    });
    count("judged_events", judged);
    summary();
}

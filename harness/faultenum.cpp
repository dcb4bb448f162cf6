// C13: for every operation, every number of slots, every position and with or without an emission in progress, every single allocation
// and every copy, comparison or call of user code fails once, in turn. Afterwards the signal is used and compared with the model.
#include "vf.hpp"
#include <signals.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>
using namespace vf;
namespace
{
    uint64_t judged = 0, injected = 0;
    struct boom { int id; };
    struct arm_t { long copy = -1, compare = -1, call = -1; bool fired = false; } arm;
    void hit(long& c, int id) { if (c >= 0 && c-- == 0) { arm.fired = true; throw boom{ id }; } }

    std::vector<int> ran;
    void note_run(int id) { guard_harness g; ran.push_back(id); }
    std::function<void()>* hook = nullptr; int hook_at = -1; // runs inside the slot with that id

    struct fun
    {
        canary c; int id, cls; std::string s;
        fun(int i, int k) : c(i), id(i), cls(k), s("a state that does not fit into the inline buffer") {}
        fun(const fun& o) : c((o.c.check("copied"), hit(arm.copy, 1), o.c)), id(o.id), cls(o.cls), s(o.s) {}
        fun(fun&& o) : c((hit(arm.copy, 2), std::move(o.c))), id(o.id), cls(o.cls), s(std::move(o.s)) {}
        int operator()(int x)
        {
            c.check("called"); note_run(id); hit(arm.call, 3);
            if (hook_at == id && hook) { auto* h = hook; hook = nullptr; (*h)(); c.check("used after the hook"); }
            return id * 10 + x;
        }
        friend bool operator==(const fun& a, const fun& b) { a.c.check("compared"); b.c.check("compared"); hit(arm.compare, 4); return a.cls == b.cls; }
    };
    struct obj { canary c{ 9000 }; std::string s = "an object with a state that does not fit inline"; int m(int x) { c.check("called"); note_run(900); return x; }
        obj() {} obj(const obj& o) : c((hit(arm.copy, 5), o.c)), s(o.s) {} };

    struct world
    {
        sig::signal<int(int)> s;
        std::vector<int> list;               // expected invocation order
        std::vector<sig::connection> con;    // by id
        explicit world(int n) { for (int i = 0; i < n; ++i) { con.push_back(s.connect(fun(i, i % 2))); list.push_back(i); } }
        void remove(int id) { for (size_t i = 0; i < list.size(); ++i) if (list[i] == id) { std::swap(list[i], list.back()); list.pop_back(); return; } }
        std::vector<int> emit(int x = 1) { { guard_harness g; ran.clear(); } s(x); guard_harness g; return ran; }
    };
    std::string show(const std::vector<int>& v) { std::string o; for (int x : v) o += std::to_string(x) + " "; return o; }

    void expect_runs(world& w, const char* what)
    {
        auto r = w.emit(); ++judged;
        guard_harness g;
        if (r != w.list) fail("%s: slots %s ran, expected %s", what, show(r).c_str(), show(w.list).c_str());
    }
    // other slots keep their order up to the documented move of the last one; a failed list update may leave the order as it was
    void expect_removed(world& w, std::vector<int> before, int id, const char* what)
    {
        auto r = w.emit(); ++judged;
        guard_harness g;
        std::vector<int> kept; for (int x : before) if (x != id) kept.push_back(x);
        w.list = before; w.remove(id);
        if (r != kept && r != w.list) fail("%s: slots %s ran, expected %s", what, show(r).c_str(), show(w.list).c_str());
        w.list = r;
        for (size_t i = 0; i < w.con.size(); ++i)
        {
            bool in = false; for (int x : r) in = in || x == int(i);
            if (w.con[i].connected() != in) fail("%s: connection %zu is wrongly %s", what, i, in ? "disconnected" : "connected");
        }
    }
    void still_usable(world& w, const char* what)
    {
        int id = int(w.con.size());
        w.con.push_back(w.s.connect(fun(id, 7))); w.list.push_back(id);
        expect_runs(w, what);
        auto before = w.list;
        if (!w.con[size_t(id)].disconnect()) fail("%s: disconnecting a slot afterwards fails", what);
        expect_removed(w, before, id, what);
        // a slot left in the list must not disturb later removals
        if (!w.list.empty()) { int x = w.list[w.list.size() / 2]; before = w.list; if (!w.con[size_t(x)].disconnect()) fail("%s: disconnecting slot %d afterwards fails", what, x); expect_removed(w, before, x, what); }
        if (live_uid(id)) fail("%s: the callable of a slot that was disconnected afterwards is still alive", what);
    }

    enum fault { Alloc, Copy, Compare, Call, Faults };
    const char* const fault_names[] = { "allocation", "copy", "comparison", "call" };
    // runs op with the k-th occurrence failing; returns whether the failure happened, and in 'threw' whether it reached the caller
    template<typename F> bool attempt(fault f, long k, bool& threw, F op)
    {
        threw = false; arm = arm_t(); faults().fired = false;
        if (f == Alloc) faults().countdown = k; else (f == Copy ? arm.copy : f == Compare ? arm.compare : arm.call) = k;
        try { op(); }
        catch (const boom&) { threw = true; }
        catch (const std::bad_alloc&) { threw = true; }
        faults().countdown = -1; bool fired = arm.fired || faults().fired; arm = arm_t(); faults().fired = false;
        if (fired) ++injected;
        return fired;
    }
    template<typename F> void point(const char* what, const char* f, int n, int k, int shared, long pos, F body)
    {
        uint64_t before = judged;
        st().leak_runs = 0;
        do
        {
            st().leak_pending = false;
            { guard_harness g; st().trace.clear(); st().hash = 0; }
            tr("%s: %s %ld fails, %d slots, slot %d%s", what, f, pos, n, k, shared ? ", during an emission" : "");
            track_blocks(true);
            body();
            { guard_harness g; std::vector<int>().swap(ran); }
            for (auto& u : reg().per_uid) fail("%s: a callable (uid %d) is alive after the signal is gone", what, u.first);
            expect_no_blocks("after the signal is gone");
            track_blocks(false);
            ++st().leak_runs;
        } while (st().leak_pending);
        st().leak_runs = 0;
        end_case(judged > before);
    }
    // body(world, fault, pos) -> fired
    template<typename F> void enumerate(const char* what, int n, int k, bool shared, F body)
    {
        for (int f = 0; f < Faults; ++f)
            for (long pos = 0;; ++pos)
            {
                bool fired = false;
                point(what, fault_names[f], n, k, shared, pos, [&] { fired = body(fault(f), pos); });
                if (!fired) break;
                count(fault_names[f]);
            }
    }
    // performs op either directly or inside a slot of a running emission (the list is shared then)
    template<typename F> void in_context(world& w, bool shared, F op)
    {
        if (!shared) { op(); return; }
        // a slot of its own runs the operation
        std::function<void()> h = op;
        hook = &h; hook_at = w.list[0];
        { guard_harness g; ran.clear(); }
        w.s(1);
        hook = nullptr; hook_at = -1;
    }

    void connecting(int n, bool shared, int form)
    {
        static const char* const names[] = { "connect an lvalue", "connect an rvalue", "connect a slot", "connect scoped", "connect a member function", "connect a tracked member function", "connect a copied object" };
        enumerate(names[form], n, n, shared, [&](fault f, long pos) {
            if (f == Call || f == Compare) return false;
            world w(n); bool threw = false, fired = false;
            fun fn(600, 5); sig::slot<int(int)> sl(fn); obj o; auto sp = std::make_shared<obj>();
            sig::connection c; sig::scoped_connection sc;
            in_context(w, shared, [&] {
                fired = attempt(f, pos, threw, [&] {
                    switch (form)
                    {
                    case 0: c = w.s.connect(fn); break;
                    case 1: c = w.s.connect(std::move(fn)); break;
                    case 2: c = w.s.connect(sl); break;
                    case 3: sc = w.s.connect_scoped(fn); break;
                    case 4: c = w.s.connect(&obj::m, &o); break;
                    case 5: c = w.s.connect(&obj::m, sp); break;
                    default: c = w.s.connect(&obj::m, o);
                    }
                });
            });
            ++judged;
            // an allocation the library can do without may fail unnoticed
            if (fired && f != Alloc && !threw) fail("%s: a failure does not reach the caller", names[form]);
            if (!threw && !c.connected() && !sc.connected()) fail("%s: the slot is not connected", names[form]);
            if (!threw) w.list.push_back(form < 4 ? 600 : 900);
            expect_runs(w, names[form]);
            for (int i = 0; i < n; ++i) if (!w.con[size_t(i)].connected()) fail("%s: slot %d got disconnected", names[form], i);
            if (threw)
            {
                if (c.connected() || sc.connected()) fail("%s failed but the connection is connected", names[form]);
                still_usable(w, names[form]);
            }
            return fired;
        });
    }
    void disconnecting(int n, int k, bool shared, int form)
    {
        static const char* const names[] = { "disconnect by handle", "disconnect by a copy of the handle", "destruction of a scoped connection", "assignment to a scoped connection" };
        enumerate(names[form], n, k, shared, [&](fault f, long pos) {
            if (f == Compare || f == Call) return false;
            world w(n); bool threw = false, fired = false, ok = false;
            auto before = w.list;
            std::unique_ptr<sig::scoped_connection> sc(new sig::scoped_connection(form >= 2 ? w.con[size_t(k)] : sig::connection()));
            in_context(w, shared, [&] {
                fired = attempt(f, pos, threw, [&] {
                    switch (form)
                    {
                    case 0: ok = w.con[size_t(k)].disconnect(); break;
                    case 1: { sig::connection c(w.con[size_t(k)]); ok = c.disconnect(); break; }
                    case 2: sc.reset(); ok = true; break;
                    default: *sc = sig::scoped_connection(); ok = true;
                    }
                });
            });
            ++judged;
            if (threw || !ok) fail("%s does not succeed when an %s fails", names[form], fault_names[f]);
            if (w.con[size_t(k)].connected()) fail("%s leaves the slot connected when an %s fails", names[form], fault_names[f]);
            if (w.con[size_t(k)].disconnect()) fail("%s: the slot can be disconnected twice", names[form]);
            expect_removed(w, before, k, names[form]);
            if (!fired && live_uid(k)) fail("%s: the callable is still alive", names[form]);
            still_usable(w, names[form]);
            return fired;
        });
    }
    void erasing(int n, int cls, bool shared, int form)
    {
        static const char* const names[] = { "disconnect by callable", "disconnect by slot" };
        enumerate(names[form], n, cls, shared, [&](fault f, long pos) {
            if (f == Call) return false;
            world w(n); bool threw = false, fired = false; size_t removed = 0;
            fun probe(100, cls); sig::slot<int(int)> sl(probe);
            in_context(w, shared, [&] { fired = attempt(f, pos, threw, [&] { removed = form ? w.s.disconnect(sl) : w.s.disconnect(probe); }); });
            ++judged;
            if (fired && f != Alloc && !threw) fail("%s: a failure does not reach the caller", names[form]);
            std::vector<int> must, may;
            for (int i = 0; i < n; ++i) (i % 2 == cls ? may : must).push_back(i);
            auto r = w.emit();
            {
                guard_harness g;
                std::vector<bool> in(size_t(n), false);
                for (int x : r) { if (in[size_t(x)]) fail("%s: slot %d runs twice", names[form], x); in[size_t(x)] = true; }
                size_t gone = 0;
                for (int i = 0; i < n; ++i)
                {
                    bool conn = w.con[size_t(i)].connected();
                    if (conn != in[size_t(i)]) fail("%s: connection %d is %s but the slot %s", names[form], i, conn ? "connected" : "disconnected", in[size_t(i)] ? "runs" : "does not run");
                    if (i % 2 != cls && !conn) fail("%s: slot %d is not equal but got disconnected", names[form], i);
                    gone += !conn;
                    if (!conn && !threw && live_uid(i)) fail("%s: the callable of slot %d is still alive", names[form], i);
                }
                if (!threw && (gone != may.size() || removed != gone)) fail("%s: %zu slots are gone, %zu were reported, %zu are equal", names[form], gone, removed, may.size());
                w.list = r;
            }
            // what was left over can be disconnected, once
            for (int i = 0; i < n; ++i) { bool c = w.con[size_t(i)].connected(); if (i % 2 == cls && w.con[size_t(i)].disconnect() != c) fail("%s: disconnecting slot %d afterwards reports the wrong result", names[form], i); if (i % 2 == cls && c) { auto b = w.list; expect_removed(w, b, i, names[form]); } }
            still_usable(w, names[form]);
            return fired;
        });
    }
    void emitting(int n, bool nested)
    {
        enumerate("emit", n, 0, nested, [&](fault f, long pos) {
            if (f == Copy || f == Compare) return false;
            world w(n); bool threw = false, fired = false;
            { guard_harness g; ran.clear(); ran.reserve(64); }
            fired = attempt(f, pos, threw, [&] {
                if (nested) { std::function<void()>* no = nullptr; (void)no; w.s(1); } else w.s(1);
            });
            auto r = ran; ++judged;
            if (fired && f != Alloc && !threw) fail("an exception thrown during an emission does not reach the caller");
            if (!threw && r != w.list) fail("an emission during which memory ran out reports success but ran only slots %s", show(r).c_str());
            if (f == Call)
            {
                guard_harness g;
                std::vector<int> want(w.list.begin(), w.list.begin() + long(fired ? size_t(pos) + 1 : w.list.size()));
                if (r != want) fail("slots %s ran in an emission that threw in slot %ld", show(r).c_str(), pos);
            }
            expect_runs(w, "emission after one that threw");
            still_usable(w, "emission after one that threw");
            return fired;
        });
    }
    // arguments whose copies throw
    struct arg { canary c{ 9500 }; std::string s = "an argument that does not fit into the inline buffer"; arg() {} arg(const arg& o) : c((hit(arm.copy, 6), o.c)), s(o.s) {} arg(arg&& o) : c((hit(arm.copy, 7), std::move(o.c))), s(std::move(o.s)) {} };
    void arguments(int n)
    {
        enumerate("emit with arguments", n, 0, false, [&](fault f, long pos) {
            if (f == Compare || f == Call) return false;
            int calls = 0; bool threw = false, fired = false;
            sig::signal<std::string(arg)> s; std::vector<sig::connection> con;
            for (int i = 0; i < n; ++i) con.push_back(s.connect([&calls](arg a) { a.c.check("received"); ++calls; return a.s; }));
            arg a; opt::optional<std::string> r;
            fired = attempt(f, pos, threw, [&] { r = s(a); });
            ++judged;
            if (fired && f != Alloc && !threw) fail("a failure to copy an argument does not reach the caller");
            if (!threw && (r.has_value() != (n > 0) || (n && *r != a.s))) fail("wrong result of an emission that succeeded");
            if (!threw && calls != n) fail("%d of %d slots ran", calls, n);
            calls = 0; r = s(a);
            if (calls != n || r.has_value() != (n > 0) || (n && *r != a.s)) fail("after an emission with a failing argument %d of %d slots ran", calls, n);
            for (auto& c : con) if (!c.connected()) fail("an emission with a failing argument disconnected a slot");
            return fired;
        });
    }
    void slot_values(int form)
    {
        static const char* const names[] = { "slot construction", "slot copy", "slot assignment" };
        enumerate(names[form], 0, 0, false, [&](fault f, long pos) {
            if (f == Compare || f == Call) return false;
            bool threw = false, fired = false;
            fun a(1, 1), b(2, 0); sig::slot<int(int)> x(a), y(b);
            fired = attempt(f, pos, threw, [&] { switch (form) { case 0: { sig::slot<int(int)> z(a); break; } case 1: { sig::slot<int(int)> z(static_cast<const sig::slot<int(int)>&>(x)); break; } default: x = static_cast<const sig::slot<int(int)>&>(y); } });
            ++judged;
            if (fired && f != Alloc && !threw) fail("%s: a failure does not reach the caller", names[form]);
            auto r = x(5), q = y(6); int want = form == 2 && !threw ? 25 : 15;
            if (!r || *r != want || !q || *q != 26) fail("%s: a failure changed the slots", names[form]);
            return fired;
        });
    }
}
int main(int argc, char** argv)
{
    init(argc, argv);
    int shard = 0, shards = 1; if (!vf::opt().extra.empty()) std::sscanf(vf::opt().extra.c_str(), "%d/%d", &shard, &shards);
    int max = vf::opt().cases > 10 ? 17 : 9; // number of slots
    int unit = 0; auto mine = [&] { return unit++ % shards == shard; };
    begin_case(0, "faults");
    for (int n = 0; n <= max; ++n)
    {
        for (int shared = 0; shared < (n ? 2 : 1); ++shared)
        {
            for (int f = 0; f < 7; ++f) if (mine()) connecting(n, shared, f);
            for (int k = 0; k < n; ++k) for (int f = 0; f < 4; ++f) if (mine()) disconnecting(n, k, shared, f);
            for (int c = 0; c < 2; ++c) for (int f = 0; f < 2; ++f) if (mine()) erasing(n, c, shared, f);
        }
        if (mine()) emitting(n, false);
        if (mine()) arguments(n);
    }
    for (int f = 0; f < 3; ++f) if (mine()) slot_values(f);
    count("judged_events", judged); count("faults_injected", injected);
    summary();
}

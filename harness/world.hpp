// Random programs over the public API of sig::signal, judged online by a reference model.
//
// Every API call is made by World, which updates the model and compares each return value with the model's prediction.
// Every invocation of a slot is reported by the callable (hit) and must be the next one the model expects.
// Slots run scripts (re-entrant operations) while they are being invoked.
#pragma once
#include <time.h>
#include "vf.hpp"
#include <signals.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <stdexcept>

namespace vf
{
    // Weights of the operations; one profile per property.
    struct profile
    {
        const char* name = "";
        int connect = 10, connect_scoped = 2, emit = 10, disconnect = 5, handle_move = 2, query = 3, block = 2,
            blocker = 2, scoped = 2, erase = 3, drop_object = 1, sig_move = 0, sig_destroy = 0, slot_obj = 1;
        int script = 40;      // percent chance that an invocation runs a script
        int throws = 0;       // percent chance that an invocation throws
        int min_ops = 10, max_ops = 60;
        int nsignals = 3;
        int kinds = 0;        // 0: all, 1: mostly tracked, 2: mostly comparable, 3: owners of scoped connections
        int keys = 3;         // number of different callables per kind
        int initial = 0;      // slots connected before the program starts
        int faults = 0;       // percent of top-level operations run with failing allocations
        int self_bias = 30;   // percent chance that an operation aims at a slot that is involved in a running emission
    };

    enum kind { FN, FNNC, FREE, LAMBDA, MEMPTR, REFW, OBJCOPY, TRACK, CUSTOM, STDFN, OWNER, NKINDS };
    inline const char* kname(int k)
    {
        static const char* n[] = { "functor", "nc-functor", "free", "lambda", "mem-ptr", "ref-wrap", "obj-copy", "tracked", "custom-tracked", "std-function", "owner" };
        return n[k];
    }

    // What slots throw: types of their own and types derived from exceptions the library or the standard library uses itself.
    struct slot_error { int token; };
    template<typename B> struct slot_error_of : B, slot_error { explicit slot_error_of(int t) : slot_error{ t } {} };
    struct runtime_base : std::runtime_error { runtime_base() : std::runtime_error("thrown by a slot") {} };
    struct access_base : opt::bad_optional_access { access_base() : opt::bad_optional_access("thrown by a slot") {} };
    struct combiner_error { int emission; };
    [[noreturn]] inline void throw_from_slot(int t)
    {
        switch (t % 8)
        {
        case 0: throw slot_error_of<runtime_base>(t);
        case 1: throw slot_error_of<std::bad_alloc>(t);
        case 2: throw slot_error_of<sig::not_comparable_exception>(t);
        case 3: throw slot_error_of<access_base>(t);
        case 4: throw slot_error_of<std::bad_weak_ptr>(t);
        case 5: throw t; // an int
        default: throw slot_error{ t };
        }
    }

}

namespace user
{
    // A smart pointer of the application: tracked through to_weak() found by ADL; its weak form can be compared.
    template<typename T> struct ptr
    {
        std::shared_ptr<T> p; int id;
        T& operator*() const { return *p; }
    };
    template<typename T> struct wptr
    {
        std::weak_ptr<T> w; int id;
        bool expired() const { return w.expired(); }
        std::shared_ptr<T> lock() const { return w.lock(); }
        void reset() { w.reset(); }
        bool operator==(const wptr& o) const { return id == o.id; }
    };
    template<typename T> wptr<T> to_weak(const ptr<T>& p) { return wptr<T>{ p.p, p.id }; }
}

namespace vf
{
    template<typename R> struct token_of;
    template<> struct token_of<int>
    {
        static int make(int t) { return t % 6 == 5 ? 0 : t % 6 == 4 ? -t : t; } // a slot may return zero as well as anything else
        static bool is(const opt::optional<int>& o, int t) { return o && *o == make(t); }
    };
    template<> struct token_of<std::string>
    {
        static std::string str(int t) { return t % 6 == 5 ? std::string() : "result-" + std::to_string(t) + "-of-a-slot-that-returns-a-long-string"; }
        static std::string make(int t) { return str(t); }
        static bool is(const opt::optional<std::string>& o, int t) { return o && *o == str(t); }
    };
    template<> struct token_of<void> { static void make(int) {} };

    template<int V> struct World;

#ifdef WORLD_NOARGS
    // A signal without parameters: what the slots "receive" is that of the emission itself.
    #define W_PARAMS
    #define W_TYPES
    #define W_GET int a = World<V>::cur->now_id(); std::string s = World<V>::cur->now_payload();
    #define W_EMIT(sg) sg()
#else
    #define W_PARAMS int a, std::string s
    #define W_TYPES int, std::string
    #define W_GET
    #define W_EMIT(sg) sg(e.id, arg)
#endif
    // ---- variants: result type and combiner ------------------------------------------------------------------------
    struct plan_result { int token = -1; };
    template<int V> struct plan_combiner;
    template<int V> struct variant;
    template<> struct variant<0> { using R = int; using signal = sig::signal<int(int, std::string)>; static constexpr bool plan = false; static const char* name() { return "int/last"; } };
    template<> struct variant<1> { using R = void; using signal = sig::signal<void(int, std::string)>; static constexpr bool plan = false; static const char* name() { return "void/last"; } };
    template<> struct variant<2> { using R = std::string; using signal = sig::signal<std::string(int, std::string)>; static constexpr bool plan = false; static const char* name() { return "string/last"; } };
    template<> struct variant<3> { using R = int; using signal = sig::signal<int(int, std::string), plan_combiner<3>>; static constexpr bool plan = true; static const char* name() { return "int/plan"; } };
    template<> struct variant<4> { using R = void; using signal = sig::signal<void()>; static constexpr bool plan = false; static const char* name() { return "void()/last"; } };

    // ---- callables --------------------------------------------------------------------------------------------------
    template<int V> typename variant<V>::R hit(int kind, int key, int uid, int a, std::string& s)
    {
        return World<V>::cur->on_invoke(kind, key, uid, a, s);
    }

    template<int V> struct Fn
    {
        canary c; int key;
        Fn(int uid, int k) : c(uid), key(k) {}
        typename variant<V>::R operator()(W_PARAMS)
        {
            W_GET c.check("called");
            struct fin { canary& c; ~fin() { c.check("still running"); } } f{ c };
            return hit<V>(FN, key, c.uid, a, s);
        }
        bool operator==(const Fn& o) const { c.check("compared"); o.c.check("compared"); return key == o.key; }
    };
    template<int V> struct FnNC
    {
        canary c; int key;
        FnNC(int uid, int k) : c(uid), key(k) {}
        typename variant<V>::R operator()(W_PARAMS) const
        {
            W_GET c.check("called");
            struct fin { const canary& c; ~fin() { c.check("still running"); } } f{ c };
            return hit<V>(FNNC, key, c.uid, a, s);
        }
    };
    template<int V> struct owned_connection // owned by a callable: disconnects another slot when the callable dies
    {
        sig::scoped_connection sc; int target;
        ~owned_connection();
    };
    template<int V> struct FnOwner
    {
        canary c; int key; std::shared_ptr<owned_connection<V>> own;
        FnOwner(int uid, int k, std::shared_ptr<owned_connection<V>> o) : c(uid), key(k), own(std::move(o)) {}
        typename variant<V>::R operator()(W_PARAMS)
        {
            W_GET c.check("called");
            struct fin { canary& c; ~fin() { c.check("still running"); } } f{ c };
            return hit<V>(OWNER, key, c.uid, a, s);
        }
        bool operator==(const FnOwner& o) const { return key == o.key; }
    };
    template<int V, int N> typename variant<V>::R free_fn(W_PARAMS) { W_GET return hit<V>(FREE, N, -1, a, s); }

    template<int V> struct Obj
    {
        canary c;
        explicit Obj(int uid) : c(uid) {}
        virtual ~Obj() {}
        typename variant<V>::R m0(W_PARAMS) { W_GET return run(0, a, s); }
        typename variant<V>::R m1(W_PARAMS) { W_GET return run(1, a, s); }
        virtual typename variant<V>::R m2(W_PARAMS) { W_GET return run(2, a, s); }
        typename variant<V>::R run(int m, int a, std::string& s)
        {
            c.check("called");
            struct fin { canary& c; ~fin() { c.check("still running"); } } f{ c };
            return hit<V>(-1, m, c.uid, a, s); // the binding kind is not visible from inside
        }
    };

#if __cplusplus >= 201402L
    template<int V> auto make_lambda() { return [](W_PARAMS) { W_GET return hit<V>(LAMBDA, 0, -1, a, s); }; }
#else
    template<int V> struct no_lambda
    {
        static typename variant<V>::R call(W_PARAMS) { W_GET return hit<V>(LAMBDA, 0, -1, a, s); }
        typename variant<V>::R operator()(W_PARAMS) const { W_GET return hit<V>(LAMBDA, 0, -1, a, s); }
        using pointer = typename variant<V>::R (*)(W_TYPES);
        operator pointer() const { return &no_lambda::call; } // as a lambda without captures: comparable through this
    };
    template<int V> no_lambda<V> make_lambda() { return no_lambda<V>(); }
#endif

    // ---- the world --------------------------------------------------------------------------------------------------
    template<int V> struct World
    {
        using var = variant<V>;
        using R = typename var::R;
        using signal = typename var::signal;
        using slot_type = typename signal::slot_type;
        using pmf = R(Obj<V>::*)(W_TYPES);

        static World* cur;

        struct MSlot
        {
            int kind, key, uid, obj;      // obj: index of a tracked object or -1
            int sig = -1;
            bool connected = true, blocked = false, fuzzy_gone = false;
            int blockers = 0;
            sig::connection mon;          // the monitor's own handle
        };
        struct Alt { std::vector<int> list; size_t pos; };
        struct Emission
        {
            int id; std::string payload; int sig;
            std::vector<Alt> alts;
            std::vector<std::vector<int>> initial; // the possible lists when it started
            std::vector<int> running;     // stack of slots being invoked (one level per emission)
            int last = -1; bool any = false; int invocations = 0;
            // plan combiner
            int step = -1; bool in_deref = false; bool hit = false; int token = -1;
        };
        struct Box { std::unique_ptr<signal> p; std::vector<std::vector<int>> alts; };
        struct TObj { std::shared_ptr<Obj<V>> owner; std::weak_ptr<Obj<V>> w; int uid; int running = 0; bool dropped = false; };
        struct SlotObj { std::unique_ptr<slot_type> p; int kind = 0, key = 0, uid = -1, obj = -1; bool blocked = false; };
        struct Plan { std::vector<int> actions; int stop = -1; int token = 0; bool catches = false; int throw_at = -1; };

        const profile& pf;
        rng r;
        std::vector<Box> boxes;
        std::vector<MSlot> slots;
        std::vector<Emission*> stack;
        std::vector<std::unique_ptr<sig::connection>> H; std::vector<int> hid;
        std::vector<std::unique_ptr<sig::scoped_connection>> S; std::vector<int> sid;
        std::vector<std::unique_ptr<sig::connection_blocker>> B; std::vector<int> bid;
        std::vector<TObj> objs;
        std::vector<std::unique_ptr<Obj<V>>> raw;    // untracked objects, alive for the whole case
        std::vector<SlotObj> sobjs;
        std::vector<std::weak_ptr<owned_connection<V>>> owned;
        Plan plan;
        int next_uid = 1, next_token = 1, next_emission = 1, budget = 0;
        uint64_t events = 0;
        bool scripts = true;
        Emission* combining = nullptr;

        World(const profile& p, uint64_t seed) : pf(p), r(seed)
        {
            cur = this;
            boxes.resize(size_t(1 + int(r.below(uint32_t(pf.nsignals)))));
            for (auto& b : boxes) { b.p.reset(new signal); b.alts.push_back({}); }
            for (int i = 0; i < 6; ++i) { H.emplace_back(new sig::connection); hid.push_back(-1); }
            for (int i = 0; i < 4; ++i) { S.emplace_back(new sig::scoped_connection); sid.push_back(-1); }
            for (int i = 0; i < 4; ++i) { B.emplace_back(new sig::connection_blocker); bid.push_back(-1); }
            for (int i = 0; i < 3; ++i) { raw.emplace_back(new Obj<V>(next_uid++)); }
            sobjs.resize(3);
        }

        // ---- model ---------------------------------------------------------------------------------------------------
        bool expired(const MSlot& m) const { return m.obj >= 0 && objs[size_t(m.obj)].w.expired(); }
        bool eligible(int id) const
        {
            const MSlot& m = slots[size_t(id)];
            return m.connected && !m.blocked && m.blockers == 0 && !expired(m);
        }
        bool model_connected(int id) const { return id >= 0 && slots[size_t(id)].connected && !expired(slots[size_t(id)]); }

        static void swap_remove(std::vector<int>& l, int id)
        {
            for (size_t i = 0; i < l.size(); ++i) if (l[i] == id) { l[i] = l.back(); l.pop_back(); return; }
        }
        void dedupe(std::vector<std::vector<int>>& a)
        {
            if (a.size() < 2) return;
            std::vector<std::vector<int>> o;
            for (auto& x : a) { bool dup = false; for (auto& y : o) if (x == y) dup = true; if (!dup) o.push_back(x); }
            a.swap(o);
        }
        void model_remove(int id) // one slot is disconnected
        {
            guard_harness g;
            MSlot& m = slots[size_t(id)];
            if (!m.connected) return;
            m.connected = false;
            if (m.sig >= 0) for (auto& a : boxes[size_t(m.sig)].alts) swap_remove(a, id);
        }
        // Several slots are disconnected by one call: the order the survivors end up in depends on the order of removal;
        // the documentation only fixes a single removal, so the model follows every order of removal.
        void model_remove_many(int sgn, const std::vector<int>& gone)
        {
            guard_harness g;
            for (int id : gone) slots[size_t(id)].connected = false;
            auto in = [&](int x) { for (int id : gone) if (id == x) return true; return false; };
            std::vector<std::vector<int>> res;
            for (auto& a : boxes[size_t(sgn)].alts)
            {
                std::vector<int> f = a; // forward scan, swap with back and look again
                for (size_t i = 0; i < f.size();) if (in(f[i])) { f[i] = f.back(); f.pop_back(); } else ++i;
                std::vector<int> b = a; // backward scan
                for (size_t i = b.size(); i-- > 0;) if (in(b[i])) { b[i] = b.back(); b.pop_back(); }
                std::vector<int> c = a; // one after the other
                for (int x : a) if (in(x)) swap_remove(c, x);
                res.push_back(f); res.push_back(b); res.push_back(c);
            }
            boxes[size_t(sgn)].alts.swap(res);
            dedupe(boxes[size_t(sgn)].alts);
        }
        void model_clear(int sgn)
        {
            for (auto& m : slots) if (m.sig == sgn && m.connected) m.connected = false;
            boxes[size_t(sgn)].alts.assign(1, {});
        }

        bool label_matches(const MSlot& m, int kind, int key, int uid) const
        {
            if (kind == -1) return (m.kind == MEMPTR || m.kind == REFW || m.kind == OBJCOPY || m.kind == TRACK || m.kind == CUSTOM) && m.key == key && m.uid == uid;
            if (m.kind == STDFN && kind == FNNC) return m.key == key && m.uid == uid;
            return m.kind == kind && m.key == key && (uid < 0 || m.uid == uid);
        }

        std::string show(const std::vector<int>& l) const
        {
            std::string s = "[";
            for (size_t i = 0; i < l.size() && i < 40; ++i)
            {
                const MSlot& m = slots[size_t(l[i])];
                s += (i ? " " : "") + std::to_string(l[i]) + (m.connected ? "" : "!") + (m.blocked || m.blockers ? "b" : "") + (expired(m) ? "x" : "");
            }
            return s + (l.size() > 40 ? " ...]" : "]");
        }

        // ---- invocation of a slot: the central oracle --------------------------------------------------------------------
        int now_id() const { return stack.empty() ? -1 : stack.back()->id; }
        std::string now_payload() const { guard_harness g; return stack.empty() ? std::string() : stack.back()->payload; }
        R on_invoke(int kind, int key, int uid, int a, std::string& s)
        {
            if (locks_held && forbid_locks()) fail("a slot (%s key %d uid %d) runs while the library holds a lock", kind < 0 ? "member" : kname(kind), key, uid);
            int token;
            {
                guard_harness g;
                ++events;
                if (stack.empty()) fail("a slot (%s key %d uid %d) runs although no emission is in progress", kind < 0 ? "member" : kname(kind), key, uid);
                Emission& e = *stack.back();
                if (a != e.id || s != e.payload) fail("slot (%s key %d uid %d) received arguments (%d, \"%.40s\"), the emission passed (%d, \"%.40s\")", kind < 0 ? "member" : kname(kind), key, uid, a, s.c_str(), e.id, e.payload.c_str());
                s.assign("consumed"); // the slot's own copy
                int id = -1;
                if (var::plan)
                {
                    if (!e.in_deref) fail("a slot runs although the combiner does not dereference an iterator");
                    if (e.hit) fail("dereferencing the iterator once runs more than one slot");
                    std::vector<Alt> keep;
                    for (auto& x : e.alts)
                        if (size_t(e.step) < x.list.size() && eligible(x.list[size_t(e.step)]) && label_matches(slots[size_t(x.list[size_t(e.step)])], kind, key, uid)) keep.push_back(x);
                    if (keep.empty()) unexpected(e, kind, key, uid);
                    e.alts.swap(keep);
                    id = e.alts[0].list[size_t(e.step)];
                    e.hit = true;
                }
                else
                {
                    std::vector<Alt> keep;
                    for (auto& x : e.alts)
                    {
                        size_t p = x.pos;
                        while (p < x.list.size() && !eligible(x.list[p])) ++p;
                        if (p < x.list.size() && label_matches(slots[size_t(x.list[p])], kind, key, uid))
                        {
                            if (e.alts.size() == 1) { x.pos = p + 1; id = x.list[p]; break; }
                            keep.push_back(Alt{ x.list, p + 1 });
                        }
                    }
                    if (id < 0)
                    {
                        if (keep.empty()) unexpected(e, kind, key, uid);
                        e.alts.swap(keep);
                        id = e.alts[0].list[e.alts[0].pos - 1];
                    }
                }
                token = next_token++;
                e.last = token; e.any = true; ++e.invocations; e.token = token;
                e.running.push_back(id);
                if (slots[size_t(id)].obj >= 0) ++objs[size_t(slots[size_t(id)].obj)].running;
                tr("%*srun slot %d -> %d", int(stack.size()), "", id, token);
                check_objects();
            }
            struct fin
            {
                World& w; Emission& e;
                ~fin()
                {
                    int id = e.running.back(); e.running.pop_back();
                    if (w.slots[size_t(id)].obj >= 0) --w.objs[size_t(w.slots[size_t(id)].obj)].running;
                }
            } f{ *this, *stack.back() };
            if (scripts && budget > 0 && stack.size() < 5 && r.chance(uint32_t(pf.script), 100))
            {
                guard_harness g;
                for (int n = 1 + int(r.below(3)); n > 0 && budget > 0; --n) step();
            }
            if (scripts && pf.throws && r.chance(uint32_t(pf.throws), 100))
            {
                tr("%*sthrow %d", int(stack.size()), "", token);
                throw_from_slot(token);
            }
            guard_harness g;
            return token_of<R>::make(token);
        }

        [[noreturn]] void unexpected(Emission& e, int kind, int key, int uid)
        {
            std::string s;
            for (auto& x : e.alts) s += show(x.list) + "@" + std::to_string(var::plan ? size_t(e.step) : x.pos) + " ";
            fail("emission %d on signal %d runs an unexpected slot (%s key %d uid %d); expected next in %s", e.id, e.sig, kind < 0 ? "member" : kname(kind), key, uid, s.c_str());
        }

        // Objects whose last owner is gone must be gone too, unless they are running.
        void check_objects()
        {
            for (size_t i = 0; i < objs.size(); ++i)
            {
                TObj& o = objs[i];
                if (!o.dropped && o.w.expired()) fail("tracked object %zu died although it has an owner", i);
                if (o.dropped && o.running == 0 && !o.w.expired()) fail("tracked object %zu is kept alive by a signal after its last owner is gone", i);
                if (o.dropped && o.running > 0 && o.w.expired()) fail("tracked object %zu was destroyed while one of its slots is running", i);
            }
        }

        // ---- operations ------------------------------------------------------------------------------------------------
        int pick_kind()
        {
            static const int tracked[] = { TRACK, CUSTOM, TRACK, CUSTOM, TRACK, FN, MEMPTR, FREE };
            static const int comparable[] = { FN, FN, FREE, LAMBDA, MEMPTR, CUSTOM, FN, FNNC, REFW, TRACK };
            static const int owners[] = { OWNER, OWNER, FN, FN, OBJCOPY, FNNC, TRACK, STDFN };
            switch (pf.kinds)
            {
            case 1: return tracked[r.below(8)];
            case 2: return comparable[r.below(10)];
            case 3: return owners[r.below(8)];
            case 4: return FN;
            default: return int(r.below(NKINDS));
            }
        }

        pmf method(int k) const { return k == 0 ? &Obj<V>::m0 : k == 1 ? &Obj<V>::m1 : &Obj<V>::m2; }
        using fptr = R(*)(W_TYPES);
        static fptr free_ptr(int k) { return k == 0 ? &free_fn<V, 0> : k == 1 ? &free_fn<V, 1> : &free_fn<V, 2>; }

        int pick_object()
        {
            if (objs.empty() || r.chance(1, 4))
            {
                TObj o; o.uid = next_uid++; o.owner = std::make_shared<Obj<V>>(o.uid); o.w = o.owner;
                objs.push_back(o);
                return int(objs.size()) - 1;
            }
            for (int t = 0; t < 6; ++t) { int i = int(r.below(uint32_t(objs.size()))); if (objs[size_t(i)].owner) return i; }
            return -1;
        }

        // Calls f(callable...) with the callable of the given kind in one of the ways it can be passed.
        struct Spec { int kind, key, uid, obj; };
        Spec pick_spec()
        {
            Spec s{ pick_kind(), 0, -1, -1 };
            s.key = int(r.below(uint32_t(pf.keys)));
            if (s.kind == TRACK || s.kind == CUSTOM) { s.obj = pick_object(); if (s.obj < 0) s.kind = FN; }
            switch (s.kind)
            {
            case LAMBDA: s.key = 0; break;
            case FREE: s.key %= 3; break;
            case MEMPTR: case REFW: s.key %= 3; s.uid = raw[r.below(uint32_t(raw.size()))]->c.uid; break;
            case OBJCOPY: s.key %= 3; s.uid = next_uid++; break;
            case TRACK: case CUSTOM: s.key %= 3; s.uid = objs[size_t(s.obj)].uid; break;
            default: s.uid = next_uid++;
            }
            return s;
        }
        Obj<V>* raw_by_uid(int uid) { for (auto& o : raw) if (o->c.uid == uid) return o.get(); return nullptr; }

        template<typename F> auto with_callable(const Spec& s, F f) -> decltype(f(free_ptr(0)))
        {
            int how = int(r.below(4)); // value category / passing mode
            switch (s.kind)
            {
            case FN:
            {
                Fn<V> x(s.uid, s.key); const Fn<V>& cx = x;
                return how == 0 ? api(f, x) : how == 1 ? api(f, cx) : how == 2 ? api(f, std::move(x)) : api(f, Fn<V>(s.uid, s.key));
            }
            case FNNC:
            {
                FnNC<V> x(s.uid, s.key); const FnNC<V>& cx = x;
                return how == 0 ? api(f, x) : how == 1 ? api(f, cx) : api(f, FnNC<V>(s.uid, s.key));
            }
            case STDFN:
            {
                std::function<R(W_TYPES)> x(FnNC<V>(s.uid, s.key));
                return how == 0 ? api(f, x) : api(f, std::move(x));
            }
            case OWNER:
            {
                auto o = std::make_shared<owned_connection<V>>();
                o->target = -1;
                owned.push_back(o);
                return api(f, FnOwner<V>(s.uid, s.key, std::move(o)));
            }
            case FREE:
            {
                fptr p = free_ptr(s.key); const fptr cp = p;
                if (how == 0) return s.key == 0 ? api(f, free_fn<V, 0>) : s.key == 1 ? api(f, free_fn<V, 1>) : api(f, free_fn<V, 2>);
                return how == 1 ? api(f, p) : how == 2 ? api(f, cp) : api(f, free_ptr(s.key));
            }
            case LAMBDA:
            {
                static auto l = make_lambda<V>(); static const auto cl = l;
                return how == 0 ? api(f, l) : how == 1 ? api(f, cl) : api(f, decltype(l)(l));
            }
            case MEMPTR:
            {
                Obj<V>* o = raw_by_uid(s.uid); pmf m = method(s.key); Obj<V>* const co = o; const pmf cm = m;
                return how == 0 ? api(f, m, o) : how == 1 ? api(f, cm, co) : how == 2 ? api(f, method(s.key), raw_by_uid(s.uid)) : api(f, method(s.key), o);
            }
            case REFW:
            {
                Obj<V>* o = raw_by_uid(s.uid); auto w = std::ref(*o);
                return how == 0 ? api(f, method(s.key), w) : api(f, method(s.key), std::ref(*o));
            }
            case OBJCOPY:
            {
                Obj<V> o(s.uid); const Obj<V>& c = o; (void)c;
                return how == 0 ? api(f, method(s.key), o) : api(f, method(s.key), Obj<V>(s.uid));
            }
            case TRACK:
            {
                std::shared_ptr<Obj<V>> o = objs[size_t(s.obj)].w.lock(); const auto& c = o;
                if (how == 0) return api(f, method(s.key), o);
                if (how == 1) return api(f, method(s.key), c);
                return api(f, method(s.key), std::move(o));
            }
            default:
            {
                user::ptr<Obj<V>> o{ objs[size_t(s.obj)].w.lock(), s.obj }; const auto& c = o;
                if (how == 0) return api(f, method(s.key), o);
                if (how == 1) return api(f, method(s.key), c);
                return api(f, method(s.key), std::move(o));
            }
            }
        }
        // Leaves harness mode for the duration of a library call.
        template<typename F, typename... A> auto api(F& f, A&&... a) -> decltype(f(std::forward<A>(a)...))
        {
            struct leave { bool h; leave() : h(st().harness) { st().harness = false; } ~leave() { st().harness = h; } } l;
            return f(std::forward<A>(a)...);
        }
        template<typename F> auto lib(F f) -> decltype(f())
        {
            struct leave { bool h; leave() : h(st().harness) { st().harness = false; } ~leave() { st().harness = h; } } l;
            return f();
        }

        int add_model_slot(const Spec& s, int sgn, bool blocked)
        {
            MSlot m; m.kind = s.kind; m.key = s.key; m.uid = s.uid; m.obj = s.obj; m.sig = sgn; m.blocked = blocked;
            slots.push_back(m);
            int id = int(slots.size()) - 1;
            for (auto& a : boxes[size_t(sgn)].alts) a.push_back(id);
            return id;
        }
        void after_connect(int id, const sig::connection& c)
        {
            MSlot& m = slots[size_t(id)];
            m.mon = c;
            if (m.kind == OWNER && !owned.empty())
            {
                // Give the callable a connection to own: to the most recent other slot, if any.
                if (auto o = owned.back().lock())
                {
                    int t = -1;
                    for (int k = int(slots.size()) - 1; k >= 0 && k > int(slots.size()) - 6; --k)
                        if (k != id && slots[size_t(k)].connected && r.chance(1, 2)) { t = k; break; }
                    if (t >= 0)
                    {
                        o->sc = sig::scoped_connection(slots[size_t(t)].mon);
                        o->target = t;
                        tr("%*s  (its callable owns slot %d)", int(stack.size()), "", t);
                    }
                }
            }
            if (c.connected() != !expired(m)) fail("connect returned a connection that reports connected() == %d", int(c.connected()));
            if (!expired(m) && c.blocked() != m.blocked) fail("a freshly connected slot reports blocked() == %d", int(c.blocked()));
        }

        int pick_signal() { return int(r.below(uint32_t(boxes.size()))); }

        // A slot to aim at: often one that takes part in a running emission.
        int pick_slot()
        {
            if (slots.empty()) return -1;
            if (!stack.empty() && r.chance(uint32_t(pf.self_bias), 100))
            {
                Emission& e = *stack[r.below(uint32_t(stack.size()))];
                const Alt& a = e.alts[0];
                switch (r.below(5))
                {
                case 0: if (!e.running.empty()) return e.running.back(); break;
                case 1: if (a.pos < a.list.size()) return a.list[a.pos]; break;
                case 2: if (!a.list.empty()) return a.list.back(); break;
                case 3: if (!a.list.empty()) return a.list[0]; break;
                default: if (!a.list.empty()) return a.list[r.below(uint32_t(a.list.size()))];
                }
            }
            // prefer slots that are still connected
            for (int t = 0; t < 8; ++t) { int id = int(r.below(uint32_t(slots.size()))); if (slots[size_t(id)].connected) return id; }
            return int(r.below(uint32_t(slots.size())));
        }

        // A handle that refers to slot id: one of the pool or a fresh copy of the monitor's handle.
        void do_connect(bool scoped)
        {
            int sgn = pick_signal();
            Spec s = pick_spec();
            signal& sg = *boxes[size_t(sgn)].p;
            int dst = int(r.below(uint32_t(scoped ? S.size() : H.size())));
            tr("%*sconnect%s signal %d %s key %d uid %d -> slot %zu", int(stack.size()), "", scoped ? "_scoped" : "", sgn, kname(s.kind), s.key, s.uid, slots.size());
            count(scoped ? "op_connect_scoped" : "op_connect");
            if (scoped)
            {
                int old = sid[size_t(dst)];
                sig::connection c;
                if (r.chance(1, 2))
                {
                    sig::scoped_connection n = with_callable(s, scoped_connector{ sg });
                    int id = add_model_slot(s, sgn, false);
                    c = static_cast<sig::connection&>(n); // a plain copy of the handle
                    if (old >= 0) scoped_dies(old);
                    sid[size_t(dst)] = id;
                    lib([&] { *S[size_t(dst)] = std::move(n); return 0; });
                    after_connect(id, c);
                }
                else
                {
                    std::unique_ptr<sig::scoped_connection> n(new sig::scoped_connection(with_callable(s, scoped_connector{ sg })));
                    int id = add_model_slot(s, sgn, false);
                    c = static_cast<sig::connection&>(*n);
                    if (old >= 0) scoped_dies(old);
                    sid[size_t(dst)] = id;
                    S[size_t(dst)].swap(n);
                    n.reset();
                    after_connect(id, c);
                }
            }
            else
            {
                sig::connection c = with_callable(s, connector{ sg });
                int id = add_model_slot(s, sgn, false);
                if (r.chance(3, 4)) { *H[size_t(dst)] = c; hid[size_t(dst)] = id; }
                after_connect(id, c);
            }
        }
        struct connector
        {
            signal& s;
            template<typename... A> sig::connection operator()(A&&... a) { return s.connect(std::forward<A>(a)...); }
        };
        struct scoped_connector
        {
            signal& s;
            template<typename... A> sig::scoped_connection operator()(A&&... a) { return s.connect_scoped(std::forward<A>(a)...); }
        };
        struct eraser
        {
            signal& s;
            template<typename... A> std::size_t operator()(A&&... a) { return s.disconnect(std::forward<A>(a)...); }
        };
        struct slot_maker
        {
            template<typename... A> slot_type* operator()(A&&... a) { return new slot_type(std::forward<A>(a)...); }
        };

        void scoped_dies(int id) { if (id >= 0) model_remove(id); }

        void set_plan()
        {
            plan.actions.clear();
            int n = 1 + int(r.below(6));
            for (int i = 0; i < n; ++i) plan.actions.push_back(r.chance(2, 3) ? 1 : int(r.below(6)) + (r.chance(1, 4) ? 6 : 0)); // 6 or more: preceded by other operations
            plan.stop = r.chance(1, 3) ? int(r.below(6)) : -1;
            plan.token = next_token++;
            plan.catches = r.chance(1, 4); plan.throw_at = pf.throws && r.chance(1, 12) ? int(r.below(5)) : -1;
        }

        void do_emit(int sgn)
        {
            Emission e;
            e.id = next_emission++; e.sig = sgn;
            e.payload = "payload-of-emission-" + std::to_string(e.id) + "-padded-beyond-any-small-string-buffer";
            Box& b = boxes[size_t(sgn)];
            for (auto& a : b.alts) e.alts.push_back(Alt{ a, 0 });
            e.initial = b.alts;
            tr("%*semit %d on signal %d %s%s", int(stack.size()), "", e.id, sgn, show(e.alts[0].list).c_str(), e.alts.size() > 1 ? " (or another order)" : "");
            count("op_emit");
            if (var::plan) set_plan();
            Plan pl = plan;
            stack.push_back(&e);
            const signal& sg = *b.p;
            bool threw = false, oom = false;
            std::string arg = e.payload;
            std::shared_ptr<Obj<V>> keep;
            try
            {
                emit_and_check(sg, e, arg, pl);
            }
            catch (slot_error& x)
            {
                threw = true;
                if (!e.any || x.token != e.last || x.token % 8 == 5) fail("emission %d threw the exception of invocation %d, the last invocation was %d", e.id, x.token, e.last);
                count("slot_exceptions");
            }
            catch (combiner_error& x)
            {
                threw = true;
                if (x.emission != e.id || pl.throw_at < 0) fail("emission %d threw the exception of the combiner of emission %d", e.id, x.emission);
                count("combiner_exceptions");
            }
            catch (int t)
            {
                threw = true;
                if (!e.any || t != e.last) fail("emission %d threw the exception of invocation %d, the last invocation was %d", e.id, t, e.last);
                count("slot_exceptions");
            }
            catch (std::bad_alloc&)
            {
                if (!faults().fired) fail("emission %d threw bad_alloc although no allocation failed", e.id);
                oom = true;
            }
            catch (...) { fail("emission %d threw something no slot has thrown", e.id); }
            faults().countdown = -1;
            if (arg != e.payload) fail("emission %d changed the caller's argument", e.id);
            stack.pop_back();
            events += 1;
            if (!threw && !oom) { learn(e); }
            count("invocations", uint64_t(e.invocations));
            check_objects();
            tr("%*send of emission %d%s", int(stack.size()), "", e.id, threw ? " (exception)" : oom ? " (no memory)" : "");
        }

        void finish(Emission& e)
        {
            if (var::plan) return;
            std::vector<Alt> keep;
            for (auto& x : e.alts)
            {
                size_t p = x.pos;
                while (p < x.list.size() && !eligible(x.list[p])) ++p;
                if (p == x.list.size()) keep.push_back(x);
            }
            if (keep.empty())
            {
                Alt& x = e.alts[0];
                size_t p = x.pos;
                while (p < x.list.size() && !eligible(x.list[p])) ++p;
                fail("emission %d on signal %d ended without running slot %d of %s", e.id, e.sig, p < x.list.size() ? x.list[p] : -1, show(x.list).c_str());
            }
            e.alts.swap(keep);
        }
        // Orders the emission refuted are dropped, if the list has not been changed since it was read.
        void learn(Emission& e)
        {
            auto& alts = boxes[size_t(e.sig)].alts;
            if (alts.size() < 2 || alts != e.initial) return; // what was seen says nothing about lists changed meanwhile
            std::vector<std::vector<int>> keep;
            for (auto& a : alts) for (auto& x : e.alts) if (x.list == a) { keep.push_back(a); break; }
            if (!keep.empty()) alts.swap(keep);
        }

        template<int W = V> typename std::enable_if<!variant<W>::plan && !std::is_void<typename variant<W>::R>::value>::type
        emit_and_check(const signal& sg, Emission& e, const std::string& arg, Plan&)
        {
            auto res = lib([&] { return W_EMIT(sg); });
            finish(e);
            if (e.any ? !token_of<R>::is(res, e.last) : bool(res))
                fail("emission %d returned %s, expected %s %d", e.id, res ? "another value" : "nothing", e.any ? "the result of the last slot" : "nothing", e.last);
        }
        template<int W = V> typename std::enable_if<!variant<W>::plan && std::is_void<typename variant<W>::R>::value>::type
        emit_and_check(const signal& sg, Emission& e, const std::string& arg, Plan&)
        {
            auto res = lib([&] { return W_EMIT(sg); });
            finish(e);
            if (res) fail("emission %d of a void signal returned an engaged optional", e.id);
        }
        template<int W = V> typename std::enable_if<variant<W>::plan>::type
        emit_and_check(const signal& sg, Emission& e, const std::string& arg, Plan& pl)
        {
            plan = pl;
            plan_result res = lib([&] { return W_EMIT(sg); });
            if (res.token != pl.token) fail("emission %d did not return the combiner's result", e.id);
        }

        // Disconnects slot id through some handle.
        void do_disconnect()
        {
            int id; sig::connection tmp; sig::connection* h;
            if (r.chance(1, 2)) { size_t i = r.below(uint32_t(H.size())); id = hid[i]; h = H[i].get(); }
            else { id = pick_slot(); if (id < 0) return; tmp = slots[size_t(id)].mon; h = &tmp; }
            count("op_disconnect");
            if (id >= 0 && slots[size_t(id)].connected && expired(slots[size_t(id)]))
            {
                bool d = lib([&] { return h->disconnect(); });
                tr("%*sdisconnect slot %d (expired) = %d", int(stack.size()), "", id, int(d));
                if (d) model_remove(id);
                else slots[size_t(id)].fuzzy_gone = true;
                return;
            }
            bool expect = model_connected(id);
            tr("%*sdisconnect slot %d", int(stack.size()), "", id);
            if (expect) model_remove(id);
            bool d = lib([&] { return h->disconnect(); });
            if (d != expect) fail("disconnect() of slot %d returned %d, expected %d", id, int(d), int(expect));
            if (h->connected()) fail("connection of slot %d reports connected after disconnect()", id);
            if (lib([&] { return h->disconnect(); })) fail("second disconnect() of slot %d returned true", id);
            ++events;
        }

        void do_handle_move()
        {
            size_t i = r.below(uint32_t(H.size())), j = r.below(uint32_t(H.size()));
            count("op_handle");
            switch (r.below(6))
            {
            case 0: tr("%*sH%zu = H%zu", int(stack.size()), "", i, j); *H[i] = *H[j]; hid[i] = hid[j]; break;
            case 1: if (i == j) return; tr("%*sH%zu = move(H%zu)", int(stack.size()), "", i, j); *H[i] = std::move(*H[j]); hid[i] = hid[j]; hid[j] = -1; break;
            case 2: tr("%*sH%zu.swap(H%zu)", int(stack.size()), "", i, j); H[i]->swap(*H[j]); std::swap(hid[i], hid[j]); break;
            case 3: tr("%*sswap(H%zu, H%zu)", int(stack.size()), "", i, j); sig::swap(*H[i], *H[j]); std::swap(hid[i], hid[j]); break;
            case 4: tr("%*sH%zu = copy of H%zu", int(stack.size()), "", i, j); { auto n = std::unique_ptr<sig::connection>(new sig::connection(*H[j])); H[i].swap(n); hid[i] = hid[j]; } break;
            default: tr("%*sH%zu destroyed", int(stack.size()), "", i); H[i].reset(new sig::connection); hid[i] = -1; break;
            }
            check_handle(i); check_handle(j);
        }
        void check_handle(size_t i)
        {
            check_connection(*H[i], hid[i], "handle");
        }
        void check_connection(const sig::connection& c, int id, const char* what)
        {
            ++events;
            bool conn = model_connected(id);
            if (c.connected() != conn) fail("%s of slot %d reports connected() == %d, expected %d", what, id, int(c.connected()), int(conn));
            if (conn)
            {
                const MSlot& m = slots[size_t(id)];
                bool bl = m.blocked || m.blockers > 0;
                if (c.blocked() != bl) fail("%s of slot %d reports blocked() == %d, expected %d", what, id, int(c.blocked()), int(bl));
                if (!c.valid()) fail("%s of slot %d is not valid although the slot is connected", what, id);
            }
            else if (id < 0)
            {
                if (c.valid()) fail("an empty %s reports valid()", what);
                if (c.blocked()) fail("an empty %s reports blocked()", what);
            }
        }
        void do_query()
        {
            count("op_query");
            check_handle(r.below(uint32_t(H.size())));
            size_t i = r.below(uint32_t(S.size()));
            check_connection(*S[i], sid[i], "scoped handle");
            int id = pick_slot();
            if (id >= 0) check_connection(slots[size_t(id)].mon, id, "handle");
        }
        void do_block()
        {
            int id = pick_slot(); sig::connection tmp; sig::connection* h;
            if (r.chance(1, 3)) { size_t i = r.below(uint32_t(H.size())); id = hid[i]; h = H[i].get(); }
            else { if (id < 0) return; tmp = slots[size_t(id)].mon; h = &tmp; }
            bool b = r.chance(1, 2);
            count(b ? "op_block" : "op_unblock");
            tr("%*s%s slot %d", int(stack.size()), "", b ? "block" : "unblock", id);
            lib([&] { if (b) h->block(); else h->unblock(); return 0; });
            if (id >= 0) slots[size_t(id)].blocked = b;
            check_connection(*h, id, "handle");
        }
        void add_blocker(int id, int n) { if (id >= 0) slots[size_t(id)].blockers += n; }
        void do_blocker()
        {
            size_t i = r.below(uint32_t(B.size())), j = r.below(uint32_t(B.size()));
            count("op_blocker");
            switch (r.below(7))
            {
            case 0: case 1:
            {
                int id = pick_slot(); if (id < 0) return;
                tr("%*sB%zu = blocker of slot %d", int(stack.size()), "", i, id);
                add_blocker(id, 1); add_blocker(bid[i], -1); bid[i] = id;
                *B[i] = slots[size_t(id)].mon.blocker();
                break;
            }
            case 2:
            {
                int id = pick_slot(); if (id < 0) return;
                tr("%*sB%zu replaced by blocker of slot %d", int(stack.size()), "", i, id);
                std::unique_ptr<sig::connection_blocker> n(new sig::connection_blocker(slots[size_t(id)].mon.blocker()));
                add_blocker(id, 1);
                B[i].swap(n); n.reset();
                add_blocker(bid[i], -1); bid[i] = id;
                break;
            }
            case 3: tr("%*sB%zu destroyed (slot %d)", int(stack.size()), "", i, bid[i]); B[i].reset(new sig::connection_blocker); add_blocker(bid[i], -1); bid[i] = -1; break;
            case 4:
                tr("%*sB%zu = move(B%zu)", int(stack.size()), "", i, j);
                { sig::connection_blocker& x = *B[j]; *B[i] = std::move(x); }
                if (i != j) { add_blocker(bid[i], -1); bid[i] = bid[j]; bid[j] = -1; }
                break;
            case 5: tr("%*sswap(B%zu, B%zu)", int(stack.size()), "", i, j); if (r.chance(1, 2)) B[i]->swap(*B[j]); else sig::swap(*B[i], *B[j]); std::swap(bid[i], bid[j]); break;
            default:
            {
                tr("%*sB%zu moved to a new object", int(stack.size()), "", i);
                std::unique_ptr<sig::connection_blocker> n(new sig::connection_blocker(std::move(*B[i])));
                B[i].swap(n);
                break;
            }
            }
            if (bid[i] >= 0) check_connection(slots[size_t(bid[i])].mon, bid[i], "handle");
        }
        void do_scoped()
        {
            size_t i = r.below(uint32_t(S.size())), j = r.below(uint32_t(S.size())), h = r.below(uint32_t(H.size()));
            int oi = sid[i], oj = sid[j];
            count("op_scoped");
            switch (r.below(13))
            {
            case 11: case 12: // destroyed through a pointer to its base class
            {
                int id = hid[h];
                tr("%*sscoped copy of H%zu (slot %d) destroyed through a pointer to connection", int(stack.size()), "", h, id);
                std::unique_ptr<sig::connection> n(new sig::scoped_connection(*H[h]));
                check_connection(*n, id, "scoped handle");
                scoped_dies(id);
                lib([&] { n.reset(); return 0; });
                break;
            }
            case 0: tr("%*sS%zu destroyed (slot %d)", int(stack.size()), "", i, oi); scoped_dies(oi); sid[i] = -1; lib([&] { S[i].reset(new sig::scoped_connection); return 0; }); break;
            case 1: if (i == j) return; tr("%*sS%zu = move(S%zu)", int(stack.size()), "", i, j); scoped_dies(oi); sid[i] = oj; sid[j] = -1; lib([&] { *S[i] = std::move(*S[j]); return 0; }); break;
            case 2: tr("%*sS%zu moved to a new object", int(stack.size()), "", i); lib([&] { std::unique_ptr<sig::scoped_connection> n(new sig::scoped_connection(std::move(*S[i]))); S[i].swap(n); return 0; }); break;
            case 3: tr("%*sH%zu = S%zu.release() (slot %d)", int(stack.size()), "", h, i, oi); lib([&] { *H[h] = S[i]->release(); return 0; }); hid[h] = oi; sid[i] = -1; break;
            case 4: tr("%*sS%zu.swap(S%zu)", int(stack.size()), "", i, j); lib([&] { S[i]->swap(*S[j]); return 0; }); std::swap(sid[i], sid[j]); break;
            case 5: tr("%*sswap(S%zu, S%zu)", int(stack.size()), "", i, j); lib([&] { sig::swap(*S[i], *S[j]); return 0; }); std::swap(sid[i], sid[j]); break;
            case 6: tr("%*sS%zu.swap(H%zu)", int(stack.size()), "", i, h); lib([&] { S[i]->swap(*H[h]); return 0; }); std::swap(sid[i], hid[h]); break;
            case 7: if (oi == hid[h] && oi >= 0) return; tr("%*sS%zu = H%zu (slot %d)", int(stack.size()), "", i, h, hid[h]); scoped_dies(oi); sid[i] = hid[h]; lib([&] { *S[i] = *H[h]; return 0; }); break;
            case 8: tr("%*sH%zu = move(S%zu) (slot %d)", int(stack.size()), "", h, i, oi); lib([&] { *H[h] = std::move(*S[i]); return 0; }); hid[h] = oi; sid[i] = -1; break;
            case 9: tr("%*sS%zu replaced by scoped copy of H%zu (slot %d)", int(stack.size()), "", i, h, hid[h]);
                lib([&] { std::unique_ptr<sig::scoped_connection> n(r.chance(1, 2) ? new sig::scoped_connection(*H[h]) : new sig::scoped_connection(sig::connection(*H[h])));
                    S[i].swap(n); sid[i] = hid[h]; scoped_dies(oi); n.reset(); return 0; }); break;
            default: // explicit disconnect through the scoped handle
            {
                bool expect = model_connected(oi);
                if (oi >= 0 && slots[size_t(oi)].connected && !expect) return;
                tr("%*sS%zu.disconnect() (slot %d)", int(stack.size()), "", i, oi);
                scoped_dies(oi);
                if (lib([&] { return S[i]->disconnect(); }) != expect) fail("disconnect() through a scoped connection did not return %d", int(expect));
            }
            }
            check_connection(*S[i], sid[i], "scoped handle"); check_connection(*S[j], sid[j], "scoped handle");
            check_handle(h);
            if (oi >= 0) check_connection(slots[size_t(oi)].mon, oi, "handle");
            if (oj >= 0) check_connection(slots[size_t(oj)].mon, oj, "handle");
        }

        // true: comparable; the slots equal to the spec are exactly the ones with the same kind, key and object.
        bool comparable(int k) const { return k == FN || k == FREE || k == LAMBDA || k == MEMPTR || k == CUSTOM || k == OWNER; }
        bool same(const MSlot& m, const Spec& s) const
        {
            if (m.kind != s.kind || m.key != s.key) return false;
            if (s.kind == MEMPTR || s.kind == CUSTOM) return m.uid == s.uid;
            return true;
        }
        void do_erase()
        {
            int sgn = pick_signal();
            Box& b = boxes[size_t(sgn)];
            if (b.alts.size() > 6) { do_emit(sgn); if (b.alts.size() > 6) return; }
            Spec s = pick_spec();
            int t = pick_slot();
            if (t >= 0 && r.chance(2, 3)) // aim at an existing slot
            {
                const MSlot& m = slots[size_t(t)];
                if (m.sig >= 0 && m.connected) sgn = m.sig;
                if (!((m.kind == TRACK || m.kind == CUSTOM) && expired(m))) { s.kind = m.kind; s.key = m.key; s.obj = m.obj; if (m.kind == MEMPTR || m.kind == REFW || m.kind == CUSTOM || m.kind == TRACK) s.uid = m.uid; else s.uid = next_uid++; }
            }
            count("op_erase");
            do_erase(sgn, s, nullptr);
        }
        void do_erase(int sgn, const Spec& s, const slot_type* by_slot)
        {
            Box& b = boxes[size_t(sgn)];
            std::vector<int> gone; int sure = 0, maybe = 0, same_type = 0;
            std::vector<int> listed = b.alts[0]; // dead entries are in some of the possible lists only
            for (size_t i = 1; i < b.alts.size(); ++i) for (int id : b.alts[i]) if (!slots[size_t(id)].connected && std::find(listed.begin(), listed.end(), id) == listed.end()) listed.push_back(id);
            for (int id : listed)
            {
                const MSlot& m = slots[size_t(id)];
                // different member functions may be told apart without comparing the objects
                if (m.kind == s.kind && m.connected && !expired(m) && (m.key == s.key || !(m.kind == REFW || m.kind == OBJCOPY || m.kind == TRACK))) ++same_type;
                if (comparable(s.kind) && same(m, s)) { gone.push_back(id); if (expired(m) || !m.connected) ++maybe; else ++sure; }
            }
            tr("%*sdisconnect by %s (%s key %d uid %d) on signal %d: %d+%d matches", int(stack.size()), "", by_slot ? "slot" : "callable", kname(s.kind), s.key, s.uid, sgn, sure, maybe);
            ++events;
            size_t n = 0; bool threw = false, oom = false;
            std::vector<sig::connection> mons;
            for (int id : gone) mons.push_back(slots[size_t(id)].mon);
            bool armed = faults().countdown >= 0;
            auto alts_before = b.alts;
            if (!armed) { if (gone.size() == 1 && slots[size_t(gone[0])].connected) model_remove(gone[0]); else if (!gone.empty()) model_remove_many(sgn, gone); }
            try
            {
                signal& sg = *b.p;
                if (by_slot) n = lib([&] { return sg.disconnect(*by_slot); });
                else n = with_callable(s, eraser{ sg });
            }
            catch (sig::not_comparable_exception&) { threw = true; }
            catch (std::bad_alloc&) { if (!faults().fired) fail("disconnect threw bad_alloc although no allocation failed"); oom = true; }
            faults().countdown = -1;
            if (oom)
            {
                // Every slot is either still connected or properly disconnected.
                // Entries that were dead before may be gone or not.
                std::vector<int> really, dead;
                for (size_t i = 0; i < gone.size(); ++i)
                {
                    const MSlot& m = slots[size_t(gone[i])];
                    if (!m.connected) dead.push_back(gone[i]);
                    else if (!mons[i].connected() && !expired(m)) really.push_back(gone[i]);
                    else if (expired(m)) dead.push_back(gone[i]);
                }
                auto before = b.alts; std::vector<std::vector<int>> all;
                if (dead.size() > 4) dead.resize(4);
                for (int id : dead) slots[size_t(id)].fuzzy_gone = true;
                std::vector<char> was; for (int id : dead) was.push_back(slots[size_t(id)].connected);
                for (unsigned mask = 0; mask < (1u << dead.size()); ++mask)
                {
                    std::vector<int> g = really;
                    for (size_t i = 0; i < dead.size(); ++i) if (mask >> i & 1) g.push_back(dead[i]);
                    b.alts = before;
                    model_remove_many(sgn, g);
                    for (auto& x : b.alts) all.push_back(x);
                }
                b.alts.swap(all); dedupe(b.alts);
                for (size_t i = 0; i < dead.size(); ++i) slots[size_t(dead[i])].connected = was[i];
                return;
            }
            if (armed) { if (gone.size() == 1 && slots[size_t(gone[0])].connected) model_remove(gone[0]); else if (!gone.empty()) model_remove_many(sgn, gone); }
            if (comparable(s.kind))
            {
                if (threw) fail("disconnect by a comparable callable threw not_comparable_exception");
                if (n < size_t(sure) || n > size_t(sure + maybe)) fail("disconnect by callable returned %zu, %d slots match (and %d expired ones)", n, sure, maybe);
                for (size_t i = 0; i < mons.size(); ++i) if (mons[i].connected()) fail("slot %d is still connected after disconnect by callable", gone[i]);
            }
            else
            {
                if (same_type > 0 && !threw) fail("disconnect by a callable that cannot be compared did not throw (returned %zu)", n);
                if (!threw && n != 0) fail("disconnect by a callable that is not connected returned %zu", n);
                count("not_comparable", threw);
            }
        }
        void do_drop_object()
        {
            if (objs.empty()) return;
            size_t i = r.below(uint32_t(objs.size()));
            if (!stack.empty() && r.chance(1, 2)) // aim at an object that takes part in the emission
            {
                int id = pick_slot();
                if (id >= 0 && slots[size_t(id)].obj >= 0) i = size_t(slots[size_t(id)].obj);
            }
            TObj& o = objs[i];
            if (!o.owner) return;
            count("op_drop_object");
            tr("%*sdrop object %zu%s", int(stack.size()), "", i, o.running ? " (running)" : "");
            o.dropped = true;
            std::shared_ptr<Obj<V>> last; last.swap(o.owner);
            last.reset();
            check_objects();
            for (size_t k = 0; k < slots.size(); ++k)
                if (slots[k].obj == int(i) && slots[k].connected && o.running == 0 && slots[k].mon.connected()) fail("slot %zu reports connected after its object died", k);
        }
        void relocate(int from, int to)
        {
            for (auto& m : slots) if (m.connected && m.sig == from) m.sig = to;
        }
        void do_sig_move()
        {
            int a = pick_signal(), b = pick_signal();
            count("op_sig_move");
            switch (r.below(5))
            {
            case 4: // the generic swap: three moves
            {
                if (a == b) return;
                tr("%*sswap(signal %d, signal %d)", int(stack.size()), "", a, b);
                std::swap(boxes[size_t(b)].alts, boxes[size_t(a)].alts);
                for (auto& m : slots) if (m.connected) { if (m.sig == a) m.sig = b; else if (m.sig == b) m.sig = a; }
                lib([&] { std::swap(*boxes[size_t(a)].p, *boxes[size_t(b)].p); return 0; });
                break;
            }
            case 0: // move construct, the source is destroyed
            {
                tr("%*ssignal %d moved to a new object", int(stack.size()), "", a);
                lib([&] { std::unique_ptr<signal> n(new signal(std::move(*boxes[size_t(a)].p))); boxes[size_t(a)].p.swap(n); n.reset(); return 0; });
                break;
            }
            case 1: // move construct over another signal, the source stays in use
            {
                if (a == b) return;
                tr("%*ssignal %d replaced by a signal move constructed from %d", int(stack.size()), "", b, a);
                lib([&] {
                    std::unique_ptr<signal> n(new signal(std::move(*boxes[size_t(a)].p)));
                    model_clear(b);
                    std::swap(boxes[size_t(b)].alts, boxes[size_t(a)].alts);
                    relocate(a, b);
                    boxes[size_t(b)].p.swap(n);
                    n.reset();
                    return 0; });
                break;
            }
            case 2: // move assign
            {
                if (a == b) return;
                tr("%*ssignal %d = move(signal %d)", int(stack.size()), "", b, a);
                model_clear(b);
                std::swap(boxes[size_t(b)].alts, boxes[size_t(a)].alts);
                relocate(a, b);
                lib([&] { signal& x = (*boxes[size_t(b)].p = std::move(*boxes[size_t(a)].p)); if (&x != boxes[size_t(b)].p.get()) fail("move assignment does not return the target"); return 0; });
                break;
            }
            default: // self assignment
            {
                tr("%*ssignal %d moved to itself", int(stack.size()), "", a);
                signal& x = *boxes[size_t(a)].p; signal& y = x;
                lib([&] { x = std::move(y); return 0; });
            }
            }
            check_some(8);
        }
        void do_sig_destroy()
        {
            int a = pick_signal();
            count("op_sig_destroy");
            tr("%*ssignal %d destroyed", int(stack.size()), "", a);
            model_clear(a);
            lib([&] { std::unique_ptr<signal> n(new signal); boxes[size_t(a)].p.swap(n); n.reset(); return 0; });
            check_some(8);
        }
        void do_slot_obj()
        {
            size_t i = r.below(uint32_t(sobjs.size()));
            SlotObj& o = sobjs[i];
            count("op_slot_object");
            if (!o.p || r.chance(1, 4))
            {
                Spec s = pick_spec();
                if (s.kind == OWNER) s.kind = FN;
                tr("%*ssl%zu = slot(%s key %d uid %d)", int(stack.size()), "", i, kname(s.kind), s.key, s.uid);
                std::unique_ptr<slot_type> p(with_callable(s, slot_maker{}));
                o.kind = s.kind; o.key = s.key; o.uid = s.uid; o.obj = s.obj; o.blocked = false;
                o.p.swap(p);
                return;
            }
            switch (r.below(6))
            {
            case 0: tr("%*ssl%zu destroyed", int(stack.size()), "", i); o.p.reset(); o = SlotObj(); break;
            case 1: o.blocked = !o.blocked; tr("%*ssl%zu %s", int(stack.size()), "", i, o.blocked ? "blocked" : "unblocked"); if (o.blocked) o.p->block(); else o.p->unblock(); break;
            case 2: case 3: case 4:
            {
                int sgn = pick_signal();
                signal& sg = *boxes[size_t(sgn)].p;
                Spec s{ o.kind, o.key, o.uid, o.obj };
                tr("%*sconnect sl%zu to signal %d -> slot %zu", int(stack.size()), "", i, sgn, slots.size());
                sig::connection c = lib([&] { return sg.connect(*o.p); });
                int id = add_model_slot(s, sgn, o.blocked);
                after_connect(id, c);
                size_t h = r.below(uint32_t(H.size()));
                *H[h] = c; hid[h] = id;
                break;
            }
            default:
            {
                int sgn = pick_signal();
                Spec s{ o.kind, o.key, o.uid, o.obj };
                if (boxes[size_t(sgn)].alts.size() > 6) return;
                do_erase(sgn, s, o.p.get());
            }
            }
        }

        void do_faulty()
        {
            // One library call with the k-th allocation failing; the outcome is judged by the same oracles.
            faults().fired = false;
            long k = long(r.below(10));
            bool sc = scripts; scripts = false;
            count("op_with_fault");
            switch (r.below(5))
            {
            case 0: case 1:
            {
                int sgn = pick_signal();
                Spec s = pick_spec(); if (s.kind == OWNER) s.kind = FN;
                signal& sg = *boxes[size_t(sgn)].p;
                tr("%*sconnect signal %d %s key %d uid %d with allocation %ld failing", int(stack.size()), "", sgn, kname(s.kind), s.key, s.uid, k);
                sig::connection c; bool ok = true;
                try { c = with_callable(s, fault_connector{ sg, k }); }
                catch (std::bad_alloc&) { ok = false; if (!faults().fired) fail("connect threw bad_alloc although no allocation failed"); }
                faults().countdown = -1;
                if (ok) { int id = add_model_slot(s, sgn, false); after_connect(id, c); }
                else
                {
                    count("failed_connects");
                    if (s.uid >= 0 && (s.kind == FN || s.kind == FNNC || s.kind == OBJCOPY || s.kind == STDFN) && live_uid(s.uid) != 0) fail("a failed connect leaks the callable");
                }
                break;
            }
            case 2:
            {
                int sgn = pick_signal();
                tr("%*snext emission with allocation %ld failing", int(stack.size()), "", k);
                faults().countdown = k;
                do_emit(sgn);
                break;
            }
            case 3:
            {
                int id = pick_slot();
                if (id < 0 || !model_connected(id)) break;
                // keep the list shared with a snapshot so that disconnecting has to allocate
                fault_disconnect(id, k);
                break;
            }
            default:
            {
                int sgn = pick_signal();
                if (boxes[size_t(sgn)].alts.size() > 6) break;
                Spec s = pick_spec(); if (s.kind == OWNER) s.kind = FN;
                int t = pick_slot();
                if (t >= 0) { const MSlot& m = slots[size_t(t)]; if (comparable(m.kind) && m.kind != OWNER && m.kind != CUSTOM && m.connected) { s.kind = m.kind; s.key = m.key; s.obj = m.obj; if (m.kind == MEMPTR) s.uid = m.uid; sgn = m.sig; } }
                slot_type cmp = make_slot(s);
                faults().countdown = k;
                tr("%*swith allocation %ld failing:", int(stack.size()), "", k);
                do_erase(sgn, s, &cmp);
            }
            }
            faults().countdown = -1;
            if (faults().fired) { count("allocation_faults"); ++events; }
            scripts = sc;
            // the world must go on as if nothing happened
            check_some(5);
        }
        struct fault_connector
        {
            signal& s; long k;
            template<typename... A> sig::connection operator()(A&&... a) { faults().countdown = k; sig::connection c = s.connect(std::forward<A>(a)...); faults().countdown = -1; return c; }
        };
        struct slot_value_maker { template<typename... A> slot_type operator()(A&&... a) { return slot_type(std::forward<A>(a)...); } };
        slot_type make_slot(const Spec& s) { guard_harness g; return with_callable(s, slot_value_maker{}); }

        // Disconnect inside an emission: the slot list is shared, so removal has to copy it and the copy fails.
        void fault_disconnect(int id, long k)
        {
            int sgn = slots[size_t(id)].sig;
            sig::connection h = slots[size_t(id)].mon;
            tr("%*sdisconnect slot %d during an emission with allocation %ld failing", int(stack.size()), "", id, k % 4);
            Spec s{ FN, 0, next_uid++, -1 };
            struct disc { World& w; sig::connection& h; long k; bool* done; bool* res; };
            bool done = false, res = false;
            pending = [&]() {
                if (done) return;
                done = true;
                finish_pending();
                lib([&] { faults().countdown = k % 2; res = h.disconnect(); faults().countdown = -1; return 0; });
            };
            // run it from whichever slot of the emission runs first; if none does, run it directly
            scripts_hook = true;
            (void)s;
            do_emit_with_pending(sgn, id, done, res);
            scripts_hook = false;
            pending = nullptr;
        }
        std::function<void()> pending; bool scripts_hook = false;

        void do_emit_with_pending(int sgn, int id, bool& done, bool& res)
        {
            // a helper slot at the end of the list performs the disconnect while the snapshot is alive
            signal& sg = *boxes[size_t(sgn)].p;
            struct Helper { World* w; canary c; R operator()(W_PARAMS) { W_GET return w->helper(a, s, c.uid); } };
            int uid = next_uid++;
            sig::connection hc = sg.connect(Helper{ this, canary(uid) });
            Spec sp{ FNNC, 99, uid, -1 };
            int hidx = add_model_slot(sp, sgn, false);
            slots[size_t(hidx)].mon = hc;
            pending_id = id;
            do_emit(sgn);
            faults().countdown = -1;
            if (!done) pending();
            if (!res) fail("disconnect() of slot %d failed because an allocation failed", id);
            if (slots[size_t(id)].mon.connected()) fail("slot %d still reports connected after disconnect() with a failing allocation", id);
            model_remove(hidx);
            if (!hc.disconnect()) fail("helper slot could not be disconnected");
        }
        int pending_id = -1;
        void finish_pending()
        {
            // With a failed copy the slot may stay in the list as a dead entry: both outcomes are legal.
            MSlot& m = slots[size_t(pending_id)];
            if (!m.connected) return;
            guard_harness g;
            auto& alts = boxes[size_t(m.sig)].alts;
            std::vector<std::vector<int>> res;
            for (auto& a : alts) { auto x = a; swap_remove(x, pending_id); res.push_back(x); res.push_back(a); }
            alts.swap(res); dedupe(alts);
            m.connected = false; m.fuzzy_gone = true;
        }
        R helper(int a, std::string& s, int uid)
        {
            {
                guard_harness g;
                if (pending) pending();
            }
            return on_invoke(FNNC, 99, uid, a, s);
        }

        // Now and then from a destructor, while an exception is on its way (destructors may emit, connect, disconnect ...).
        void step()
        {
            if (!r.chance(1, 12)) { plain_step(); return; }
            struct on_exit { World* w; ~on_exit() { tr("%*s(while an exception is on its way)", int(w->stack.size()), ""); w->plain_step(); } };
            struct passing {};
            count("steps_during_unwinding");
            try { on_exit e{ this }; throw passing(); } catch (passing&) {}
        }
        void plain_step()
        {
            --budget;
            int w[] = { pf.connect, pf.connect_scoped, pf.emit, pf.disconnect, pf.handle_move, pf.query, pf.block, pf.blocker, pf.scoped, pf.erase, pf.drop_object, pf.sig_move, pf.sig_destroy, pf.slot_obj };
            int sum = 0; for (int x : w) sum += x;
            int x = int(r.below(uint32_t(sum))), k = 0;
            while (x >= w[k]) x -= w[k++];
            if (stack.empty() && pf.faults && r.chance(uint32_t(pf.faults), 100)) { do_faulty(); return; }
            switch (k)
            {
            case 0: do_connect(false); break;
            case 1: do_connect(true); break;
            case 2: do_emit(pick_signal()); break;
            case 3: do_disconnect(); break;
            case 4: do_handle_move(); break;
            case 5: do_query(); break;
            case 6: do_block(); break;
            case 7: do_blocker(); break;
            case 8: do_scoped(); break;
            case 9: do_erase(); break;
            case 10: do_drop_object(); break;
            case 11: do_sig_move(); break;
            case 12: do_sig_destroy(); break;
            default: do_slot_obj(); break;
            }
            if (stack.empty() && r.chance(1, 3)) check_some(6);
        }

        void check_some(int n)
        {
            for (size_t i = 0; i < slots.size() && n > 0; ++i, --n)
            {
                size_t k = slots.size() <= size_t(n) ? i : r.below(uint32_t(slots.size()));
                check_connection(slots[k].mon, int(k), "handle");
            }
        }
        // Nothing is running: handles, callables and objects must agree with the model completely.
        void check_all()
        {
            for (size_t i = 0; i < H.size(); ++i) check_handle(i);
            for (size_t i = 0; i < S.size(); ++i) check_connection(*S[i], sid[i], "scoped handle");
            std::unordered_map<int, int> holders;
            for (auto& o : sobjs) if (o.p && o.uid >= 0) ++holders[o.uid];
            for (auto& m : slots) if (m.connected && m.uid >= 0) ++holders[m.uid];
            for (size_t i = 0; i < slots.size(); ++i)
            {
                MSlot& m = slots[i];
                check_connection(m.mon, int(i), "handle");
                if (!m.connected && !m.fuzzy_gone && m.mon.valid()) fail("slot %zu still exists although it is disconnected and nothing is running", i);
                if (m.fuzzy_gone) continue;
                if (m.kind == FN || m.kind == FNNC || m.kind == STDFN || m.kind == OBJCOPY || m.kind == OWNER)
                {
                    int live = live_uid(m.uid), hold = holders[m.uid];
                    if (hold > 0 && live < hold) fail("callable of slot %zu: %d copies alive, %d slots hold one", i, live, hold);
                    if (hold == 0 && live != 0 && !any_fuzzy(m.uid)) fail("callable of slot %zu is still alive (%d copies) although the slot is disconnected and nothing is running", i, live);
                }
                ++events;
            }
            check_objects();
        }
        bool any_fuzzy(int uid) const { for (auto& m : slots) if (m.uid == uid && m.fuzzy_gone) return true; return false; }

        void run()
        {
            guard_harness g;
            int n = pf.min_ops + int(r.below(uint32_t(pf.max_ops - pf.min_ops + 1)));
            const clock_t t0 = clock();
            for (int i = 0; i < pf.initial && (i % 1000 || clock() - t0 < 20 * CLOCKS_PER_SEC); ++i) do_connect(false);
            for (int i = 0; i < n; ++i)
            {
                budget = 1 + int(r.below(8));
                step();
                if (r.chance(1, 8)) check_all();
            }
            check_all();
            for (size_t b = 0; b < boxes.size(); ++b) { budget = 0; do_emit(int(b)); }
            check_all();
            teardown();
        }
        void teardown()
        {
            tr("teardown");
            scripts = false;
            if (r.chance(1, 2)) // signals die first, handles are used afterwards
            {
                for (size_t b = 0; b < boxes.size(); ++b) { model_clear(int(b)); lib([&] { boxes[b].p.reset(); return 0; }); }
                for (size_t i = 0; i < slots.size(); ++i)
                {
                    sig::connection& c = slots[i].mon;
                    if (c.connected()) fail("slot %zu reports connected after its signal was destroyed", i);
                    if (c.disconnect()) fail("slot %zu could be disconnected after its signal was destroyed", i);
                    c.block(); c.unblock();
                    sig::connection_blocker x = c.blocker();
                }
            }
            B.clear();
            for (size_t i = 0; i < S.size(); ++i) { scoped_dies(sid[i]); sid[i] = -1; lib([&] { S[i].reset(); return 0; }); }
            H.clear();
            for (auto& o : sobjs) o.p.reset();
            for (size_t b = 0; b < boxes.size(); ++b) { model_clear(int(b)); lib([&] { boxes[b].p.reset(); return 0; }); }
            objs.clear(); raw.clear();
            if (!reg().live.empty()) fail("%zu callables or objects are alive after everything was destroyed (first uid %d)", reg().live.size(), reg().live.begin()->second);
            cur = nullptr;
        }
    };
    template<int V> World<V>* World<V>::cur = nullptr;

    template<int V> owned_connection<V>::~owned_connection()
    {
        guard_harness g;
        if (target >= 0 && World<V>::cur)
        {
            tr("(callable dies and disconnects slot %d)", target);
            World<V>::cur->model_remove(target);
        }
    }

    // Combiner that follows the plan of the current emission and checks each step.
    template<int V> struct plan_combiner
    {
        using result_type = plan_result;
        template<typename It> result_type operator()(It first, It last) const
        {
            World<V>& w = *World<V>::cur;
            bool h = st().harness; st().harness = true;
            auto pl = w.plan;
            auto& e = *w.stack.back();
            struct restore { bool h; ~restore() { st().harness = h; } } rs{ h };
            size_t step = 0;
            // Orders the model still considers possible can differ in their number of dead entries.
            auto keep_if = [&](size_t n, bool exact) {
                auto keep = e.alts; keep.clear();
                for (auto& x : e.alts) if (exact ? x.list.size() == n : x.list.size() > n) keep.push_back(x);
                if (keep.empty()) fail("the combiner was given %s%zu slots, the signal has %zu", exact ? "" : "more than ", n, e.alts[0].list.size());
                e.alts.swap(keep);
            };
            while (first != last)
            {
                if (int(step) == pl.stop) break;
                if (int(step) == pl.throw_at) throw combiner_error{ e.id };
                keep_if(step, false);
                e.step = int(step);
                int act = pl.actions[step % pl.actions.size()];
                if (act >= 6 && w.scripts && w.budget > 0 && w.stack.size() < 5) { w.step(); e.step = int(step); } // the combiner uses the signals itself
                switch (act % 6)
                {
                case 0: ++first; break; // skipped: must not run
                case 1: deref(w, e, pl, [&] { return *first; }); ++first; break;
                case 2: deref(w, e, pl, [&] { return *first; }); deref(w, e, pl, [&] { return *first; }); ++first; break;
                case 3: deref(w, e, pl, [&] { return *first++; }); break;
                case 4: { It copy(first); if (!(copy == first)) fail("a copied iterator is not equal to the original"); deref(w, e, pl, [&] { return *copy; }); ++copy; ++first; if (copy != first) fail("iterators that were incremented equally differ"); } break;
                default: first++; break;
                }
                ++step;
            }
            if (pl.stop < 0) keep_if(step, true);
            plan_result res; res.token = pl.token;
            return res;
        }
        // Some combiners carry on after a slot has thrown.
        template<typename E, typename P, typename F> static void deref(World<V>& w, E& e, const P& pl, F f)
        {
            if (!pl.catches) { deref(w, e, f); return; }
            auto caught = [&](int token) { if (token != e.last) fail("dereferencing the iterator threw the exception of invocation %d, the last invocation was %d", token, e.last); ++w.events; tr("%*s(caught by the combiner)", int(w.stack.size()), ""); count("exceptions_caught_by_combiner"); };
            int step = e.step;
            try { deref(w, e, f); }
            catch (slot_error& x) { caught(x.token); }
            catch (int t) { caught(t); }
            e.step = step;
        }
        template<typename E, typename F> static void deref(World<V>& w, E& e, F f)
        {
            e.in_deref = true; e.hit = false; e.token = -1;
            // eligibility at this point, before the slot's own script can change it
            std::vector<char> el;
            for (auto& x : e.alts) el.push_back(char(w.eligible(x.list[size_t(e.step)])));
            struct fin { E& e; ~fin() { e.in_deref = false; } } fi{ e };
            int step = e.step;
            auto v = w.lib(f);
            ++w.events;
            if (e.hit)
            {
                if (!token_of<typename variant<V>::R>::is(v, e.token)) fail("dereferencing the iterator at slot %d did not yield the slot's result", step);
            }
            else
            {
                if (v) fail("dereferencing the iterator at step %d yields a value although no slot ran", step);
                auto keep = e.alts; keep.clear();
                for (size_t i = 0; i < e.alts.size(); ++i) if (!el[i]) keep.push_back(e.alts[i]);
                if (keep.empty()) fail("dereferencing the iterator at step %d did not run slot %d", step, e.alts[0].list[size_t(step)]);
                e.alts.swap(keep);
            }
        }
    };

    template<int V> void run_world(const profile& pf, uint64_t seed)
    {
        uint64_t ev;
        track_blocks(true);
        {
            guard_harness g;
            World<V> w(pf, seed);
            note("world %s profile %s seed %llu", variant<V>::name(), pf.name, (unsigned long long)seed);
            mix(V);
            w.run();
            ev = w.events;
        }
        expect_no_blocks("after everything was destroyed");
        track_blocks(false);
        count("judged_events", ev);
        end_case(ev > 0);
    }
    // one translation unit per variant
    void world_int(const profile&, uint64_t);
    void world_void(const profile&, uint64_t);
    void world_string(const profile&, uint64_t);
    void world_plan(const profile&, uint64_t);
    void world_noargs(const profile&, uint64_t);
}

// Concurrent workload over signals: instrumented (-fsanitize=thread or address), executed by conc_sched.cpp or conc_real.cpp.
// Compiled once per VARIANT: results int (0), void (1), std::string with a combiner that collects and two more arguments (2); and once without (main).
#include "conc_prog.hpp"
#include "signals.hpp"

namespace conc { void variant0(void*); void variant1(void*); void variant2(void*); }
#ifdef VARIANT

using namespace conc;
using hist::ev;

namespace
{
#if VARIANT == 0
    using R = int;
    #define PARAMS int v
    #define ARGS v
    using signature = int(int);
    using signal_t = sig::signal<signature>;
    R result(long x) { return int(x); }
    long token(const opt::optional<int>& r) { return r ? *r : -1; }
    opt::optional<int> invoke(signal_t& s, int em) { return s(em); }
#elif VARIANT == 1
    using R = void;
    #define PARAMS int v
    #define ARGS v
    using signature = void(int);
    using signal_t = sig::signal<signature>;
    R result(long) {}
    long token(int) { return -3; }
    int invoke(signal_t& s, int em) { if (s(em)) vf::fail("an emission of a signal without results has a result"); return 0; }
#else
    using R = std::string;
    #define PARAMS int v, std::string text, int& runs
    #define ARGS (check_args(v, text, runs), v)
    using signature = std::string(int, std::string, int&);
    struct collect
    {
        using result_type = std::vector<std::string>;
        result_type v; // each emission has a combiner of its own
        template<typename It> result_type operator()(It a, It b)
        {
            for (It i = a; i != b; i++) if (auto r = *i) v.push_back(*r);
            return v;
        }
    };
    using signal_t = sig::signal<signature, collect>;
    R result(long x) { return "the result of a slot: " + std::to_string(x); }
    void check_args(int v, std::string& text, int& runs)
    {
        if (text != "an argument that lives on the heap " + std::to_string(v)) vf::fail("a slot of emission %d received the argument '%s'", v, text.c_str());
        text.clear();
        ++runs; // belongs to the emitting thread
    }
    long token(const std::vector<std::string>& v) { return v.empty() ? -1 : std::stol(v.back().substr(22)); }
    std::vector<std::string> invoke(signal_t& s, int em)
    {
        int runs = 0;
        std::string text = "an argument that lives on the heap " + std::to_string(em);
        auto v = s(em, text, runs);
        if (size_t(runs) != v.size()) vf::fail("emission %d: %d slots changed the argument, the combiner saw %zu results", em, runs, v.size());
        return v;
    }
#endif
    constexpr uint64_t MAGIC = 0x600DF00D5EED5EEDull;

    // Instrumented object: construction, use and destruction are recorded by uninstrumented code.
    struct Canary
    {
        int id;
        uint64_t magic;
        explicit Canary(int i) : id(i) { mon_new(id, this); }
        Canary(const Canary& o) : id(o.id) { mon_new(id, this); }
        Canary& operator=(const Canary&) = delete;
        ~Canary() { mon_del(id, this); }
    };

    struct Owner // disconnects a slot when the last copy of its callable dies
    {
        int target;
        sig::scoped_connection c;
        Owner(int t, const sig::connection& h) : target(t), c(h) {}
        ~Owner();
    };

    long run_slot(int uid, int v, const Canary& c);

    struct Fn
    {
        int key;
        Canary c;
        std::shared_ptr<Owner> own;
        Fn(int k, int id) : key(k), c(id) {}
        R operator()(PARAMS) { return result(run_slot(c.id, ARGS, c)); }
        friend bool operator==(const Fn& a, const Fn& b) { rt::yield(); return a.key == b.key; }
    };

    struct Obj
    {
        Canary c;
        int uid;
        std::shared_ptr<Owner> own; // disconnects a slot, possibly its own, when the object dies
        Obj(int id, int u) : c(id), uid(u) {}
        R run(PARAMS) { return result(run_slot(uid, ARGS, c)); }
    };

    struct Ctx
    {
        int id = 0;
        std::vector<sig::connection> own;               // handles of slots this thread connected
        std::vector<char> has;
        std::vector<std::unique_ptr<sig::scoped_connection>> scoped;
        std::vector<std::vector<sig::connection_blocker>> blockers;
        std::vector<std::shared_ptr<Obj>> objs;
        explicit Ctx(size_t n) : own(n), has(n), scoped(n), blockers(n), objs(n) {}
    };
    struct World
    {
        std::vector<std::unique_ptr<signal_t>> sigs;
        std::vector<sig::connection> handles;           // of the slots connected at the start; only copied by the threads
        std::vector<std::unique_ptr<Obj>> raw;
        std::vector<std::shared_ptr<Obj>> late;         // objects of tracked slots that threads connect
    };
    World* W = nullptr;
    Ctx* ctx[rt::MAXT] = {};

    // Only touched through uninstrumented helpers below.
    __attribute__((no_sanitize("thread"))) Ctx& me() { return *ctx[rt::self()]; }

    Owner::~Owner()
    {
        ev(hist::DISC_B, target);
        c = sig::scoped_connection();
        ev(hist::DISC_E, target, 0, -1);
    }

    void do_op(const Op& o);

    struct boom { int uid; };

    long run_slot(int uid, int v, const Canary& c)
    {
        int em = hist::current_emission();
        ev(hist::RUN_B, em, uid);
        if (c.magic != MAGIC) ev(hist::OBJ_BAD, uid);
        if (int n = rt::locks_held()) if (n > 0) ev(hist::LOCKED, uid, 0, n);
        if (v != em) vf::fail("slot %d received %d from emission %d", uid, v, em);
        rt::yield();
        const SlotDef& d = current->slots[size_t(uid)];
        if (!d.script.empty() && hist::depth() < 4 && script_once(uid))
            for (auto& o : d.script)
            {
                if (o.k == THROW) { ev(hist::RUN_E, em, uid, 0); throw boom{ uid }; }
                do_op(o);
            }
        rt::yield();
        if (c.magic != MAGIC) ev(hist::OBJ_BAD, uid);
        if (int n = rt::locks_held()) if (n > 0) ev(hist::LOCKED, uid, 0, n);
        ev(hist::RUN_E, em, uid, 1);
        return long(uid) * 100003 + em % 100003;
    }

    sig::connection make_slot(const SlotDef& d)
    {
        signal_t& s = *W->sigs[size_t(d.sig)];
        ev(hist::CONN_B, d.uid, d.sig);
        sig::connection c;
        switch (d.kind)
        {
        case TRACKED:
            c = s.connect(&Obj::run, d.setup ? ctx[0]->objs[size_t(d.uid)] : W->late[size_t(d.uid)]);
            break;
        case RAW: c = s.connect(&Obj::run, W->raw[size_t(d.uid)].get()); break;
        case VIASLOT: { sig::slot<signature> sl(Fn(d.key, d.uid)); c = s.connect(sl); break; }
        case OWNER:
        {
            Fn f(d.key, d.uid);
            f.own = std::make_shared<Owner>(d.owns, W->handles[size_t(d.owns)]);
            c = s.connect(f);
            break;
        }
        default: c = s.connect(Fn(d.key, d.uid)); break;
        }
        ev(hist::CONN_E, d.uid, d.sig);
        return c;
    }

    // A copy of the handle of a slot, or none if this thread has none.
    bool handle(int uid, sig::connection& c)
    {
        if (current->slots[size_t(uid)].setup) { c = W->handles[size_t(uid)]; return true; }
        Ctx& m = me();
        if (!m.has[size_t(uid)]) return false;
        c = m.own[size_t(uid)];
        return true;
    }

    void emit(int s)
    {
        if (hist::depth() >= 6) return;
        int em = hist::begin_emission(s);
        long res = -1;
        try
        {
            res = token(invoke(*W->sigs[size_t(s)], em));
        }
        catch (const boom&) { res = -2; }
        hist::end_emission(em, s, res);
    }

    void do_op(const Op& o)
    {
        Ctx& m = me();
        sig::connection c;
        switch (o.k)
        {
        case CONNECT:
        {
            rt::set_label("connect");
            const SlotDef& d = current->slots[size_t(o.a)];
            m.own[size_t(o.a)] = make_slot(d);
            m.has[size_t(o.a)] = 1;
            break;
        }
        case DISC:
            if (!handle(o.a, c)) break;
            {
                rt::set_label("connection::disconnect");
                ev(hist::DISC_B, o.a);
                bool r = c.disconnect();
                ev(hist::DISC_E, o.a, 0, r);
            }
            break;
        case UNSCOPE:
            if (!m.scoped[size_t(o.a)]) break;
            {
                std::unique_ptr<sig::scoped_connection> sc = std::move(m.scoped[size_t(o.a)]);
                rt::set_label("~scoped_connection");
                ev(hist::DISC_B, o.a);
                sc.reset();
                ev(hist::DISC_E, o.a, 0, -1);
            }
            break;
        case DKEY:
        {
            rt::set_label("disconnect(callable)");
            ev(hist::DKEY_B, o.a, o.b);
            size_t n;
            if (o.b >= 100) n = W->sigs[size_t(o.a)]->disconnect(&Obj::run, W->raw[size_t(o.b - 100)].get());
            else n = W->sigs[size_t(o.a)]->disconnect(Fn(o.b, -1));
            ev(hist::DKEY_E, o.a, o.b, long(n));
            break;
        }
        case BLOCK: if (handle(o.a, c)) { rt::set_label("connection::block"); ev(hist::BLK_B, o.a); c.block(); ev(hist::BLK_E, o.a); } break;
        case UNBLOCK: if (handle(o.a, c)) { rt::set_label("connection::unblock"); ev(hist::UNB_B, o.a); c.unblock(); ev(hist::UNB_E, o.a); } break;
        case BLOCKER_ON:
            if (handle(o.a, c))
            {
                rt::set_label("connection::blocker");
                ev(hist::BKR_B, o.a);
                m.blockers[size_t(o.a)].push_back(c.blocker());
                ev(hist::BKR_E, o.a);
            }
            break;
        case BLOCKER_OFF:
            if (!m.blockers[size_t(o.a)].empty())
            {
                rt::set_label("~connection_blocker");
                ev(hist::BKD_B, o.a);
                m.blockers[size_t(o.a)].pop_back();
                ev(hist::BKD_E, o.a);
            }
            break;
        case EMIT: rt::set_label("emission"); emit(o.a); break;
        case QCONN:
            if (handle(o.a, c)) { rt::set_label("connection::connected"); ev(hist::QC_B, o.a); bool r = c.connected(); ev(hist::QC_E, o.a, 0, r); }
            break;
        case QBLK:
            if (handle(o.a, c)) { rt::set_label("connection::blocked"); ev(hist::QB_B, o.a); bool r = c.blocked(); ev(hist::QB_E, o.a, 0, r); }
            break;
        case RELEASE:
            if (m.objs[size_t(o.a)])
            {
                std::shared_ptr<Obj> sp = std::move(m.objs[size_t(o.a)]);
                rt::set_label("release of a tracked object");
                ev(hist::REL_B, o.a);
                sp.reset();
                ev(hist::REL_E, o.a);
            }
            break;
        default: rt::yield(); break;
        }
        rt::set_label("between operations");
        rt::yield();
    }

    void cleanup()
    {
        Ctx& m = me();
        for (size_t u = 0; u < current->slots.size(); ++u)
        {
            while (!m.blockers[u].empty()) do_op(Op{ BLOCKER_OFF, int(u), 0 });
            do_op(Op{ UNSCOPE, int(u), 0 });
        }
    }

    void thread_main(void* arg)
    {
        const std::vector<Op>& ops = *static_cast<const std::vector<Op>*>(arg);
        for (auto& o : ops) do_op(o);
        if (current->seed % 3) cleanup();
    }

    void main_thread(void* arg)
    {
        const Program& p = *static_cast<const Program*>(arg);
        const size_t n = p.slots.size();
        W = new World;
        for (size_t t = 0; t <= p.threads.size(); ++t) { ctx[t] = new Ctx(n); ctx[t]->id = int(t); }
        for (int i = 0; i < p.signals; ++i) W->sigs.emplace_back(new signal_t);
        W->handles.resize(n); W->raw.resize(n); W->late.resize(n);
        for (auto& d : p.slots)
        {
            size_t u = size_t(d.uid);
            if (d.kind == RAW) W->raw[u].reset(new Obj(-1, d.uid));
            if (d.kind == TRACKED)
            {
                auto sp = std::make_shared<Obj>(d.uid, d.uid);
                if (d.setup) ctx[0]->objs[u] = sp; else W->late[u] = sp;
                for (int t : d.owners) ctx[t]->objs[u] = sp;
            }
            if (!d.setup) continue;
            W->handles[u] = make_slot(d);
            if (d.kind == TRACKED && d.owns >= 0) ctx[0]->objs[u]->own = std::make_shared<Owner>(d.owns, W->handles[size_t(d.owns)]);
            if (d.scoped_by) ctx[1 + u % p.threads.size()]->scoped[u].reset(new sig::scoped_connection(W->handles[u]));
            if (d.start_blocked) { ev(hist::BLK_B, d.uid); W->handles[u].block(); ev(hist::BLK_E, d.uid); }
            if (!d.owners.empty()) ctx[0]->objs[u].reset(); // the threads own it
        }
        for (auto& t : p.threads) rt::spawn(&thread_main, const_cast<std::vector<Op>*>(&t));
        rt::join_all();
        rt::set_label("final checks");
        FinalState* f;
        { rt::monitor_section ms; f = new FinalState; f->connected.resize(n); f->blocked.resize(n); }
        auto state = [&] {
            for (auto& d : p.slots)
            {
                size_t u = size_t(d.uid);
                bool c = false, b = false;
                if (d.setup) { c = W->handles[u].connected(); b = W->handles[u].blocked(); }
                else for (size_t t = 0; t <= p.threads.size(); ++t) if (ctx[t]->has[u]) { c = ctx[t]->own[u].connected(); b = ctx[t]->own[u].blocked(); }
                f->connected[u] = c; f->blocked[u] = b;
            }
        };
        for (int i = 0; i < p.signals; ++i) emit(i);
        for (int i = 0; i < p.signals; ++i) emit(i); // scripts that had not run before may have changed something
        state();
        { rt::monitor_section ms; judge(p, *f); delete f; }
        // everything goes; nothing may remain
        for (auto& s : W->sigs) s.reset();
        for (size_t t = 0; t <= p.threads.size(); ++t) { delete ctx[t]; ctx[t] = nullptr; }
        delete W; W = nullptr;
        rt::check_leaks();
    }
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void conc::CAT(variant, VARIANT)(void* p) { main_thread(p); }

#else
using namespace conc;
int main(int argc, char** argv)
{
    vf::init(argc, argv);
    const long per = rt::controlled() ? 12 : 4; // schedules per program
    Program p;
    long have = -1;
    vf::run_cases("concurrent", vf::opt().cases, [&](long k)
    {
        if (k / per != have) { have = k / per; p = generate(vf::opt().profile, vf::case_seed(have, 5)); }
        size_t ops = 0, emits = 0;
        for (auto& t : p.threads) for (auto& o : t) { ++ops; if (o.k == EMIT) emits += p.slots.size(); }
        const uint64_t length = 30 + 3 * ops + std::min(6 * emits, 200 + 2 * emits); // measured
        current = &p;
        hist::reset();
        reset_scripts();
        uint64_t before = events_judged();
        uint64_t ss = vf::case_seed(k, 77);
        if (vf::opt().verbose) std::fprintf(stderr, "%s", p.text().c_str());
        rt::execute(ss, int((ss >> 7) % rt::STRATEGIES), length, p.variant == 0 ? &variant0 : p.variant == 1 ? &variant1 : &variant2, &p);
        vf::mix(p.hash); vf::mix(rt::schedule_hash());
        if (vf::st().samples.size() < 2) vf::st().trace = { p.text(), "schedule of " + std::to_string(rt::steps()) + " points, " + std::to_string(events_judged() - before) + " judgements", "" };
        vf::end_case(events_judged() > before);
    });
    vf::count("judged_events", events_judged());
    rt::collect_counters();
    vf::summary();
    return 0;
}
#endif

// Recorder and history checker. Not instrumented.
#include "conc_prog.hpp"
#include <algorithm>
#include <atomic>

namespace
{
    struct Event { uint64_t ts; int type, a, b; long c; int thread; };
    struct Log { Event* e = nullptr; size_t n = 0, cap = 0; int em[16]; int depth = 0; int next_em = 0; };
    Log logs[rt::MAXT];
    std::atomic<uint64_t> now{ 1 };
    std::atomic<int> used_script[256];
    uint64_t judged = 0, order = 0;
    const char* names[] = { "connect begins", "connect ends", "disconnect begins", "disconnect ends", "disconnect(callable) begins", "disconnect(callable) ends",
        "block begins", "block ends", "unblock begins", "unblock ends", "blocker begins", "blocker ends", "~blocker begins", "~blocker ends", "emission begins", "emission ends",
        "slot runs", "slot returns", "owner release begins", "owner release ends", "connected() begins", "connected() ends", "blocked() begins", "blocked() ends",
        "object created", "object destroyed", "DEAD OBJECT USED", "LOCK HELD" };

    std::vector<Event> merged()
    {
        std::vector<Event> v;
        for (auto& l : logs) v.insert(v.end(), l.e, l.e + l.n);
        std::sort(v.begin(), v.end(), [](const Event& x, const Event& y) { return x.ts < y.ts; });
        return v;
    }
    void describe(FILE* f)
    {
        rt::monitor_section m;
        if (conc::current) std::fprintf(f, "PROGRAM %s\n", conc::current->text().c_str());
        auto v = merged();
        size_t from = v.size() > 400 ? v.size() - 400 : 0;
        std::fprintf(f, "HISTORY (%zu events)\n", v.size());
        for (size_t i = from; i < v.size(); ++i)
            std::fprintf(f, "  %4llu thread %d: %s %d %d %ld\n", (unsigned long long)v[i].ts, v[i].thread, names[v[i].type], v[i].a, v[i].b, v[i].c);
    }
}

namespace hist
{
    void ev(type t, int a, int b, long c)
    {
        Log& l = logs[rt::self()];
        if (l.n == l.cap) { l.cap = l.cap ? l.cap * 2 : 256; l.e = static_cast<Event*>(std::realloc(l.e, l.cap * sizeof(Event))); }
        l.e[l.n++] = Event{ now.fetch_add(1, std::memory_order_relaxed), t, a, b, c, rt::self() };
    }
    int begin_emission(int sig)
    {
        Log& l = logs[rt::self()];
        int id = rt::self() * 10000 + l.next_em++;
        l.em[l.depth++] = id;
        ev(EM_B, id, sig);
        return id;
    }
    void end_emission(int em, int sig, long result)
    {
        ev(EM_E, em, sig, result);
        --logs[rt::self()].depth;
    }
    int current_emission() { Log& l = logs[rt::self()]; return l.depth ? l.em[l.depth - 1] : -1; }
    uint64_t order_hash() { return order; }
    int depth() { return logs[rt::self()].depth; }
    void reset() { for (auto& l : logs) { l.n = 0; l.depth = 0; l.next_em = 0; } now = 1; vf::st().describe = describe; }
}

namespace conc
{
    const Program* current = nullptr;
    uint64_t events_judged() { return judged; }
    bool script_once(int uid) { return used_script[uid & 255].exchange(1, std::memory_order_relaxed) == 0; }
    void reset_scripts() { for (auto& u : used_script) u.store(0, std::memory_order_relaxed); }

    namespace
    {
        constexpr uint64_t INF = ~0ull;
        struct Iv { uint64_t b, e; long res; int thread; };
        struct Hist
        {
            uint64_t cb = INF, ce = INF;
            std::vector<Iv> disc, blk, unb, rel, bkr; // bkr: b = constructor end, e = destructor begin (INF: never)
            std::vector<Iv> bkr_full; // b = constructor begin, e = destructor end
            std::vector<Iv> qc, qb;
            uint64_t died = INF;
        };
        struct Run { int slot; uint64_t b, e; long normal; };
        struct Em { int id, sig, thread; uint64_t b = 0, e = INF; long res = -3; std::vector<Run> runs; };

        bool fn_like(const SlotDef& d) { return d.kind == FN || d.kind == OWNER || d.kind == VIASLOT; }
    }

    void judge(const Program& P, const FinalState& F)
    {
        using vf::fail;
        using namespace hist;
        const size_t N = P.slots.size();
        std::vector<Hist> H(N);
        std::map<int, Em> ems;
        struct DK { uint64_t b, e; int sig, key; long count; };
        std::vector<DK> dks;
        std::map<std::pair<int, int>, std::vector<size_t>> open_dk;
        std::vector<Event> v = merged();
        std::map<std::tuple<int, int, int>, std::vector<size_t>> open; // (thread, type, a) -> stack of indices
        std::map<long, int> live_at; std::vector<int> live(N, 0);

        auto push = [&](int thread, int type, int a, size_t idx) { open[std::make_tuple(thread, type, a)].push_back(idx); };
        auto pop = [&](int thread, int type, int a) { auto& s = open[std::make_tuple(thread, type, a)]; size_t i = s.back(); s.pop_back(); return i; };
        order = 0;
        for (size_t i = 0; i < v.size(); ++i)
        {
            const Event& e = v[i];
            ++judged;
            order = (order ^ (uint64_t(e.thread) << 16 ^ uint64_t(e.type) << 8 ^ uint64_t(e.a & 255))) * 0x9E3779B97F4A7C15ull; order ^= order >> 29;
            switch (e.type)
            {
            case CONN_B: H[e.a].cb = e.ts; break;
            case CONN_E: H[e.a].ce = e.ts; break;
            case DISC_B: H[e.a].disc.push_back(Iv{ e.ts, INF, -1, e.thread }); push(e.thread, DISC_B, e.a, H[e.a].disc.size() - 1); break;
            case DISC_E: { size_t k = pop(e.thread, DISC_B, e.a); H[e.a].disc[k].e = e.ts; H[e.a].disc[k].res = e.c; break; }
            case DKEY_B: dks.push_back(DK{ e.ts, INF, e.a, e.b, -1 }); push(e.thread, DKEY_B, e.a * 1000 + e.b, dks.size() - 1); break;
            case DKEY_E: { size_t k = pop(e.thread, DKEY_B, e.a * 1000 + e.b); dks[k].e = e.ts; dks[k].count = e.c; break; }
            case BLK_B: H[e.a].blk.push_back(Iv{ e.ts, INF, 0, e.thread }); push(e.thread, BLK_B, e.a, H[e.a].blk.size() - 1); break;
            case BLK_E: H[e.a].blk[pop(e.thread, BLK_B, e.a)].e = e.ts; break;
            case UNB_B: H[e.a].unb.push_back(Iv{ e.ts, INF, 0, e.thread }); push(e.thread, UNB_B, e.a, H[e.a].unb.size() - 1); break;
            case UNB_E: H[e.a].unb[pop(e.thread, UNB_B, e.a)].e = e.ts; break;
            case BKR_B: H[e.a].bkr.push_back(Iv{ INF, INF, 0, e.thread }); H[e.a].bkr_full.push_back(Iv{ e.ts, INF, 0, e.thread }); push(e.thread, BKR_B, e.a, H[e.a].bkr.size() - 1); break;
            case BKR_E: { size_t k = pop(e.thread, BKR_B, e.a); H[e.a].bkr[k].b = e.ts; push(e.thread, BKR_E, e.a, k); break; }
            case BKD_B: { size_t k = pop(e.thread, BKR_E, e.a); H[e.a].bkr[k].e = e.ts; push(e.thread, BKD_B, e.a, k); break; }
            case BKD_E: { size_t k = pop(e.thread, BKD_B, e.a); H[e.a].bkr_full[k].e = e.ts; break; }
            case EM_B: { Em m; m.id = e.a; m.sig = e.b; m.thread = e.thread; m.b = e.ts; ems[e.a] = m; break; }
            case EM_E: { Em& m = ems[e.a]; m.e = e.ts; m.res = e.c; break; }
            case RUN_B: ems[e.a].runs.push_back(Run{ e.b, e.ts, INF, 0 }); break;
            case RUN_E: { auto& r = ems[e.a].runs; if (r.empty() || r.back().slot != e.b) fail("slots of one emission overlap"); r.back().e = e.ts; r.back().normal = e.c; break; }
            case REL_B: H[e.a].rel.push_back(Iv{ e.ts, INF, 0, e.thread }); push(e.thread, REL_B, e.a, H[e.a].rel.size() - 1); break;
            case REL_E: H[e.a].rel[pop(e.thread, REL_B, e.a)].e = e.ts; break;
            case QC_B: H[e.a].qc.push_back(Iv{ e.ts, INF, 0, e.thread }); push(e.thread, QC_B, e.a, H[e.a].qc.size() - 1); break;
            case QC_E: { Iv& q = H[e.a].qc[pop(e.thread, QC_B, e.a)]; q.e = e.ts; q.res = e.c; break; }
            case QB_B: H[e.a].qb.push_back(Iv{ e.ts, INF, 0, e.thread }); push(e.thread, QB_B, e.a, H[e.a].qb.size() - 1); break;
            case QB_E: { Iv& q = H[e.a].qb[pop(e.thread, QB_B, e.a)]; q.e = e.ts; q.res = e.c; break; }
            case OBJ_NEW:
                if (e.a >= 0) { if (live_at.count(e.c)) fail("a callable is constructed over a living one (slot %d)", e.a); live_at[e.c] = e.a; ++live[e.a]; }
                break;
            case OBJ_DEL:
                if (e.a >= 0)
                {
                    auto it = live_at.find(e.c);
                    if (it == live_at.end() || it->second != e.a) fail("a callable or object of slot %d is destroyed twice", e.a);
                    live_at.erase(it);
                    if (--live[e.a] == 0) H[e.a].died = e.ts;
                }
                break;
            case OBJ_BAD: fail("slot %d uses a callable or object that is not alive", e.a);
            case LOCKED: fail("thread %d holds %ld lock(s) of the library while %s slot %d", e.thread, e.c, e.b ? "destroying the callable of" : "running", e.a);
            default: break;
            }
        }
        // object destroyed: for tracked slots `died` is the destruction of the object
        auto matches = [&](const DK& k, size_t s) { const SlotDef& d = P.slots[s]; return d.sig == k.sig && d.kind != TRACKED && d.key == k.key; };

        auto tracked_held = [&](size_t s, uint64_t until) // an owner outside the library certainly exists at `until`
        {
            if (P.slots[s].kind != TRACKED) return true;
            size_t begun = 0; for (auto& r : H[s].rel) if (r.b <= until) ++begun;
            return begun < std::max<size_t>(1, P.slots[s].owners.size());
        };
        auto attempt_before = [&](size_t s, uint64_t t) // could anything have disconnected s before t
        {
            for (auto& d : H[s].disc) if (d.b < t) return true;
            for (auto& k : dks) if (k.b < t && matches(k, s)) return true;
            return false;
        };
        auto surely_gone = [&](size_t s, uint64_t t) // s is certainly disconnected at t
        {
            for (auto& d : H[s].disc) if (d.e < t) return true;
            for (auto& k : dks) if (k.e < t && matches(k, s) && H[s].ce < k.b) return true;
            return false;
        };
        auto never_blocked = [&](size_t s, uint64_t from, uint64_t until) // certainly unblocked in [from, until]
        {
            for (auto& b : H[s].bkr_full) if (b.b < until && b.e > from) return false;
            uint64_t last = 0;
            for (auto& b : H[s].blk) { if (b.b > until) continue; if (b.e > from) return false; last = std::max(last, b.e); }
            if (!last) return true;
            for (auto& u : H[s].unb) if (u.b > last && u.e < from) return true;
            return false;
        };
        auto surely_blocked = [&](size_t s, uint64_t from, uint64_t until) // certainly blocked during [from, until]
        {
            for (auto& b : H[s].bkr) if (b.b < from && b.e > until) return true;
            for (auto& b : H[s].blk)
            {
                if (b.e > from) continue;
                bool undone = false;
                for (auto& u : H[s].unb) if (u.e > b.b && u.b < until) undone = true;
                if (!undone) return true;
            }
            return false;
        };

        for (auto& it : ems)
        {
            Em& e = it.second;
            std::map<int, size_t> pos;
            uint64_t p = e.b;
            for (size_t i = 0; i < e.runs.size(); ++i)
            {
                const Run& r = e.runs[i];
                const size_t s = size_t(r.slot);
                if (P.slots[s].sig != e.sig) fail("emission %d of signal %d ran slot %d of signal %d", e.id, e.sig, r.slot, P.slots[s].sig);
                if (!pos.emplace(r.slot, i).second) fail("emission %d ran slot %d more than once", e.id, r.slot);
                if (H[s].cb == INF || H[s].cb > e.runs[0].b) fail("emission %d ran slot %d, which was connected after the emission had begun to run slots", e.id, r.slot);
                if (surely_gone(s, p)) fail("emission %d ran slot %d after it had been disconnected", e.id, r.slot);
                if (surely_blocked(s, p, r.b)) fail("emission %d ran slot %d although it was blocked", e.id, r.slot);
                if (P.slots[s].kind == TRACKED && H[s].died < r.b) fail("emission %d ran slot %d on a destroyed object", e.id, r.slot);
                if (P.slots[s].kind == TRACKED && H[s].died < r.e) fail("the object of slot %d was destroyed while emission %d was running the slot", r.slot, e.id);
                p = r.e;
                ++judged;
            }
            // result
            if (e.res != -2 && e.res != -3) // -3: no results
            {
                long want = e.runs.empty() ? -1 : long(e.runs.back().slot) * 100003 + (e.id % 100003);
                if (e.res != want) fail("emission %d returned %ld, the last slot that ran returned %ld", e.id, e.res, want);
            }
            // slots that have to run
            if (e.res != -2 && e.e != INF)
                for (size_t s = 0; s < N; ++s)
                {
                    if (P.slots[s].sig != e.sig || H[s].ce == INF || pos.count(int(s))) continue;
                    if (attempt_before(s, e.e) || !tracked_held(s, e.e)) continue;
                    ++judged;
                    if (H[s].ce < e.b && never_blocked(s, e.b, e.e)) fail("emission %d did not run slot %d, which was connected before and not disturbed", e.id, int(s));
                    if (!never_blocked(s, 0, e.e)) continue;
                    for (auto& r : e.runs)
                        if (H[s].ce < H[size_t(r.slot)].cb) fail("emission %d ran slot %d but not slot %d, which had been connected earlier and was not disturbed", e.id, r.slot, int(s));
                }
            // order
            bool removal = false;
            for (size_t s = 0; s < N; ++s) if (P.slots[s].sig == e.sig && attempt_before(s, e.e)) removal = true;
            if (!removal)
                for (size_t i = 0; i < e.runs.size(); ++i)
                    for (size_t j = i + 1; j < e.runs.size(); ++j)
                        if (H[size_t(e.runs[j].slot)].ce < H[size_t(e.runs[i].slot)].cb)
                            fail("emission %d ran slot %d before slot %d, which had been connected earlier", e.id, e.runs[i].slot, e.runs[j].slot);
        }

        // queries
        for (size_t s = 0; s < N; ++s)
        {
            const bool trk = P.slots[s].kind == TRACKED;
            for (auto& q : H[s].qc)
            {
                ++judged;
                if (q.res && surely_gone(s, q.b)) fail("connected() of slot %d was true after the slot had been disconnected", int(s));
                if (q.res && trk && H[s].died < q.b) fail("connected() of slot %d was true after its object had been destroyed", int(s));
                if (!q.res && !attempt_before(s, q.e) && tracked_held(s, q.e)) fail("connected() of slot %d was false although nobody disconnected it", int(s));
            }
            for (auto& q : H[s].qb)
            {
                ++judged;
                if (q.res && never_blocked(s, q.b, q.e)) fail("blocked() of slot %d was true although it was not blocked", int(s));
                if (!q.res && surely_blocked(s, q.b, q.e) && !attempt_before(s, q.e)) fail("blocked() of slot %d was false although it was blocked", int(s));
            }
            // attempts through handles
            int success = 0;
            for (size_t i = 0; i < H[s].disc.size(); ++i)
            {
                const Iv& d = H[s].disc[i];
                if (d.res == 1) ++success;
                if (d.res == 0)
                {
                    bool other = trk && !tracked_held(s, d.e);
                    for (size_t j = 0; j < H[s].disc.size(); ++j) if (j != i && H[s].disc[j].b < d.e && H[s].disc[j].res != 0) other = true;
                    for (auto& k : dks) if (k.b < d.e && matches(k, s)) other = true;
                    if (!other) fail("disconnect() of slot %d returned false although nobody else disconnected it", int(s));
                }
                if (d.res == 1)
                    for (size_t j = 0; j < H[s].disc.size(); ++j) if (j != i && H[s].disc[j].e < d.b && !trk) fail("disconnect() of slot %d succeeded after it had already been disconnected", int(s));
            }
            if (success > 1) fail("slot %d was disconnected successfully %d times", int(s), success);
            // end state
            if (H[s].ce != INF)
            {
                ++judged;
                bool gone = surely_gone(s, INF), may = attempt_before(s, INF);
                bool dead_object = trk && H[s].died != INF;
                if (F.connected[s] && gone) fail("slot %d is connected at the end although it was disconnected", int(s));
                if (F.connected[s] && dead_object) fail("slot %d is connected at the end although its object was destroyed", int(s));
                if (!F.connected[s] && !may && !dead_object) fail("slot %d is not connected at the end although nobody disconnected it", int(s));
                if (!trk)
                {
                    if (!F.connected[s] && live[s]) fail("slot %d was disconnected but its callable is still alive", int(s));
                    if (F.connected[s] && !live[s] && P.slots[s].kind != RAW) fail("slot %d is connected but its callable has been destroyed", int(s));
                }
                if (F.connected[s] && F.blocked[s] && never_blocked(s, INF - 1, INF - 1)) fail("slot %d is blocked at the end although everything that blocked it is gone", int(s));
                if (F.connected[s] && !F.blocked[s] && surely_blocked(s, INF - 2, INF - 2)) fail("slot %d is not blocked at the end although it was blocked", int(s));
            }
            // lifetime of tracked objects
            if (trk && !H[s].rel.empty() && H[s].rel.size() == P.slots[s].owners.size())
            {
                if (H[s].died == INF) fail("the object of slot %d is still alive after its last owner is gone", int(s));
                uint64_t lb = INF, le = 0; for (auto& r : H[s].rel) { lb = std::min(lb, r.b); le = std::max(le, r.e); }
                bool overlap = false;
                for (auto& it : ems) if (it.second.sig == P.slots[s].sig && it.second.e > lb && it.second.b < le) overlap = true;
                if (!overlap && H[s].died > le) fail("the library prolonged the life of the object of slot %d", int(s));
            }
            else if (trk && H[s].died != INF && H[s].rel.size() < std::max<size_t>(1, P.slots[s].owners.size())) fail("the object of slot %d was destroyed while it had an owner", int(s));
        }

        // disconnecting by callable
        for (auto& k : dks)
        {
            long lo = 0, hi = 0;
            for (size_t s = 0; s < N; ++s)
            {
                if (!matches(k, s)) continue;
                if (H[s].cb < k.e && !(false))
                {
                    bool before = false;
                    for (auto& d : H[s].disc) if (d.e < k.b) before = true;
                    for (auto& o : dks) if (&o != &k && o.e < k.b && matches(o, s) && H[s].ce < o.b) before = true;
                    if (!before) ++hi;
                }
                if (H[s].ce < k.b)
                {
                    bool other = false;
                    for (auto& d : H[s].disc) if (d.b < k.e) other = true;
                    for (auto& o : dks) if (&o != &k && o.b < k.e && matches(o, s)) other = true;
                    if (!other) ++lo;
                }
            }
            ++judged;
            if (k.count < lo || k.count > hi) fail("disconnecting callable %d from signal %d reported %ld slots, between %ld and %ld could be meant", k.key, k.sig, k.count, lo, hi);
        }
        // conservation: every disconnected slot was reported exactly once
        std::map<std::pair<int, int>, std::vector<size_t>> groups;
        for (size_t s = 0; s < N; ++s) if (P.slots[s].kind != TRACKED && H[s].ce != INF) groups[{ P.slots[s].sig, P.slots[s].key }].push_back(s);
        for (auto& g : groups)
        {
            long reported = 0, unknown = 0, gone = 0;
            for (auto& k : dks) if (k.sig == g.first.first && k.key == g.first.second) reported += k.count;
            for (size_t s : g.second)
            {
                bool u = false;
                for (auto& d : H[s].disc) { if (d.res == 1) ++reported; if (d.res < 0) u = true; }
                if (u) ++unknown;
                if (!F.connected[s]) ++gone;
            }
            ++judged;
            if (gone < reported || gone > reported + unknown)
                fail("%ld slots with callable %d of signal %d were disconnected, the disconnecting calls reported %ld%s", gone, g.first.second, g.first.first, reported, unknown ? " (and scopes)" : "");
        }
    }
}

namespace conc
{
    constexpr uint64_t MAGIC = 0x600DF00D5EED5EEDull;
    struct Layout { int id; uint64_t magic; };
    void mon_new(int id, const void* p)
    {
        const_cast<Layout*>(static_cast<const Layout*>(p))->magic = MAGIC;
        hist::ev(hist::OBJ_NEW, id, 0, long(p));
    }
    void mon_del(int id, const void* p)
    {
        Layout* l = const_cast<Layout*>(static_cast<const Layout*>(p));
        if (l->magic != MAGIC) hist::ev(hist::OBJ_BAD, id);
        l->magic = 0xDEAD;
        if (id >= 0) if (int n = rt::locks_held()) if (n > 0) hist::ev(hist::LOCKED, id, 1, n);
        hist::ev(hist::OBJ_DEL, id, 0, long(p));
        rt::yield();
    }
}

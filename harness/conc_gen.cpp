// Generator of concurrent programs. Not instrumented.
#include "conc_prog.hpp"

namespace conc
{
    namespace
    {
        const char* opn[] = { "connect", "disconnect", "end-scope", "disconnect-callable", "block", "unblock", "blocker", "~blocker", "emit", "connected?", "blocked?", "release", "yield", "throw" };
        const char* kn[] = { "functor", "owner", "tracked", "raw-object", "via-slot" };
        std::string show(const Op& o)
        {
            std::string s = opn[o.k];
            if (o.k == DKEY) return s + "(s" + std::to_string(o.a) + ",key " + std::to_string(o.b) + ")";
            if (o.k == EMIT) return s + "(s" + std::to_string(o.a) + ")";
            if (o.k == YIELD || o.k == THROW) return s;
            return s + "(" + std::to_string(o.a) + ")";
        }
        struct Weights { int w[N_OPS]; int own, trk, raw, via; int script; int threads_max, slots_max, ops_max, signals_max; int samekey; };
        Weights base_weights(const std::string& p)
        {
            //            conn disc unsc dkey blk unb bkr bko emit qc qb rel yield throw
            Weights d{ {   8,   8,   4,   5,   3,  3,  3,  3,  14,  3, 2,  3,  0,   1 }, 10, 15, 10, 15, 30, 4, 6, 5, 2, 40 };
            if (p == "C15") return d;
            if (p == "C14") { return d; }
            if (p == "C02") { d.w[DISC] = d.w[DKEY] = d.w[UNSCOPE] = 0; d.w[CONNECT] = 16; d.own = 0; return d; }
            if (p == "C16") { d = Weights{ { 6, 8, 5, 6, 1, 1, 1, 1, 16, 1, 0, 3, 0, 1 }, 45, 15, 5, 10, 65, 4, 6, 4, 3, 50 }; return d; }
            if (p == "C17") { d = Weights{ { 1, 2, 1, 1, 1, 1, 1, 1, 20, 4, 0, 14, 0, 1 }, 5, 70, 0, 0, 20, 4, 4, 5, 2, 20 }; return d; }
            if (p == "C23") { d = Weights{ { 5, 16, 6, 10, 0, 0, 0, 0, 6, 3, 0, 1, 0, 0 }, 10, 8, 12, 15, 20, 4, 6, 5, 2, 60 }; return d; }
            if (p == "C08") { d = Weights{ { 2, 2, 1, 1, 9, 9, 9, 9, 16, 1, 5, 1, 0, 0 }, 0, 10, 5, 10, 25, 4, 4, 6, 2, 30 }; return d; }
            if (p == "C05") { d = Weights{ { 5, 12, 4, 4, 1, 1, 1, 1, 8, 12, 1, 1, 0, 0 }, 10, 10, 10, 10, 25, 4, 5, 5, 2, 40 }; return d; }
            if (p == "C10") { d = Weights{ { 8, 8, 3, 5, 3, 2, 1, 1, 14, 2, 1, 2, 0, 1 }, 15, 15, 10, 15, 85, 3, 6, 3, 2, 40 }; return d; }
            if (p == "C11") { d = Weights{ { 8, 10, 6, 8, 0, 0, 0, 0, 14, 1, 0, 3, 0, 1 }, 30, 15, 5, 15, 50, 4, 6, 4, 2, 50 }; return d; }
            if (p == "C07") { d = Weights{ { 4, 4, 16, 3, 0, 0, 0, 0, 10, 8, 0, 1, 0, 0 }, 25, 10, 10, 10, 30, 4, 6, 5, 2, 40 }; return d; }
            return d;
        }
        Weights weights(std::string p)
        {
            bool big = !p.empty() && p.back() == 'L'; // long programs
            if (big) p.pop_back();
            Weights w = base_weights(p);
            if (big) { w.ops_max = 30; w.slots_max = 8; }
            return w;
        }
    }

    std::string Program::text() const
    {
        std::string s = std::to_string(signals) + " signal(s) with " + (variant == 0 ? "int" : variant == 1 ? "no" : "string") + " results\n";
        for (auto& d : slots)
        {
            s += "  slot " + std::to_string(d.uid) + ": " + kn[d.kind] + " on s" + std::to_string(d.sig) + " key " + std::to_string(d.key) + (d.setup ? "" : " (connected by a thread)");
            if (d.scoped_by) s += " scoped";
            if (d.start_blocked) s += " blocked";
            if (d.owns >= 0) s += " disconnects " + std::to_string(d.owns) + " when destroyed";
            if (!d.owners.empty()) { s += " owned by"; for (int o : d.owners) s += " t" + std::to_string(o); }
            if (!d.script.empty()) { s += " does:"; for (auto& o : d.script) s += " " + show(o); }
            s += "\n";
        }
        for (size_t t = 0; t < threads.size(); ++t)
        {
            s += "  thread " + std::to_string(t + 1) + ":";
            for (auto& o : threads[t]) s += " " + show(o);
            s += "\n";
        }
        return s;
    }

    Program generate(const std::string& profile, uint64_t seed)
    {
        vf::rng r(seed);
        Weights W = weights(profile);
        Program p;
        p.seed = seed;
        p.signals = 1 + int(r.below(uint32_t(W.signals_max)));
        { static const int v[] = { 0, 0, 0, 0, 0, 1, 1, 1, 1, 2 }; p.variant = v[vf::rng(seed ^ 0x5bd1e995).below(10)]; }
        int nthreads = 2 + int(r.below(uint32_t(W.threads_max - 1)));
        int nsetup = 1 + int(r.below(uint32_t(W.slots_max)));
        int nkeys = r.chance(uint32_t(W.samekey), 100) ? 1 + int(r.below(2)) : 6;
        auto new_slot = [&](bool setup)
        {
            SlotDef d;
            d.uid = int(p.slots.size()); d.sig = int(r.below(uint32_t(p.signals))); d.setup = setup; d.key = int(r.below(uint32_t(nkeys)));
            int x = int(r.below(100));
            if (x < W.own && setup && d.uid > 0) { d.kind = OWNER; d.owns = int(r.below(uint32_t(d.uid))); }
            else if ((x -= W.own) < W.trk) { d.kind = TRACKED; }
            else if ((x -= W.trk) < W.raw) { d.kind = RAW; d.key = 100 + d.uid; }
            else if ((x -= W.raw) < W.via) d.kind = VIASLOT;
            if (d.kind == TRACKED)
            {
                d.key = 500;
                int n = 1 + int(r.below(2));
                for (int i = 0; i < n; ++i) { int t = 1 + int(r.below(uint32_t(nthreads))); bool dup = false; for (int o : d.owners) if (o == t) dup = true; if (!dup) d.owners.push_back(t); }
                if (!setup || r.chance(1, 5)) d.owners.clear();
                if (setup && r.chance(1, 4)) d.owns = int(r.below(uint32_t(d.uid) + 1)); // often itself: objects hold the scoped connections of their own slots
            }
            p.slots.push_back(d);
            return d.uid;
        };
        for (int i = 0; i < nsetup; ++i)
        {
            int u = new_slot(true);
            p.slots[size_t(u)].scoped_by = W.w[UNSCOPE] && r.chance(1, 4);
            p.slots[size_t(u)].start_blocked = W.w[BLOCK] && r.chance(1, 10);
        }
        auto gen_op = [&](bool script) -> Op
        {
            int total = 0; for (int k = 0; k < N_OPS; ++k) if (script || k != THROW) total += W.w[k];
            int x = int(r.below(uint32_t(total))); int k = 0;
            for (; k < N_OPS; ++k) { if (!script && k == THROW) continue; if (x < W.w[k]) break; x -= W.w[k]; }
            Op o{ OpKind(k), 0, 0 };
            auto any = [&]() { return int(r.below(uint32_t(nsetup))); };
            switch (o.k)
            {
            case CONNECT: if (p.slots.size() >= 24) { o.k = EMIT; o.a = int(r.below(uint32_t(p.signals))); } else o.a = new_slot(false); break;
            case DKEY:
                o.a = int(r.below(uint32_t(p.signals))); o.b = int(r.below(uint32_t(nkeys)));
                if (r.chance(1, 3)) { const SlotDef& d = p.slots[size_t(any())]; if (d.kind != TRACKED) { o.a = d.sig; o.b = d.key; } }
                break;
            case EMIT: o.a = int(r.below(uint32_t(p.signals))); break;
            case YIELD: case THROW: break;
            case DISC: case QCONN: o.a = r.chance(1, 4) ? int(r.below(uint32_t(p.slots.size()))) : any(); break;
            default: o.a = any(); break;
            }
            return o;
        };
        p.threads.resize(size_t(nthreads));
        for (auto& t : p.threads)
        {
            int n = 1 + int(r.below(uint32_t(W.ops_max)));
            for (int i = 0; i < n; ++i) t.push_back(gen_op(false));
        }
        for (size_t i = 0; i < p.slots.size() && i < 14; ++i) // new slots made by scripts get scripts, too
            if (r.chance(uint32_t(W.script), 100))
            {
                int n = 1 + int(r.below(3));
                for (int k = 0; k < n; ++k) { Op o = gen_op(true); p.slots[i].script.push_back(o); }
                if (r.chance(1, 5)) p.slots[i].script.push_back(Op{ DISC, int(i), 0 }); // disconnects itself
            }
        // a tracked slot that is connected by a thread gets its object from the main thread
        uint64_t h = 1469598103934665603ull;
        for (char c : p.text()) { h ^= uint8_t(c); h *= 1099511628211ull; }
        p.hash = h;
        return p;
    }
}

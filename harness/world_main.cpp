#include "world.hpp"
using namespace vf;
static std::map<std::string, profile> profiles()
{
    std::map<std::string, profile> m;
    auto add = [&](const std::string& n, profile p) { p.name = m.emplace(n, profile()).first->first.c_str(); m[n] = p; };
    profile p;
    p = profile(); p.sig_move = 0; add("C01", p);
    p = profile(); add("C03", p);
    p = profile(); p.erase = 2; p.connect = 14; p.disconnect = 8; p.script = 15; p.keys = 40; p.nsignals = 2; p.slot_obj = 0; p.kinds = 0; add("C02", p);
    p = profile(); p.script = 20; p.throws = 2; p.block = 5; add("C04", p);
    p = profile(); p.handle_move = 8; p.disconnect = 10; p.query = 6; p.keys = 1; p.nsignals = 3; add("C05", p);
    p = profile(); p.erase = 14; p.kinds = 2; p.keys = 3; p.connect = 14; p.script = 15; p.slot_obj = 3; add("C06", p);
    p = profile(); p.scoped = 16; p.connect_scoped = 8; p.disconnect = 3; p.script = 20; p.nsignals = 2; add("C07", p);
    p = profile(); p.blocker = 12; p.block = 8; p.nsignals = 2; p.script = 25; p.handle_move = 1; add("C08", p);
    p = profile(); p.kinds = 1; p.drop_object = 8; p.script = 40; add("C09", p);
    p = profile(); p.script = 80; p.self_bias = 70; p.block = 3; p.min_ops = 6; p.max_ops = 25; p.throws = 1; add("C10", p);
    p = profile(); p.kinds = 3; p.script = 50; p.self_bias = 60; p.throws = 2; p.sig_destroy = 1; p.erase = 5; add("C11", p);
    p = profile(); p.sig_move = 6; p.sig_destroy = 4; p.script = 45; p.kinds = 0; p.min_ops = 8; p.max_ops = 40; add("C12", p);
    p = profile(); p.throws = 12; p.faults = 50; p.script = 25; p.sig_move = 0; add("C13", p);
    p = profile(); p.slot_obj = 14; p.erase = 4; p.script = 20; add("C21", p);
    p = profile(); p.kinds = 3; p.script = 50; p.self_bias = 50; p.sig_move = 4; p.sig_destroy = 2; p.erase = 6; p.scoped = 6; p.connect_scoped = 4; add("C16", p);
    // the same with lists of more than a hundred slots
    for (auto x : std::map<std::string, profile>(m)) { x.second.initial = 130; x.second.script = std::max(1, x.second.script / 10); x.second.min_ops = 40; x.second.max_ops = 120; if (x.second.keys < 20) x.second.keys *= 4; add(x.first + "W", x.second); }
    // large lists
    p = profile(); p.kinds = 4; p.initial = 300; p.keys = 100000; p.nsignals = 1; p.script = 1; p.min_ops = 100; p.max_ops = 300; p.connect = 3; p.emit = 2; p.disconnect = 20; p.scoped = 0; p.connect_scoped = 0; add("big", p);
    p.initial = 70000; p.script = 0; p.erase = 1; p.emit = 1; p.min_ops = 20; p.max_ops = 30; add("huge", p);
    return m;
}
int main(int argc, char** argv)
{
    init(argc, argv);
    auto ps = profiles();
    if (!ps.count(vf::opt().profile)) { std::fprintf(stderr, "no profile\n"); return 2; }
    profile p = ps[vf::opt().profile];
    forbid_locks() = vf::opt().profile.compare(0, 3, "C16") == 0;
    bool plan_only = vf::opt().profile.compare(0, 3, "C04") == 0;
    run_cases("world", vf::opt().cases, [&](long k) {
        uint64_t s = case_seed(k);
        profile q = p;
        // vary the shape of the programs
        rng v(s ^ 0xabcdef);
        switch (v.below(8))
        {
        case 0: q.max_ops = q.min_ops + 3; break;                                 // short
        case 1: q.script = 0; break;                                              // not re-entrant
        case 2: q.nsignals = 1; q.keys = 1; break;                                // everything equal
        case 3: if (q.kinds == 0) q.kinds = 4; q.keys = 50; break;                // all different
        case 4: q.initial += 5; break;
        default: break;
        }
        switch (plan_only ? (k % 2 ? 3 : int(v.below(3))) : int(k % 5))
        {
        case 0: world_int(q, s); break;
        case 1: world_void(q, s); break;
        case 2: world_string(q, s); break;
        case 3: world_plan(q, s); break;
        default: world_noargs(q, s); break;
        }
    });
    summary();
    return 0;
}

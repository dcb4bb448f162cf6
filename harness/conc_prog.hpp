// Concurrent programs: what the threads do, generated from a seed. Plain data, read-only while it runs.
#pragma once
#include "conc_rt.hpp"
#include "vf.hpp"

namespace conc
{
    enum OpKind : int { CONNECT, DISC, UNSCOPE, DKEY, BLOCK, UNBLOCK, BLOCKER_ON, BLOCKER_OFF, EMIT, QCONN, QBLK, RELEASE, YIELD, THROW, N_OPS };
    struct Op { OpKind k; int a; int b; }; // a: slot / signal / object, b: key
    enum SlotKind : int { FN, OWNER, TRACKED, RAW, VIASLOT, N_KINDS };

    struct SlotDef
    {
        int uid = -1, sig = 0, key = 0;
        SlotKind kind = FN;
        bool setup = true;      // connected before the threads start
        bool scoped_by = false; // a thread owns a scoped connection to it
        int owns = -1;          // OWNER, TRACKED: slot that is disconnected when the callable or object dies
        std::vector<Op> script; // what the slot does on its first run
        std::vector<int> owners; // TRACKED: threads that hold a shared pointer (-1: nobody but the main thread)
        bool start_blocked = false;
    };
    struct Program
    {
        uint64_t seed = 0;
        int signals = 1;
        int variant = 0;            // results: 0 int, 1 none, 2 string and a combiner that collects
        std::vector<SlotDef> slots; // index = uid
        std::vector<std::vector<Op>> threads; // threads[0] is thread 1
        std::string text() const;
        uint64_t hash = 0;
    };
    Program generate(const std::string& profile, uint64_t seed);
    extern const Program* current;
    // After the execution: judges the recorded history against the program. final_connected/blocked: state of every slot at the end.
    struct FinalState { std::vector<int> connected, blocked; };
    void judge(const Program& p, const FinalState& f);
    uint64_t events_judged();
    bool script_once(int uid); // true for the first caller
    void reset_scripts();
    void mon_new(int id, const void* p);
    void mon_del(int id, const void* p);
}

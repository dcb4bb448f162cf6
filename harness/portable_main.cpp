// C25: the driver of the modules of portable.hpp and the model that judges them.
#include "portable.hpp"
#include <algorithm>

namespace pt
{
    const module* part0(); const module* part1(); const module* part2();

    namespace
    {
        using namespace vf;
        const module* mods[3];
        uint64_t judged;

        struct entry
        {
            int uid, label, key; // key: -1 cannot be compared, otherwise equal callables have equal keys
            bool blocked; int blockers; int object; // -1: not tracked
            bool shot;
        };
        struct handle { sig::connection c; int uid; };
        struct scope { sig::scoped_connection c; int uid; };
        struct block_scope { sig::connection_blocker b; int uid; };

        struct world
        {
            rng r;
            std::vector<std::unique_ptr<bound>> objects; std::vector<std::unique_ptr<object>> raws;
            std::vector<std::unique_ptr<S, void (*)(S*)>> signals; std::vector<std::vector<entry>> model;
            std::vector<handle> handles; std::vector<std::unique_ptr<scope>> scopes; std::vector<std::unique_ptr<block_scope>> blockers;
            struct value { slot s; bool empty; int label, key; };
            std::vector<value> slots;
            int next_uid;
            // the emission that is running
            int emitting; std::vector<int> due; size_t at; int arg; std::string text_arg; int last; bool ran;
            world(uint64_t seed) : r(seed), next_uid(0), emitting(-1), at(0), arg(0), last(0), ran(false) {}

            entry* find(int uid, size_t* sig = nullptr)
            {
                for (size_t i = 0; i < model.size(); ++i) for (auto& e : model[i]) if (e.uid == uid) { if (sig) *sig = i; return &e; }
                return nullptr;
            }
            bool expired(const entry& e) const { return e.object >= 0 && !objects[size_t(e.object)]->shared; }
            bool runs(int uid) { entry* e = find(uid); return e && !e->blocked && !e->blockers && !expired(*e); }
            void remove(int uid)
            {
                for (auto& l : model) for (size_t i = 0; i < l.size(); ++i) if (l[i].uid == uid) { l[i] = l.back(); l.pop_back(); return; }
            }
        };
        world* w;

        const module& any() { return *mods[w->r.below(3)]; }
        // Every slot that is connected through a module knows which number it reports.
        int label_of(int kind, int id, const bound& b, int part)
        {
            switch (kind)
            {
            case k_function: return 10000 + id % 4;
            case k_functor: case k_std_function: case k_slot: return 20000 + id;
            case k_pmf: return 60000 + b.raw->id;
            case k_const_pmf: case k_reference: return 50000 + b.raw->id;
            case k_static: return 70000 + part;
            case k_tracked: return 60000 + b.shared->id;
            case k_lambda: return 80000 + id;
            case k_bind: return 90000 + id;
            default: return 30000 + id;
            }
        }
        int key_of(int kind, int id, const bound& b, int part)
        {
            switch (kind)
            {
            case k_function: case k_functor: case k_slot: case k_pmf: case k_const_pmf: case k_static: return label_of(kind, id, b, part);
            default: return -1;
            }
        }
        bool comparable(int kind) { return kind <= k_static || kind == k_slot; }

        struct arrangement { int kind, id; bound* b; int object; };
        arrangement pick(bool only_comparable)
        {
            arrangement a; a.object = int(w->r.below(uint32_t(w->objects.size())));
            do { a.kind = int(w->r.below(kinds)); } while (only_comparable && !comparable(a.kind));
            a.id = int(w->r.below(12)); a.b = w->objects[size_t(a.object)].get();
            if (a.kind == k_tracked && !a.b->shared) a.kind = k_lambda;
            if (a.kind == k_shot) a.id = w->next_uid;
            return a;
        }
        entry& added(size_t sig, const arrangement& a, int part)
        {
            entry e = { w->next_uid++, label_of(a.kind, a.id, *a.b, part), key_of(a.kind, a.id, *a.b, part), false, 0, a.kind == k_tracked ? a.object : -1, a.kind == k_shot };
            w->model[sig].push_back(e);
            return w->model[sig].back();
        }

        void emit(size_t sig)
        {
            const module& m = any();
            w->emitting = int(sig); w->due.clear(); w->at = 0; w->ran = false; w->arg = int(w->r.below(100)); w->text_arg = w->r.chance(1, 2) ? "short" : "a text that does not fit into the string itself";
            for (auto& e : w->model[sig]) w->due.push_back(e.uid);
            tr("emit %zu (%s)", sig, m.compiler);
            auto res = m.emit(*w->signals[sig], w->arg, w->text_arg);
            ++judged;
            while (w->at < w->due.size() && !w->runs(w->due[w->at])) ++w->at;
            if (w->at < w->due.size()) { entry* e = w->find(w->due[w->at]); fail("an emission did not run slot %d (label %d)", e->uid, e->label); }
            if (bool(res) != w->ran) fail("the result of the emission is wrongly %s", res ? "engaged" : "disengaged");
            if (res && *res != w->last) fail("the result of the emission is %d instead of %d", *res, w->last);
            w->emitting = -1;
        }

        void check_handles()
        {
            for (auto& h : w->handles)
            {
                entry* e = w->find(h.uid); const module& m = any();
                const bool on = e && !w->expired(*e);
                if (m.connected(h.c) != on) fail("the connection of slot %d reports %s", h.uid, on ? "disconnected" : "connected");
                if (on && m.blocked(h.c) != (e->blocked || e->blockers)) fail("the connection of slot %d reports wrongly whether it is blocked", h.uid);
                ++judged;
            }
        }

        void slot_value()
        {
            auto& v = w->slots; const module& m = any(); bound& b = *w->objects[0];
            const uint32_t i = w->r.below(uint32_t(v.size())), j = w->r.below(uint32_t(v.size()));
            switch (w->r.below(6))
            {
            case 0: { arrangement a = pick(true); a.b = &b; tr("slot %u: kind %d id %d from %s", i, a.kind, a.id, m.compiler); v[i].s = m.make(a.kind, a.id, b); int p = &m == mods[0] ? 0 : &m == mods[1] ? 1 : 2;
                v[i].empty = false; v[i].label = label_of(a.kind, a.id, b, p); v[i].key = key_of(a.kind, a.id, b, p); break; }
            case 1: tr("slot %u: copy of %u", i, j); v[i].s = m.copy(v[j].s); v[i].empty = v[j].empty; v[i].label = v[j].label; v[i].key = v[j].key; break;
            case 2: { tr("slots %u and %u compared", i, j); const bool want = v[i].empty || v[j].empty ? v[i].empty && v[j].empty : v[i].key == v[j].key;
                if (m.equal(v[i].s, v[j].s) != want) fail("slots %u and %u are %s", i, j, want ? "different" : "equal"); ++judged; break; }
            case 3: { w->emitting = -2; w->ran = false; w->last = v[i].label; w->arg = 7; w->text_arg = "x"; tr("slot %u called", i); auto res = m.call(v[i].s, 7, "x"); w->emitting = -1;
                if (bool(res) == v[i].empty || w->ran == v[i].empty || (res && *res != result(v[i].label, 7))) fail("calling slot %u yields the wrong result", i); ++judged; break; }
            case 4: { if (v[i].empty) break; size_t sig = w->r.below(uint32_t(w->signals.size())); sig::connection c = w->signals[sig]->connect(v[i].s);
                entry e = { w->next_uid++, v[i].label, v[i].key, false, 0, -1, false }; tr("slot %u connected to %zu: %d", i, sig, e.uid); w->model[sig].push_back(e); handle h = { c, e.uid }; w->handles.push_back(h); break; }
            default: { if (v[i].empty || w->r.chance(1, 2)) { tr("slot %u cleared", i); v[i].s = slot(); v[i].empty = true; break; }
                size_t sig = w->r.below(uint32_t(w->signals.size())); std::vector<int> uids; for (auto& e : w->model[sig]) if (e.key == v[i].key) uids.push_back(e.uid);
                if (uids.size() > 1) break;
                tr("disconnect slot value %u from %zu", i, sig); const size_t n = m.disconnect_slot(*w->signals[sig], v[i].s);
                if (n != uids.size()) fail("disconnecting a slot removed %zu slots instead of %zu", n, uids.size());
                for (int u : uids) w->remove(u); ++judged; }
            }
        }

        void values(rng& r)
        {
            static const char* const words[] = { "", "a", "b", "ab", "a longer text that is stored outside the object" };
            text t[3]; std::string m[3]; bool on[3];
            for (int i = 0; i < 3; ++i) { on[i] = r.chance(2, 3); m[i] = words[r.below(5)]; t[i] = any().text_of(on[i], m[i]); if (!on[i]) m[i].clear(); }
            for (int k = 0; k < 6; ++k)
            {
                const uint32_t i = r.below(3), j = r.below(3), how = r.below(6);
                const std::string want = how == 3 ? std::string(m[j].size(), 'x') : m[j];
                const bool won = on[j];
                any().text_assign(t[i], t[j], int(how));
                m[i] = won ? want : ""; on[i] = won;
                tr("text %u <- %u by %u", i, j, how);
                for (int x = 0; x < 3; ++x) if (any().text_read(t[x]) != (on[x] ? m[x] : "(none)")) fail("text %d is %s instead of %s", x, any().text_read(t[x]).c_str(), on[x] ? m[x].c_str() : "(none)");
                const int a = on[i] ? (on[j] ? m[i].compare(m[j]) : 1) : on[j] ? -1 : 0;
                const int mask = (a == 0) | (a != 0) << 1 | (a < 0) << 2 | (a > 0) << 3 | (a <= 0) << 4 | (a >= 0) << 5;
                if (any().text_compare(t[i], t[j]) != mask) fail("optionals compare as %d instead of %d", any().text_compare(t[i], t[j]), mask);
                if (any().text_value(t[i], "none of these words") != (on[i] ? 0 : 3)) fail("value or value_or of an optional is wrong");
                judged += 3;
            }
            const int x = int(r.below(4)), y = int(r.below(4)), v = int(r.below(4));
            number a, b; if (x) a = x; if (y) b = y;
            auto six = [](int p, int q) { return (p == q) | (p != q) << 1 | (p < q) << 2 | (p > q) << 3 | (p <= q) << 4 | (p >= q) << 5; };
            const int none = -1, lx = x ? x : none, ly = y ? y : none;
            const int want = six(lx, ly) | six(lx, v) << 6 | six(v, ly) << 12 | six(lx, none) << 18 | six(none, ly) << 24;
            if (any().number_compare(a, b, v) != want) fail("optional<int> %d, %d and value %d compare wrongly (0: none)", x, y, v);
            ++judged;
        }

        void run_case(long k)
        {
            world here(case_seed(k, 25)); w = &here; rng& r = here.r; judged = 0;
            {
                const size_t nsig = 1 + r.below(2);
                for (int i = 0; i < 4; ++i)
                {
                    here.raws.emplace_back(new object(100 + i));
                    bound* b = new bound; b->raw = here.raws.back().get(); b->shared = std::make_shared<object>(200 + i); here.objects.emplace_back(b);
                }
                for (size_t i = 0; i < nsig; ++i) { const module& m = any(); here.signals.emplace_back(m.create(), any().destroy); here.model.emplace_back(); }
                here.slots.resize(3); for (auto& v : here.slots) { v.empty = true; v.label = 0; v.key = 0; }
                const int steps = 10 + int(r.below(60));
                for (int step = 0; step < steps; ++step)
                {
                    const size_t sig = r.below(uint32_t(nsig)); S& s = *here.signals[sig]; const int part = int(r.below(3)); const module& m = *mods[part];
                    const uint32_t op = r.below(100);
                    if (op < 24)
                    {
                        arrangement a = pick(false); tr("connect %d to %zu: kind %d id %d by %d", here.next_uid, sig, a.kind, a.id, part);
                        sig::connection c = m.connect(s, a.kind, a.id, *a.b); entry& e = added(sig, a, part); handle h = { c, e.uid }; here.handles.push_back(h);
                    }
                    else if (op < 30)
                    {
                        arrangement a = pick(false); tr("connect scoped %d to %zu: kind %d id %d by %d", here.next_uid, sig, a.kind, a.id, part);
                        std::unique_ptr<scope> sc(new scope{ m.connect_scoped(s, a.kind, a.id, *a.b), 0 }); sc->uid = added(sig, a, part).uid; here.scopes.push_back(std::move(sc));
                    }
                    else if (op < 48) emit(sig);
                    else if (op < 58 && !here.handles.empty())
                    {
                        handle& h = here.handles[r.below(uint32_t(here.handles.size()))]; entry* e = here.find(h.uid); const bool dead = e && here.expired(*e); if (dead) continue;
                        tr("disconnect handle of %d by %d", h.uid, part); const bool got = m.off(h.c); ++judged;
                        if (got != (e != nullptr)) fail("disconnecting slot %d by its handle returned %d", h.uid, int(got));
                        here.remove(h.uid);
                    }
                    else if (op < 68)
                    {
                        arrangement a = pick(true); const int key = key_of(a.kind, a.id, *a.b, part); std::vector<int> uids; for (auto& e : here.model[sig]) if (e.key == key) uids.push_back(e.uid);
                        if (uids.size() > 1) continue;
                        tr("disconnect kind %d id %d from %zu by %d", a.kind, a.id, sig, part); const size_t n = m.disconnect(s, a.kind, a.id, *a.b); ++judged;
                        if (n != uids.size()) fail("disconnecting by a callable of kind %d removed %zu slots instead of %zu", a.kind, n, uids.size());
                        for (int u : uids) here.remove(u);
                    }
                    else if (op < 74 && !here.handles.empty())
                    {
                        handle& h = here.handles[r.below(uint32_t(here.handles.size()))]; const bool on = r.chance(1, 2); tr("%s %d", on ? "block" : "unblock", h.uid);
                        m.block(h.c, on); if (entry* e = here.find(h.uid)) e->blocked = on;
                    }
                    else if (op < 79 && !here.handles.empty())
                    {
                        handle& h = here.handles[r.below(uint32_t(here.handles.size()))]; tr("blocker of %d", h.uid);
                        std::unique_ptr<block_scope> b(new block_scope{ m.blocker(h.c), h.uid }); if (entry* e = here.find(h.uid)) ++e->blockers; here.blockers.push_back(std::move(b));
                    }
                    else if (op < 83 && !here.blockers.empty())
                    {
                        const size_t i = r.below(uint32_t(here.blockers.size())); tr("blocker of %d ends", here.blockers[i]->uid); if (entry* e = here.find(here.blockers[i]->uid)) --e->blockers;
                        here.blockers[i] = std::move(here.blockers.back()); here.blockers.pop_back();
                    }
                    else if (op < 87 && !here.scopes.empty())
                    {
                        const size_t i = r.below(uint32_t(here.scopes.size())); const int uid = here.scopes[i]->uid; entry* e = here.find(uid);
                        if (e && here.expired(*e)) continue; // whether a dead entry keeps its place is not specified here
                        if (r.chance(1, 3)) { tr("release %d", uid); handle h = { m.release(here.scopes[i]->c), uid }; here.handles.push_back(h); }
                        else { tr("scope of %d ends", uid); if (r.chance(1, 2)) m.drop(here.scopes[i]->c); here.remove(uid); }
                        here.scopes[i] = std::move(here.scopes.back()); here.scopes.pop_back();
                        if (!here.handles.empty() && here.handles.back().uid == uid && here.find(uid) == nullptr && m.connected(here.handles.back().c)) fail("slot %d is connected after its scope", uid);
                    }
                    else if (op < 90)
                    {
                        if (r.chance(1, 2)) { tr("signal %zu moved by %d", sig, part); S* n = m.move(&s); here.signals[sig].reset(n); }
                        else if (nsig > 1) { const size_t o = 1 - sig; tr("signal %zu move assigned to %zu", o, sig); m.assign(&s, here.signals[o].get()); here.model[sig] = here.model[o]; here.model[o].clear(); }
                    }
                    else if (op < 92) { tr("object %d dies", part); here.objects[1 + r.below(3)]->shared.reset(); }
                    else if (op < 94 && !here.handles.empty()) { handle& h = here.handles[r.below(uint32_t(here.handles.size()))]; tr("handle of %d copied", h.uid); handle n = { m.duplicate(h.c), h.uid }; here.handles.push_back(n); }
                    else slot_value();
                    check_handles();
                }
                for (size_t i = 0; i < nsig; ++i) emit(i);
                here.blockers.clear();
                // The scopes, the signals and the handles end in any order.
                if (r.chance(1, 2)) here.scopes.clear();
                here.signals.clear(); here.model.clear(); here.model.resize(nsig);
                check_handles();
                here.scopes.clear(); here.slots.clear();
                // only the objects themselves are left
                size_t left = here.raws.size(); for (auto& o : here.objects) left += o->shared ? 1 : 0;
                if (reg().live.size() != left) fail("%zu callables are alive after all signals and slots were destroyed", reg().live.size() - left);
            }
            {
                // exceptions thrown in one module, caught in another
                S s; if (any().fails(s, *here.objects[0]) != 3) fail("exceptions of slots, copies and comparisons do not arrive as what they are");
                V v; std::string want, got; const int a = int(r.below(3)), b = int(r.below(3));
                any().void_connect(v, a); any().void_connect(v, b); any().void_emit(v, got, 4);
                want += char('a' + a); want += "4"; want += char('a' + b); want += "4";
                if (got != want) fail("a reference argument was changed to %s instead of %s", got.c_str(), want.c_str());
                if (any().void_disconnect(v, a) != size_t(1 + (a == b))) fail("a function connected by another module is not found");
                judged += 3;
                values(r);
            }
        }

        void one_case(long k)
        {
            track_blocks(true);
            run_case(k);
            if (!reg().live.empty()) fail("%zu objects are alive at the end of the case", reg().live.size());
            expect_no_blocks("at the end of the case");
            track_blocks(false);
            count("judged_events", judged);
            end_case(judged > 0);
        }
    }

    void called(int label, int a, const std::string& s)
    {
        tr("  runs %d", label);
        if (w->emitting == -1) fail("a slot runs although nothing is emitting");
        if (a != w->arg || s != w->text_arg) fail("a slot received %d, %s instead of %d, %s", a, s.c_str(), w->arg, w->text_arg.c_str());
        ++judged;
        if (w->emitting == -2) { if (label != w->last) fail("the slot ran %d instead of %d", label, w->last); w->ran = true; return; }
        if (w->at > 0 && w->at <= w->due.size() && w->due[w->at - 1] == label - 30000) { return; } // a one-shot slot, which has announced itself
        while (w->at < w->due.size() && !w->runs(w->due[w->at])) ++w->at;
        if (w->at == w->due.size()) fail("slot %d runs although no slot is due", label);
        entry* e = w->find(w->due[w->at]);
        if (e->label != label) fail("slot %d runs instead of %d", label, e->label);
        ++w->at; w->ran = true; w->last = result(label, a);
    }

    void one_shot(int uid)
    {
        if (w->emitting < 0) fail("a slot runs although nothing is emitting");
        while (w->at < w->due.size() && !w->runs(w->due[w->at])) ++w->at;
        if (w->at == w->due.size() || w->due[w->at] != uid) fail("slot %d runs out of order", uid);
        ++w->at; w->ran = true; w->last = result(30000 + uid, w->arg);
        for (auto& h : w->handles) if (h.uid == uid)
        {
            if (!any().off(h.c)) fail("a running slot cannot disconnect itself");
            tr("  one-shot %d disconnects itself", uid); w->remove(uid); ++judged;
            if (any().off(h.c)) fail("disconnect succeeds twice");
            break;
        }
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    pt::mods[0] = pt::part0(); pt::mods[1] = pt::part1(); pt::mods[2] = pt::part2();
    vf::run_cases("portable", vf::opt().cases, pt::one_case);
    for (auto m : pt::mods) vf::count(("module_" + std::string(m->compiler) + "_" + std::to_string(m->standard) + (m->optimised ? "_optimised" : "_unoptimised")).c_str());
    vf::summary();
    return 0;
}

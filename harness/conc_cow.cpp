// Copy-on-write pointers used from several threads, each through its own handles. Instrumented.
#include "conc_prog.hpp"
#include "signals.hpp"

namespace
{
    uint64_t g_copies[rt::MAXT]; // only touched by the thread itself, from uninstrumented functions
    __attribute__((no_sanitize("thread"))) uint64_t& copies() { return g_copies[rt::self()]; }
    __attribute__((no_sanitize("thread"))) void copied() { ++copies(); }

    struct Val
    {
        int id; uint64_t magic; // as Canary in conc_hist.cpp
        int a, b;
        std::vector<int> v;
        explicit Val(int x) : id(0), a(x), b(x), v(3, x) { conc::mon_new(0, this); }
        Val(const Val& o) : id(0), a(o.a), b((rt::yield(), o.b)), v(o.v) { copied(); conc::mon_new(0, this); }
        ~Val() { conc::mon_del(0, this); }
        int get() const
        {
            int x = a; rt::yield();
            if (b != x || v.size() != 3 || v[0] != x || v[2] != x) vf::fail("a reader sees a half-written value (%d, %d)", x, b);
            return x;
        }
        void set(int x) { a = x; v[0] = x; rt::yield(); v[1] = x; v[2] = x; b = x; }
    };
    using cow = sig::detail::cow_ptr<Val>;

    struct H { cow c; int want = -1; bool sole = false; }; // want < 0: empty
    struct Thread { int id; std::vector<H> h; std::vector<int> ops; uint64_t seed; };
    std::vector<Thread>* T = nullptr;
    uint64_t judged = 0;

    __attribute__((no_sanitize("thread"))) void saw() { __atomic_fetch_add(&judged, 1, __ATOMIC_RELAXED); }

    void read(H& h)
    {
        const cow& c = h.c;
        uint64_t n = copies();
        if (h.want < 0) { if (c) vf::fail("an empty handle has a value"); return; }
        if (!c) vf::fail("a handle lost its value");
        int x = 0;
        switch (h.want % 4) { case 0: x = c.read().get(); break; case 1: x = (*c).get(); break; case 2: x = c->get(); break; default: x = c.data()->get(); break; }
        if (x != h.want) vf::fail("a handle reads %d, it holds %d", x, h.want);
        if (copies() != n) vf::fail("reading copied the value");
        saw();
    }
    void write(H& h, int x, int how)
    {
        if (h.want < 0) { h.c = cow(new Val(x)); h.want = x; h.sole = true; return; }
        uint64_t n = copies();
        const Val* at = static_cast<const cow&>(h.c).data();
        switch (how) { case 0: h.c.write().set(x); break; case 1: (*h.c).set(x); break; case 2: h.c->set(x); break; default: h.c.data()->set(x); break; }
        if (h.sole && copies() != n) vf::fail("the sole owner of a value was given a copy for writing");
        if (h.sole && at != static_cast<const cow&>(h.c).data()) vf::fail("the value of its sole owner moved");
        h.want = x; h.sole = true;
        read(h);
    }

    void work(void* p)
    {
        Thread& t = *static_cast<Thread*>(p);
        vf::rng r(t.seed);
        int next = t.id * 1000;
        for (int op : t.ops)
        {
            H& a = t.h[r.below(uint32_t(t.h.size()))];
            H& b = t.h[r.below(uint32_t(t.h.size()))];
            switch (op)
            {
            case 0: case 1: rt::set_label("read"); read(a); break;
            case 2: case 3: case 4: rt::set_label("write"); write(a, ++next, int(r.below(4))); break;
            case 5: rt::set_label("assign"); if (&a == &b) { a.c = static_cast<const cow&>(b.c); } else { a.c = b.c; a.want = b.want; a.sole = b.sole = false; } break;
            case 6: rt::set_label("copy"); { H x{ b.c, b.want, false }; b.sole = false; read(x); } break;
            case 7: rt::set_label("move"); if (&a != &b) { a.c = std::move(b.c); a.want = b.want; a.sole = b.sole; b.c = cow(); b.want = -1; b.sole = false; } break;
            case 8: rt::set_label("reset"); a.c = cow(); a.want = -1; a.sole = false; break;
            case 9: rt::set_label("swap"); if (&a != &b) { std::swap(a.c, b.c); std::swap(a.want, b.want); std::swap(a.sole, b.sole); } break;
            case 10: rt::set_label("assign value"); a.c = new Val(++next); a.want = next; a.sole = true; break;
            case 11: rt::set_label("copy, then write the copy"); { H x{ a.c, a.want, false }; a.sole = false; write(x, ++next, 0); read(a); } break;
            }
            read(a); read(b);
        }
        rt::set_label("release");
        t.h.clear();
    }

    struct Setup { uint64_t seed; };
    void main_thread(void* p)
    {
        vf::rng r(static_cast<Setup*>(p)->seed);
        T = new std::vector<Thread>;
        int nt = 2 + int(r.below(3)), nv = 1 + int(r.below(2));
        {
            std::vector<cow> base;
            for (int i = 0; i < nv; ++i) base.push_back(sig::detail::make_cow<Val>(i + 1));
            T->resize(size_t(nt));
            for (int i = 0; i < nt; ++i)
            {
                Thread& t = (*T)[size_t(i)];
                t.id = i + 1; t.seed = r.next();
                int nh = 1 + int(r.below(2));
                for (int k = 0; k < nh; ++k) { int v = int(r.below(uint32_t(nv))); t.h.push_back(H{ base[size_t(v)], v + 1, false }); }
                int no = 1 + int(r.below(5));
                for (int k = 0; k < no; ++k) t.ops.push_back(int(r.below(12)));
            }
            if (r.chance(1, 2)) { for (auto& t : *T) rt::spawn(&work, &t); rt::join_all(); }
            else base.clear();
            rt::set_label("main");
            for (size_t i = 0; i < base.size(); ++i) { H h{ base[i], int(i) + 1, false }; read(h); }
        }
        if (!T->empty() && !(*T)[0].h.empty()) { for (auto& t : *T) rt::spawn(&work, &t); rt::join_all(); }
        delete T; T = nullptr;
        rt::check_leaks();
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    vf::run_cases("copy-on-write threads", vf::opt().cases, [&](long k)
    {
        Setup s{ vf::case_seed(k / 8, 3) };
        conc::current = nullptr;
        hist::reset();
        for (auto& c : g_copies) c = 0;
        uint64_t ss = vf::case_seed(k, 99), before = judged;
        rt::execute(ss, int((ss >> 7) % rt::STRATEGIES), 70, &main_thread, &s);
        vf::mix(s.seed); vf::mix(rt::controlled() ? rt::schedule_hash() : uint64_t(k));
        if (vf::st().samples.size() < 2) vf::st().trace = { "program of seed " + std::to_string(s.seed), "schedule of " + std::to_string(rt::steps()) + " points", std::to_string(judged - before) + " reads compared" };
        vf::end_case(judged > before);
    });
    vf::count("judged_events", judged);
    rt::collect_counters();
    vf::summary();
    return 0;
}

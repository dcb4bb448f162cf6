// C20, one thread: random operations on a pool of copy-on-write pointers; a model knows which handles share which value.
#include "vf.hpp"
#include <signals.hpp>
#include <memory>
#include <string>
#include <vector>
using namespace vf;
namespace
{
    rng R(1);
    uint64_t judged = 0, copies = 0;
    long throw_in = -1;
    struct boom {};
    struct value
    {
        canary c; std::vector<int> d;
        explicit value(int a, int b = 0) : c(1), d{ a, b } {}
        value(std::initializer_list<int> il) : c(1), d(il) {}
        value(const value& o) : c((o.thr(), o.c)), d(o.d) { ++copies; }
        value& operator=(const value& o) { c.check("assigned"); o.c.check("read"); d = o.d; ++copies; return *this; }
        ~value() { d.assign(3, -9); }
        void thr() const { if (throw_in >= 0 && throw_in-- == 0) throw boom(); }
        void set(int x) { c.check("written"); d.push_back(x); if (d.size() > 6) d.erase(d.begin()); }
        std::vector<int> get() const { c.check("read"); return d; }
    };
    template<typename T> struct ops;
    template<> struct ops<value>
    {
        static void set(value& v, int x) { v.set(x); }
        static std::vector<int> get(const value& v) { return v.get(); }
        static bool counts() { return true; }
    };
    using vec = std::vector<int>;
    template<> struct ops<vec>
    {
        static void set(vec& v, int x) { v.push_back(x); if (v.size() > 6) v.erase(v.begin()); }
        static std::vector<int> get(const vec& v) { return v; }
        static bool counts() { return false; }
    };
    template<typename T> struct game
    {
        using P = sig::detail::cow_ptr<T>;
        struct group { std::vector<int> d; const T* at; };
        std::vector<std::unique_ptr<P>> h; std::vector<std::shared_ptr<group>> m;
        const char* name;
        void check(const char* op)
        {
            uint64_t before = copies;
            for (size_t i = 0; i < h.size(); ++i)
            {
                const P& p = *h[i]; ++judged;
                if (bool(p) != bool(m[i])) fail("%s: handle %zu is %s after %s", name, i, p ? "not null" : "null", op);
                if (p.data() != static_cast<const T*>(p)) fail("%s: data() and the conversion disagree", name);
                if (!m[i]) { if (p.data()) fail("%s: data() of a null handle is not null", name); continue; }
                const T* paths[] = { std::addressof(*p), p.operator->(), p.data(), std::addressof(p.read()), static_cast<const T*>(p) };
                for (auto q : paths) if (q != m[i]->at) fail("%s: handle %zu refers to another object than before after %s", name, i, op);
                if (ops<T>::get(p.read()) != m[i]->d) fail("%s: handle %zu holds another value after %s", name, i, op);
            }
            for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < h.size(); ++j)
            {
                ++judged;
                const P &a = *h[i], &b = *h[j];
                bool same = m[i] == m[j];
                if ((a == b) != same || (a != b) == same) fail("%s: handles %zu and %zu compare %s after %s", name, i, j, same ? "unequal" : "equal", op);
            }
            if (copies != before) fail("%s: reading copied the value", name);
            if (ops<T>::counts())
            {
                std::set<group*> g; for (auto& x : m) if (x) g.insert(x.get());
                if (live_uid(1) != int(g.size())) fail("%s: %d values are alive for %zu distinct ones after %s", name, live_uid(1), g.size(), op);
            }
        }
        void adopt(size_t i) { m[i]->at = static_cast<const P&>(*h[i]).data(); }
        void step()
        {
            size_t i = R.below(uint32_t(h.size())), j = R.below(uint32_t(h.size()));
            int v = int(R.below(1000)), op = int(R.below(20));
            tr("%s: op %d on %zu, %zu, value %d", name, op, i, j, v);
            const char* what = "nothing";
            switch (op)
            {
            case 0: what = "default construction"; h[i].reset(new P()); m[i].reset(); break;
            case 1: what = "make_cow"; if constexpr (std::is_same<T, value>::value) { h[i].reset(new P(sig::detail::make_cow<T>(v, 3))); m[i].reset(new group{ { v, 3 }, nullptr }); } else { h[i].reset(new P(sig::detail::make_cow<T>(size_t(2), v))); m[i].reset(new group{ { v, v }, nullptr }); } adopt(i); break;
            case 2: what = "make_cow from a list"; h[i].reset(new P(sig::detail::make_cow<T>({ v, 1, 2 }))); m[i].reset(new group{ { v, 1, 2 }, nullptr }); adopt(i); break;
            case 3: { what = "construction from a pointer"; T* t = new T({ v }); h[i].reset(new P(t)); m[i].reset(new group{ { v }, t }); break; }
            case 4: case 5: { what = "copy construction"; std::unique_ptr<P> n(new P(static_cast<const P&>(*h[j]))); auto g = m[j]; h[i] = std::move(n); m[i] = g; break; }
            case 6: { what = "move construction"; std::unique_ptr<P> n(new P(std::move(*h[j]))); auto g = m[j]; m[j].reset(); h[i] = std::move(n); m[i] = g; break; }
            case 7: case 8: what = i == j ? "self copy assignment" : "copy assignment"; *h[i] = static_cast<const P&>(*h[j]); m[i] = m[j]; break;
            case 9: if (i != j) { what = "move assignment"; *h[i] = std::move(*h[j]); m[i] = m[j]; m[j].reset(); } break;
            case 10: { what = "assignment of a pointer"; T* t = new T({ v, 7 }); *h[i] = t; m[i].reset(new group{ { v, 7 }, t }); break; }
            case 11: if (!m[i]) { what = "data() of a null handle"; ++judged; if (h[i]->data() || static_cast<T*>(*h[i])) fail("%s: writing access to a null handle yields an object", name); break; } // fall through
            default:
                if (!m[i]) break;
                {
                    static const char* paths[] = { "writing through *", "writing through ->", "writing through data()", "writing through write()", "writing through the conversion" };
                    int path = int(R.below(5)); what = paths[path];
                    tr("%s", what);
                    bool sole = m[i].use_count() == 1;
                    bool thr = ops<T>::counts() && R.chance(1, 6);
                    uint64_t before = copies; bool threw = false;
                    const T* old = m[i]->at;
                    T* at = nullptr;
                    throw_in = thr ? 0 : -1;
                    try
                    {
                        switch (path)
                        {
                        case 0: at = std::addressof(**h[i]); break;
                        case 1: at = h[i]->operator->(); break;
                        case 2: at = h[i]->data(); break;
                        case 3: at = std::addressof(h[i]->write()); break;
                        default: at = static_cast<T*>(*h[i]);
                        }
                        throw_in = -1;
                    }
                    catch (const boom&) { threw = true; }
                    throw_in = -1; ++judged;
                    if (threw) { if (sole) fail("%s: a sole owner copies its value to write it", name); what = "a write that threw"; break; }
                    ops<T>::set(*at, v);
                    if (sole)
                    {
                        if (copies != before || at != old) fail("%s: a sole owner does not write in place", name);
                        auto& d = m[i]->d; d.push_back(v); if (d.size() > 6) d.erase(d.begin());
                        count("writes_in_place");
                    }
                    else
                    {
                        if (at == old) fail("%s: %s through a sharing handle writes the shared value", name, what);
                        auto d = m[i]->d; d.push_back(v); if (d.size() > 6) d.erase(d.begin());
                        m[i].reset(new group{ d, at });
                        count("writes_to_shared");
                    }
                }
            }
            check(what);
        }
        static void run(const char* n)
        {
            {
                game g; g.name = n;
                size_t k = 2 + R.below(5);
                for (size_t i = 0; i < k; ++i) { g.h.emplace_back(new P()); g.m.emplace_back(); }
                int steps = 5 + int(R.below(40));
                for (int s = 0; s < steps; ++s) g.step();
            }
            if (live_uid(1)) fail("%d values are alive after the last handle is gone", live_uid(1));
        }
    };
}
int main(int argc, char** argv)
{
    init(argc, argv);
    run_cases("cow", vf::opt().cases, [&](long k) {
        R = rng(case_seed(k, 20));
        uint64_t before = judged;
        track_blocks(true);
        if (k % 3) game<value>::run("token"); else game<vec>::run("vector");
        expect_no_blocks("at the end of the case");
        track_blocks(false);
        end_case(judged > before);
    });
    count("judged_events", judged);
    summary();
}

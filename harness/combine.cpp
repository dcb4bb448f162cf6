// C04: results of many types through the default combiner and through combiners of different habits.
#include "vf.hpp"
#include <signals.hpp>
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
using namespace vf;
namespace
{
    rng R(1);
    uint64_t judged = 0;
    std::vector<int> ran;

    enum class color : unsigned char { none, red, green };
    struct pod { int a; double b; };
    struct rich
    {
        canary c; std::string s; std::unique_ptr<int> p;
        rich(int i) : c(1), s(i % 3 ? "value-" + std::to_string(i) + "-which-is-long-enough-for-the-heap" : ""), p(new int(i)) {}
        rich(const rich& o) : c(o.c), s(o.s), p(new int(o.p ? *o.p : -1)) {}
        rich(rich&& o) : c(std::move(o.c)), s(std::move(o.s)), p(std::move(o.p)) {}
        rich& operator=(const rich& o) { c = o.c; s = o.s; p.reset(new int(o.p ? *o.p : -1)); return *this; }
    };
    struct alignas(32) wide { int v; char pad[60]; };
    struct no_default { int v; explicit no_default(int x) : v(x) {} };
    struct truthy { int v; explicit operator bool() const { return v % 2; } bool operator!() const { return !(v % 2); } }; // has an opinion on being true

    // value number i of a type; small i are the values that look like nothing
    template<typename T> struct val;
    template<> struct val<int> { static int mk(int i) { return i; } static bool is(int x, int i) { return x == i; } };
    template<> struct val<bool> { static bool mk(int i) { return i & 1; } static bool is(bool x, int i) { return x == bool(i & 1); } };
    template<> struct val<char> { static char mk(int i) { return char(i); } static bool is(char x, int i) { return x == char(i); } };
    template<> struct val<double> { static double mk(int i) { return i == 1 ? -0.0 : i * 0.5; } static bool is(double x, int i) { return x == mk(i) && std::signbit(x) == std::signbit(mk(i)); } };
    template<> struct val<unsigned long long> { static unsigned long long mk(int i) { return i == 1 ? ~0ull : 1ull * i << 33; } static bool is(unsigned long long x, int i) { return x == mk(i); } };
    template<> struct val<const char*> { static const char* mk(int i) { static const char t[256] = {}; return i == 0 ? nullptr : t + i % 256; } static bool is(const char* x, int i) { return x == mk(i); } };
    template<> struct val<std::string> { static std::string mk(int i) { return i % 3 ? std::string(size_t(i), 'z') : std::string(); } static bool is(const std::string& x, int i) { return x == mk(i); } };
    template<> struct val<std::vector<int>> { static std::vector<int> mk(int i) { return std::vector<int>(size_t(i % 5), i); } static bool is(const std::vector<int>& x, int i) { return x == mk(i); } };
    template<> struct val<color> { static color mk(int i) { return color(i % 3); } static bool is(color x, int i) { return x == mk(i); } };
    template<> struct val<pod> { static pod mk(int i) { return pod{ i, i * 2.0 }; } static bool is(const pod& x, int i) { return x.a == i && x.b == i * 2.0; } };
    template<> struct val<rich> { static rich mk(int i) { return rich(i); } static bool is(const rich& x, int i) { x.c.check("read"); return x.p && *x.p == i && x.s == rich(i).s; } };
    template<> struct val<wide> { static wide mk(int i) { wide w{}; w.v = i; w.pad[59] = char(i); return w; } static bool is(const wide& x, int i) { return x.v == i && x.pad[59] == char(i) && reinterpret_cast<uintptr_t>(&x) % 32 == 0; } };
    template<> struct val<no_default> { static no_default mk(int i) { return no_default(i); } static bool is(const no_default& x, int i) { return x.v == i; } };
    template<> struct val<truthy> { static truthy mk(int i) { return truthy{ i }; } static bool is(const truthy& x, int i) { return x.v == i; } };
    template<> struct val<std::shared_ptr<int>> { static std::shared_ptr<int> mk(int i) { return i % 3 ? std::make_shared<int>(i) : nullptr; } static bool is(const std::shared_ptr<int>& x, int i) { return i % 3 ? x && *x == i && x.use_count() == 1 : !x; } };
    template<> struct val<opt::optional<int>> { static opt::optional<int> mk(int i) { return i % 3 ? opt::optional<int>(i) : opt::optional<int>(); } static bool is(const opt::optional<int>& x, int i) { return i % 3 ? x && *x == i : !x; } };
    template<> struct val<std::unique_ptr<int>> { static std::unique_ptr<int> mk(int i) { return std::unique_ptr<int>(i % 3 ? new int(i) : nullptr); } static bool is(const std::unique_ptr<int>& x, int i) { return i % 3 ? x && *x == i : !x; } };

    // What the combiners of the current emission have to do and what they saw.
    struct plan { std::vector<char> eligible; std::vector<int> value; } P;
    size_t at = 0;
    template<typename T> struct slot_fn
    {
        int id, value;
        T operator()(int x) const
        {
            { guard_harness g; ran.push_back(id); }
            if (x != 77) fail("a slot received a wrong argument");
            return val<T>::mk(value);
        }
    };
    template<typename T> void see(const opt::optional<T>& v, size_t i)
    {
        ++judged;
        if (i >= P.eligible.size()) fail("the combiner was given more than %zu slots", P.eligible.size());
        if (bool(v) != bool(P.eligible[i])) fail("slot %zu of %zu: the combiner got %s", i, P.eligible.size(), v ? "a value although the slot must not run" : "nothing although the slot is due");
        if (v && !val<T>::is(*v, P.value[i])) fail("slot %zu of %zu: the combiner got another value than the slot returned", i, P.eligible.size());
    }
    void end_at(size_t i) { if (i != P.eligible.size()) fail("the combiner was given %zu slots instead of %zu", i, P.eligible.size()); }

    template<typename T> struct collect
    {
        using result_type = std::vector<opt::optional<T>>;
        template<typename It> result_type operator()(It a, It b) const { result_type r; size_t i = 0; for (; a != b; ++a, ++i) { r.push_back(*a); see(r.back(), i); } end_at(i); return r; }
    };
    template<typename T> struct count_only // does not run anything
    {
        using result_type = size_t;
        template<typename It> result_type operator()(It a, It b) const { size_t n = 0; for (; a != b; ++a) ++n; return n; }
    };
    template<typename T> struct first_engaged // stops at the first result
    {
        using result_type = opt::optional<T>;
        template<typename It> result_type operator()(It a, It b) const { size_t i = 0; while (a != b) { opt::optional<T> v = *a++; see(v, i++); if (v) return v; } end_at(i); return {}; }
    };
    template<typename T> struct twice // a second pass over a copy of the range
    {
        using result_type = long;
        template<typename It> result_type operator()(It a, It b) const
        {
            long n = 0;
            for (int pass = 0; pass < 2; ++pass) { It c(a); size_t i = 0; for (; c != b; ++c, ++i) { auto v = *c; see(v, i); n += bool(v); } end_at(i); }
            return n;
        }
    };
    template<typename T> struct every_other
    {
        using result_type = std::unique_ptr<long>; // a result that can only be moved
        template<typename It> result_type operator()(It a, It b) const { long n = 0; size_t i = 0; for (; a != b; ++i) { if (i % 2 == 0) { see(*a, i); ++n; } ++a; } end_at(i); return std::unique_ptr<long>(new long(n)); }
    };
    struct stop {};
    template<typename T> struct throws_midway
    {
        using result_type = int;
        template<typename It> result_type operator()(It a, It b) const { size_t i = 0; for (; a != b; ++a, ++i) { if (i == at) throw stop(); see(*a, i); } end_at(i); return int(i); }
    };
    template<typename T> struct reuse // the default combiner inside another one
    {
        using result_type = std::pair<bool, int>;
        template<typename It> result_type operator()(It a, It b) const { int n = 0; for (It c(a); c != b; c++) ++n; return { bool(sig::optional_last_value<T>()(a, b)), n }; }
    };

    // A combiner with a state: every emission, also one that starts while the combiner of another is at work, has one of its own.
    std::function<void()> nest;
    template<typename T> struct stateful
    {
        using result_type = std::pair<long, long>;
        canary c{ 2 }; long seen = 0, engaged = 0; std::vector<int> log;
        stateful() {}
        stateful(const stateful&) = delete;
        template<typename It> result_type operator()(It a, It b)
        {
            c.check("used");
            if (seen || !log.empty()) fail("a combiner that has been used before is used for an emission");
            while (a != b)
            {
                auto v = *a; see(v, size_t(seen)); engaged += bool(v);
                { guard_harness g; log.push_back(int(seen)); }
                ++seen; ++a;
                if (seen == long(at) && nest) { std::function<void()> f; f.swap(nest); f(); }
            }
            end_at(size_t(seen));
            if (log.size() != size_t(seen)) fail("the state of a combiner was changed by another emission");
            return { seen, engaged };
        }
    };
    // Combiners of signals without result: dereferencing runs the slot and gives a disengaged optional.
    struct slot_void { int id; void operator()(int x) const { { guard_harness g; ran.push_back(id); } if (x != 77) fail("a slot received a wrong argument"); } };
    std::vector<char> take;
    struct void_plan
    {
        using result_type = int;
        template<typename It> result_type operator()(It a, It b) const
        {
            int n = 0; size_t i = 0;
            for (; a != b; ++i)
            {
                char t = i < take.size() ? take[i] : 1;
                if (t == 3) return -n;
                for (; t > 0; --t) { auto v = *a; if (v) fail("a slot without result gave one"); ++judged; ++n; }
                if (i & 1) ++a; else { It c(a++); if (c == a || !(c != a)) fail("post-increment did not advance the iterator"); }
            }
            end_at(i);
            return n;
        }
    };

    template<typename T, typename C> struct scene
    {
        sig::signal<T(int), C> s; std::vector<sig::connection> c; std::vector<int> due; // ids of the slots that are due, in order
        std::vector<sig::connection_blocker> b;
        scene()
        {
            int n = R.chance(1, 8) ? 0 : 1 + int(R.below(7));
            guard_harness g; P.eligible.clear(); P.value.clear();
            for (int i = 0; i < n; ++i)
            {
                int v = int(R.below(R.chance(1, 2) ? 3 : 200));
                st().harness = false;
                c.push_back(s.connect(make(i, v, (T*)nullptr)));
                bool blocked = R.chance(1, 4);
                if (blocked) { if (R.chance(1, 2)) c.back().block(); else b.push_back(c.back().blocker()); }
                st().harness = true;
                P.eligible.push_back(!blocked); P.value.push_back(v);
            }
            for (int i = 0; i < n; ++i) if (P.eligible[size_t(i)]) due.push_back(i);
            tr("%d slots, %zu due", n, due.size());
            for (int i = 0; i < n; ++i) mix(uint64_t(P.value[size_t(i)]) * 2 + P.eligible[size_t(i)]);
            ran.clear();
        }
        template<typename U> static slot_fn<U> make(int i, int v, U*) { return slot_fn<U>{ i, v }; }
        static slot_void make(int i, int, void*) { return slot_void{ i }; }
        void ran_exactly(const std::vector<int>& w, const char* how)
        {
            ++judged;
            if (ran != w) fail("%s: %zu slots ran instead of %zu", how, ran.size(), w.size());
        }
    };
    template<typename T, bool Copy = std::is_copy_constructible<T>::value> struct default_too
    {
        static void run()
        {
            scene<T, sig::optional_last_value<T>> x;
            auto r = x.s(77);
            x.ran_exactly(x.due, "default combiner");
            if (bool(r) != !x.due.empty()) fail("the default combiner returned %s", r ? "a value although no slot ran" : "nothing although slots ran");
            if (r && !val<T>::is(*r, P.value[size_t(x.due.back())])) fail("the default combiner did not return the value of the last slot that ran");
            ++judged;
        }
    };
    template<typename T> struct default_too<T, false> { static void run() {} };

    template<typename T> void run_reuse(std::true_type) { scene<T, reuse<T>> x; auto r = x.s(77); x.ran_exactly(x.due, "the default combiner within another"); if (r.first != !x.due.empty() || r.second != int(P.eligible.size())) fail("the combiner's result did not arrive"); }
    template<typename T> void run_reuse(std::false_type) {}

    template<typename T> void all(int which)
    {
        switch (which)
        {
        case 0: default_too<T>::run(); break;
        case 1:
        {
            scene<T, collect<T>> x; auto r = x.s(77);
            x.ran_exactly(x.due, "collect");
            if (r.size() != P.eligible.size()) fail("the combiner's result did not arrive");
            for (size_t i = 0; i < r.size(); ++i) see(r[i], i);
            break;
        }
        case 2: { scene<T, count_only<T>> x; size_t r = x.s(77); x.ran_exactly({}, "a combiner that dereferences nothing"); if (r != P.eligible.size()) fail("a counting combiner counts %zu instead of %zu slots", r, P.eligible.size()); break; }
        case 3:
        {
            scene<T, first_engaged<T>> x; auto r = x.s(77);
            x.ran_exactly(x.due.empty() ? x.due : std::vector<int>{ x.due[0] }, "a combiner that stops at the first result");
            if (bool(r) != !x.due.empty() || (r && !val<T>::is(*r, P.value[size_t(x.due[0])]))) fail("the combiner's result did not arrive");
            break;
        }
        case 4: { scene<T, twice<T>> x; long r = x.s(77); auto w = x.due; w.insert(w.end(), x.due.begin(), x.due.end()); x.ran_exactly(w, "a combiner with two passes"); if (r != long(w.size())) fail("the combiner's result did not arrive"); break; }
        case 5:
        {
            scene<T, every_other<T>> x; auto r = x.s(77);
            std::vector<int> w; for (int i : x.due) if (i % 2 == 0) w.push_back(i);
            x.ran_exactly(w, "a combiner that takes every other slot");
            if (!r || *r != long((P.eligible.size() + 1) / 2)) fail("the combiner's result did not arrive");
            break;
        }
        case 6:
        {
            scene<T, throws_midway<T>> x; at = R.below(8);
            bool threw = false; int r = -1;
            try { r = x.s(77); } catch (const stop&) { threw = true; }
            std::vector<int> w; for (int i : x.due) if (size_t(i) < at) w.push_back(i);
            x.ran_exactly(w, "a combiner that throws");
            if (threw != (at < P.eligible.size()) || (!threw && r != int(P.eligible.size()))) fail("the exception or result of the combiner did not arrive");
            ran.clear(); at = 1000; x.s(77); x.ran_exactly(x.due, "the emission after a combiner threw");
            break;
        }
        case 8:
        {
            scene<T, stateful<T>> x; at = R.below(8);
            std::vector<int> w; bool nested = R.chance(1, 2);
            if (nested) { guard_harness g; nest = [&] { auto r = x.s(77); if (r.first != long(P.eligible.size()) || r.second != long(x.due.size())) fail("the result of a nested emission did not arrive"); }; }
            auto r = x.s(77);
            guard_harness g; nest = nullptr;
            nested = nested && at >= 1 && at <= P.eligible.size();
            for (size_t i = 0; i <= P.eligible.size(); ++i)
            {
                if (nested && i == at) w.insert(w.end(), x.due.begin(), x.due.end());
                if (i < P.eligible.size() && P.eligible[i]) w.push_back(int(i));
            }
            x.ran_exactly(w, "a combiner with state");
            if (r.first != long(P.eligible.size()) || r.second != long(x.due.size())) fail("the combiner's result did not arrive");
            if (live_uid(2)) fail("a combiner outlives its emission");
            break;
        }
        case 9:
        {
            scene<void, void_plan> x; std::vector<int> w; int n = 0; bool stopped = false;
            { guard_harness g; take.clear(); for (size_t i = 0; i < P.eligible.size(); ++i) take.push_back(char(R.chance(1, 12) ? 3 : R.below(3))); }
            for (size_t i = 0; i < take.size() && !stopped; ++i)
            {
                if (take[i] == 3) { stopped = true; break; }
                n += take[i];
                if (P.eligible[i]) { guard_harness g; w.insert(w.end(), size_t(take[i]), int(i)); }
            }
            int r = x.s(77);
            x.ran_exactly(w, "a combiner of a signal without result");
            if (r != (stopped ? -n : n)) fail("the combiner's result did not arrive");
            guard_harness g; std::vector<char>().swap(take);
            break;
        }
        default: { run_reuse<T>(std::is_copy_constructible<T>()); }
        }
    }
}
int main(int argc, char** argv)
{
    init(argc, argv);
    run_cases("combine", vf::opt().cases, [&](long k) {
        R = rng(case_seed(k, 4)); uint64_t before = judged;
        int t = int(R.below(17)), c = int(R.below(10));
        tr("type %d combiner %d", t, c);
        track_blocks(true);
        {
            switch (t)
            {
            case 0: all<int>(c); break;
            case 1: all<bool>(c); break;
            case 2: all<char>(c); break;
            case 3: all<double>(c); break;
            case 4: all<unsigned long long>(c); break;
            case 5: all<const char*>(c); break;
            case 6: all<std::string>(c); break;
            case 7: all<std::vector<int>>(c); break;
            case 8: all<color>(c); break;
            case 9: all<pod>(c); break;
            case 10: all<rich>(c); break;
            case 11: all<wide>(c); break;
            case 12: all<no_default>(c); break;
            case 13: all<truthy>(c); break;
            case 14: all<std::shared_ptr<int>>(c); break;
            case 15: all<opt::optional<int>>(c); break;
            default: all<std::unique_ptr<int>>(c); break;
            }
        }
        { guard_harness g; std::vector<int>().swap(ran); }
        if (live_uid(1)) fail("%d values are alive after the emission", live_uid(1));
        expect_no_blocks("at the end of the case");
        track_blocks(false);
        end_case(judged > before);
    });
    count("judged_events", judged);
    summary();
}

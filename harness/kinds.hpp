// C22: every kind of callable, through slots and signals, is compared with invoking it directly.
#pragma once
#include "vf.hpp"
#include <signals.hpp>
#include <any>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

using namespace vf;

namespace kinds
{
    extern rng R;
    extern std::vector<long> effects; // what the callable observed, in order
    extern uint64_t judged;
    inline void eff(long v) { effects.push_back(v); }

    template<typename T> bool eq(const T& a, const T& b) { return a == b; }
    inline bool eq(const std::any& a, const std::any& b) { return a.has_value() == b.has_value() && (!a.has_value() || std::any_cast<int>(a) == std::any_cast<int>(b)); }

    // keeps every engaged result
    template<typename T> struct collect
    {
        using result_type = std::vector<opt::optional<T>>;
        template<typename It> result_type operator()(It f, It l) const { result_type r; for (; f != l; ++f) r.push_back(*f); return r; }
    };

    template<typename R> struct outcome { bool engaged = false; std::vector<R> v; };
    template<> struct outcome<void> { bool engaged = false; };

    template<typename F> struct tester;
    template<typename Ret, typename... A> struct tester<Ret(A...)>
    {
        using sigt = sig::signal<Ret(A...)>;
        using slott = sig::slot<Ret(A...)>;

        static void judge(const char* name, const char* how, int call, const opt::optional<Ret>& got, const std::vector<long>& ge, const Ret& want, const std::vector<long>& we)
        {
            ++judged;
            if (!got) fail("%s through %s, call %d: the result of the running slot is disengaged", name, how, call);
            if (!eq(*got, want)) fail("%s through %s, call %d: the result differs from a direct call", name, how, call);
            if (ge != we) fail("%s through %s, call %d: %zu effects, a direct call has %zu (or they differ)", name, how, call, ge.size(), we.size());
        }
        // direct: invokes an equivalent callable of its own; mk: passes the callable to the consumer given to it
        template<typename Direct, typename Make, typename Args> static void run(const char* name, Direct direct, Make mk, Args args)
        {
            tr("%s", name);
            count("forms");
            int how = int(R.below(6));
            static const char* names[] = { "connect", "connect_scoped", "slot", "copied slot", "connected slot", "two signals" };
            std::vector<opt::optional<Ret>> got; std::vector<std::vector<long>> ge;
            int calls = 1 + int(R.below(4));
            std::vector<typename std::decay<decltype(args(0))>::type> as;
            for (int i = 0; i < calls; ++i) as.push_back(args(int(R.below(1000)) - 200));
            tr("via %s, %d calls", names[how], calls);
            effects.clear();
            auto rec = [&](opt::optional<Ret> r) { got.push_back(std::move(r)); ge.push_back(effects); effects.clear(); };
            switch (how)
            {
            case 0: { sigt s; mk([&](auto&&... c) { s.connect(std::forward<decltype(c)>(c)...); }); for (auto& a : as) rec(std::apply(s, a)); break; }
            case 1: { sigt s; mk([&](auto&&... c) { sig::scoped_connection k = s.connect_scoped(std::forward<decltype(c)>(c)...); for (auto& a : as) rec(std::apply(s, a)); }); break; }
            case 2: { mk([&](auto&&... c) { slott s(std::forward<decltype(c)>(c)...); for (auto& a : as) rec(call(s, a)); }); break; }
            case 3: { mk([&](auto&&... c) { slott s(std::forward<decltype(c)>(c)...); const slott& cs = s; slott t(cs); slott u(t); slott v; v = std::move(u); for (auto& a : as) rec(call(v, a)); }); break; }
            case 4: { sigt g; mk([&](auto&&... c) { slott s(std::forward<decltype(c)>(c)...); g.connect(s); s = slott(); for (auto& a : as) rec(std::apply(g, a)); }); break; }
            default: { sigt g, h; mk([&](auto&&... c) { slott s(std::forward<decltype(c)>(c)...); g.connect(s); h = std::move(g); for (auto& a : as) rec(std::apply(h, a)); }); break; }
            }
            if (int(got.size()) != calls) fail("HARNESS: %s: %zu results", name, got.size());
            for (int i = 0; i < calls; ++i)
            {
                effects.clear();
                Ret want = std::apply(direct, as[size_t(i)]);
                judge(name, names[how], i, got[size_t(i)], ge[size_t(i)], want, effects);
            }
            mix(uint64_t(how)); for (auto& a : ge) for (long x : a) mix(uint64_t(x));
        }
        template<typename S, typename T> static opt::optional<Ret> call(S& s, T& t) { return call_i(s, t, std::index_sequence_for<A...>()); }
        template<typename S, typename T, size_t... I> static opt::optional<Ret> call_i(S& s, T& t, std::index_sequence<I...>)
        {
            auto copy = t; (void)copy;
            return s(static_cast<A&&>(std::get<I>(copy))...);
        }
    };
    // results of type void: only the effects are compared, and the emission returns a disengaged optional
    template<typename... A> struct tester<void(A...)>
    {
        using sigt = sig::signal<void(A...)>;
        using slott = sig::slot<void(A...)>;
        template<typename Direct, typename Make, typename Args> static void run(const char* name, Direct direct, Make mk, Args args)
        {
            tr("%s", name);
            count("forms");
            int how = int(R.below(4)), calls = 1 + int(R.below(4));
            std::vector<std::vector<long>> ge;
            std::vector<typename std::decay<decltype(args(0))>::type> as;
            for (int i = 0; i < calls; ++i) as.push_back(args(int(R.below(1000)) - 200));
            tr("via %d, %d calls", how, calls);
            effects.clear();
            auto rec = [&](opt::optional<void> r) { if (r || r.has_value()) fail("%s: a void slot yields an engaged optional", name); ge.push_back(effects); effects.clear(); };
            switch (how)
            {
            case 0: { sigt s; mk([&](auto&&... c) { s.connect(std::forward<decltype(c)>(c)...); }); for (auto& a : as) rec(std::apply(s, a)); break; }
            case 1: { sigt s; mk([&](auto&&... c) { auto k = s.connect_scoped(std::forward<decltype(c)>(c)...); for (auto& a : as) rec(std::apply(s, a)); }); break; }
            case 2: { sigt s; mk([&](auto&&... c) { slott x(std::forward<decltype(c)>(c)...); s.connect(x); for (auto& a : as) rec(std::apply(s, a)); }); break; }
            default: { mk([&](auto&&... c) { slott s(std::forward<decltype(c)>(c)...); slott t(s); for (auto& a : as) rec(call(t, a)); }); break; }
            }
            if (int(ge.size()) != calls) fail("HARNESS: %s: %zu results", name, ge.size());
            for (int i = 0; i < calls; ++i)
            {
                effects.clear();
                std::apply(direct, as[size_t(i)]);
                ++judged;
                if (ge[size_t(i)] != effects) fail("%s, call %d: %zu effects, a direct call has %zu (or they differ)", name, i, ge[size_t(i)].size(), effects.size());
            }
            mix(uint64_t(how)); for (auto& a : ge) for (long x : a) mix(uint64_t(x));
        }
        template<typename S, typename T> static opt::optional<void> call(S& s, T& t) { return call_i(s, t, std::index_sequence_for<A...>()); }
        template<typename S, typename T, size_t... I> static opt::optional<void> call_i(S& s, T& t, std::index_sequence<I...>)
        {
            auto copy = t; (void)copy;
            return s(static_cast<A&&>(std::get<I>(copy))...);
        }
    };

    // ---- subjects -----------------------------------------------------------------------------------------------------
    struct Second { int s = 50; virtual ~Second() {} int sec(int x) { eff(600 + x); return s + x; } virtual int vsec(int x) { eff(610); return s - x; } };
    struct O
    {
        int v = 3; int w = 9; const int cv = 12; static int st(int x) { eff(700); return x * 3; }
        std::string str = "member";
        explicit O(int a = 3) : v(a) {}
        O(const O&) = default;
        virtual ~O() {}
        int f(int x) { eff(x); v += 1; return v + x; }
        int cf(int x) const { eff(10 + v); return v * x; }
        int nf(int x) noexcept { eff(20); return v - x; }
        int lf(int x) & { eff(21); return v ^ x; }
        int over(int x) { eff(30); return x; }
        int over(int x) const { eff(31); return -x; }
        int over(double x) { eff(32); return int(x) + 1; }
        virtual int vf(int x) { eff(40); return x; }
        virtual int vcf(int x) const { eff(41); return x + v; }
        void vo(int x) { eff(x * 7 + v); }
        int zero(int) { eff(43); return 0; }
        bool no(int) { eff(44); return false; }
        std::string es(int) { eff(45); return std::string(); }
        int& ref(int) { eff(46); return w; }
        const std::string& sref(int x) const { eff(47 + x); return str; }
        int two(int a, int b) { eff(a - b); return a * 100 + b; }
        int none() { eff(48); return v * 2; }
        int dflt(int x, int y = 5) { eff(y); return x + y; }
    };
    struct D : Second, O // O is not at offset 0
    {
        int extra = 77;
        explicit D(int a = 4) : O(a) {}
        int vf(int x) override { eff(140); return -x + extra; }
        int vcf(int x) const override { eff(141); return x - v; }
        int vsec(int x) override { eff(142); return s * 2 - x; }
        int own(int x) { eff(143); return extra + x; }
    };
    struct V : virtual O { explicit V(int a = 6) : O(a) {} int vf(int x) override { eff(150); return x * 5; } };

    using table = std::vector<void (*)()>;
    extern const table t0, t1, t2, t3, t4, t5;
    inline std::tuple<int> one(int x) { return std::tuple<int>(x); }
}

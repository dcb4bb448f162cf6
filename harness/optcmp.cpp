// C19: every comparison operator, for every pair of operands over small sets of values, every operand form and several types, is compared
// with the order of std::optional<int> over the ranks of the values.
#include "vf.hpp"
#include <optional.hpp>
#include <algorithm>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
using namespace vf;

namespace
{
    uint64_t judged = 0;
    uint64_t touched = 0;

    // Only has the operators that a comparison with that operator needs; every use is observed.
    struct ranked
    {
        canary c; int r;
        explicit ranked(int x) : c(1), r(x) {}
        void t(const ranked& o) const { c.check("compared"); o.c.check("compared"); ++touched; }
        bool operator==(const ranked& o) const { t(o); return r == o.r; }
        bool operator!=(const ranked& o) const { t(o); return r != o.r; }
        bool operator<(const ranked& o) const { t(o); return r < o.r; }
        bool operator>(const ranked& o) const { t(o); return r > o.r; }
        bool operator<=(const ranked& o) const { t(o); return r <= o.r; }
        bool operator>=(const ranked& o) const { t(o); return r >= o.r; }
    };
    enum class level { low, mid, high };
    int table[8];

    // The ranks (and only the ranks) decide: 0, 1, 2, 3 for four values in ascending order, the first of which looks empty.
    template<typename T> struct values;
    template<> struct values<int> { static std::vector<int> get() { return { -7, 0, 1, 2147483647 }; } };
    template<> struct values<unsigned char> { static std::vector<unsigned char> get() { return { 0, 1, 2, 255 }; } };
    template<> struct values<double> { static std::vector<double> get() { return { -1e300, 0.0, 0.5, 1e9 }; } };
    template<> struct values<bool> { static std::vector<bool> get() { return { false, true }; } };
    template<> struct values<level> { static std::vector<level> get() { return { level::low, level::mid, level::high }; } };
    template<> struct values<const int*> { static std::vector<const int*> get() { return { table, table + 1, table + 2, table + 7 }; } };
    template<> struct values<std::string> { static std::vector<std::string> get() { return { "", "a", "a string that does not fit into the inline buffer", "b" }; } };
    template<> struct values<std::pair<int, std::string>> { static std::vector<std::pair<int, std::string>> get() { return { { 0, "" }, { 0, "x" }, { 1, "" }, { 1, "y" } }; } };
    template<> struct values<std::vector<int>> { static std::vector<std::vector<int>> get() { return { {}, { 0 }, { 0, 0 }, { 1 } }; } };
    template<> struct values<ranked> { static std::vector<ranked> get() { return { ranked(0), ranked(1), ranked(2), ranked(3) }; } };
    template<> struct values<long long> { static std::vector<long long> get() { return { -(1LL << 62), 0, 1LL << 33, 1LL << 62 }; } };

    uint64_t salt = 0;
    rng R(1);
    // rank -1: absent
    template<typename A, typename B> void six(const char* type, const char* form, const A& a, int ra, const B& b, int rb)
    {
        struct { const char* op; bool got, want; } r[] = {
            { "==", a == b, ra == rb }, { "!=", a != b, ra != rb }, { "<", a < b, ra < rb }, { ">", a > b, ra > rb }, { "<=", a <= b, ra <= rb }, { ">=", a >= b, ra >= rb },
        };
        for (auto& x : r)
        {
            ++judged;
            ++st().evaluations;
            uint64_t h = salt; for (const char* p = form; *p; ++p) h = h * 1099511628211ull + uint64_t(*p);
            st().distinct.insert(((h * 64 + uint64_t(ra + 1)) * 64 + uint64_t(rb + 1)) * 8 + uint64_t(&x - r));
            if (st().samples.size() < 4 && judged % 100003 == 0) st().samples.push_back(std::string(type) + ", " + form + ": operand " + std::to_string(ra) + " " + x.op + " operand " + std::to_string(rb) + " is " + (x.got ? "true" : "false"));
            if (x.got != x.want) fail("%s, %s: operand %d %s operand %d is %s (operand -1 is absent)", type, form, ra, x.op, rb, x.got ? "true" : "false");
        }
    }
    template<typename O, typename V> void with_values(const char* type, const char* form, const O& o, int r, const std::vector<V>& v, size_t j)
    {
        const V x = v[j];
        six(type, (std::string(form) + " with value").c_str(), o, r, x, int(j));
        six(type, (std::string("value with ") + form).c_str(), x, int(j), o, r);
    }
    template<typename O> void with_null(const char* type, const char* form, const O& o, int r)
    {
        six(type, (std::string(form) + " with nullopt").c_str(), o, r, opt::nullopt, -1);
        six(type, (std::string("nullopt with ") + form).c_str(), opt::nullopt, -1, o, r);
    }
    // how an engaged or disengaged optional came about must not matter
    template<typename T> opt::optional<T> build(const std::vector<T>& v, int r, int how)
    {
        opt::optional<T> o;
        T other(v[size_t(how) % v.size()]);
        if (how & 1) { o = opt::optional<T>(other); o.reset(); }       // remnants of another value in the storage
        if (how & 2) o = opt::optional<T>(other);
        if (r < 0) { if (how & 4) o = opt::nullopt; else o = opt::optional<T>(); if (how & 8) { opt::optional<T> q(o); return q; } return o; }
        T x(v[size_t(r)]);
        if (how & 4) o = x; else o.emplace(x);
        return o;
    }
    template<typename T> void type(const char* name, const std::vector<T> v = values<T>::get())
    {
        const std::vector<T> w = v; // equal, but other objects
        salt = 7; for (const char* p = name; *p; ++p) salt = salt * 31 + uint64_t(*p);
        std::vector<std::unique_ptr<T>> objs, objs2;
        for (size_t i = 0; i < v.size(); ++i) { objs.emplace_back(new T(v[i])); objs2.emplace_back(new T(w[i])); }
        const int n = int(v.size());
        for (int how = 0; how < 16; ++how)
        for (int i = -1; i < n; ++i)
        {
            const opt::optional<T> a = build(v, i, how);
            opt::optional<T&> ra; if (i >= 0) ra.emplace(*objs[size_t(i)]);
            opt::optional<const T&> ca; if (i >= 0) ca.emplace(*objs[size_t(i)]);
            tr("%s %d nullopt", name, i);
            with_null(name, "optional", a, i); with_null(name, "optional reference", ra, i); with_null(name, "optional const reference", ca, i);
            for (int j = -1; j < n; ++j)
            {
                for (int how2 = 0; how2 < 16; how2 += 5)
                {
                    const opt::optional<T> b = build(w, j, how2 ^ how);
                    six(name, "optional with optional", a, i, b, j);
                }
                opt::optional<T&> rb; if (j >= 0) rb.emplace(*objs2[size_t(j)]);
                six(name, "optional references", ra, i, rb, j);
                if (j >= 0) { opt::optional<const T&> cb(*objs2[size_t(j)]); six(name, "optional const references", ca, i, cb, j); }
                if (i == j) { six(name, "optional with itself", a, i, a, i); six(name, "reference with itself", ra, i, ra, i); }
                if (j >= 0)
                {
                    with_values<opt::optional<T>, T>(name, "optional", a, i, w, size_t(j));
                    with_values<opt::optional<T&>, T>(name, "optional reference", ra, i, w, size_t(j));
                    with_values<opt::optional<const T&>, T>(name, "optional const reference", ca, i, w, size_t(j));
                }
            }
        }
    }
    // Values that only have == can be compared for equality.
    struct only_eq { int r; bool operator==(const only_eq& o) const { return r == o.r; } bool operator!=(const only_eq& o) const { return r != o.r; } };
    void equality_only()
    {
        for (int i = -1; i < 3; ++i) for (int j = -1; j < 3; ++j)
        {
            opt::optional<only_eq> a, b; if (i >= 0) a = only_eq{ i }; if (j >= 0) b = only_eq{ j };
            tr("equality %d %d", i, j);
            judged += 2;
            if ((a == b) != (i == j) || (a != b) != (i != j)) fail("equality of optionals of a type that only has ==");
            if (j >= 0) { only_eq v{ j }; if ((a == v) != (i == j) || (v == a) != (i == j) || (a != v) != (i != j) || (v != a) != (i != j)) fail("equality of an optional with a value of a type that only has =="); }
        }
    }
    template<typename T, typename F> void random_values(const char* name, F f)
    {
        std::vector<T> v; size_t n = 2 + R.below(5);
        while (v.size() < n) { T x = f(); bool dup = false; for (auto& y : v) dup = dup || y == x; if (!dup) v.push_back(x); }
        std::sort(v.begin(), v.end());
        for (auto& x : v) { std::string s; if constexpr (std::is_arithmetic<T>::value) s = std::to_string(x); else s = x; note("%s value %s", name, s.c_str()); }
        type<T>(name, v);
    }
    template<typename T> void run(const char* n) { type<T>(n); }
    const struct { const char* n; void (*f)(const char*); } forms[] = {
        { "int", run<int> }, { "unsigned char", run<unsigned char> }, { "double", run<double> }, { "bool", run<bool> }, { "enum", run<level> }, { "pointer", run<const int*> }, { "string", run<std::string> },
        { "pair", run<std::pair<int, std::string>> }, { "vector", run<std::vector<int>> }, { "token", run<ranked> }, { "long long", run<long long> }, { "equality only", [](const char*) { equality_only(); } },
    };
}
int main(int argc, char** argv)
{
    init(argc, argv);
    const long n = long(sizeof forms / sizeof *forms);
    run_cases("comparisons", n + vf::opt().cases, [&](long k) {
        uint64_t before = judged;
        if (k < n) forms[k].f(forms[k].n);
        else
        {
            R = rng(case_seed(k, 19));
            switch (R.below(5))
            {
            case 0: random_values<int>("random int", [] { return int(R.next()) >> R.below(31); }); break;
            case 1: random_values<double>("random double", [] { return double(int64_t(R.next())) / double(1 + R.below(1000000)); }); break;
            case 2: random_values<std::string>("random string", [] { std::string x; for (uint32_t i = R.below(25); i; --i) x += char('a' + R.below(2)); return x; }); break;
            case 3: random_values<long long>("random long long", [] { return (long long)(R.next()); }); break;
            default: random_values<unsigned char>("random byte", [] { return (unsigned char)(R.next()); }); break;
            }
        }
        (void)before;
    });
    count("judged_events", judged); count("value_comparisons", touched);
    summary();
}

// C03: argument fidelity. For many parameter types: by-value arguments arrive intact in every slot whatever earlier slots
// do with their copies and the caller's variable keeps its value; references denote the caller's object.
#include "vf.hpp"
#include <signals.hpp>
#include <array>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

using namespace vf;

namespace args_shared
{
    extern rng R; extern uint64_t judged;
#if PART == 0
    rng R(1); uint64_t judged = 0;
#endif
}
using args_shared::R; using args_shared::judged;

namespace
{

    // ---- parameter types: make a value from a token, read it back, destroy its content through a copy ----------------
    struct Val // class type with observable moves
    {
        canary c; std::string s; bool moved = false;
        explicit Val(int t = 0) : c(7), s("val-" + std::to_string(t) + "-with-a-long-tail-to-defeat-sso") {}
        Val(const Val& o) : c(o.c), s(o.s), moved(o.moved) {}
        Val(Val&& o) noexcept : c(std::move(o.c)), s(std::move(o.s)), moved(o.moved) { o.moved = true; o.s = "moved"; }
        Val& operator=(const Val& o) { c = o.c; s = o.s; moved = o.moved; return *this; }
        Val& operator=(Val&& o) noexcept { if (this != &o) { c = std::move(o.c); s = std::move(o.s); moved = o.moved; o.moved = true; o.s = "moved"; } return *this; }
        bool operator==(const Val& o) const { c.check("compared"); o.c.check("compared"); return s == o.s && moved == o.moved; }
    };
    struct Big { int head; std::array<int, 1000> a; int tail; bool operator==(const Big& o) const { return head == o.head && a == o.a && tail == o.tail; } };
    struct alignas(64) Over { int v; char pad[100]; bool operator==(const Over& o) const { return v == o.v && pad[50] == o.pad[50]; } };
    enum class En : short { zero };
    struct Agg { std::string a; int b; std::vector<std::string> c; bool operator==(const Agg& o) const { return a == o.a && b == o.b && c == o.c; } };
    struct FnBox { std::function<int()> f; bool operator==(const FnBox& o) const { return bool(f) == bool(o.f) && (!f || f() == o.f()); } };
    struct ConvOnly { int v; ConvOnly(int x) : v(x) {} operator int() const { return v; } bool operator==(const ConvOnly& o) const { return v == o.v; } };

    template<int N> struct Heavy { char front[N]; std::string s; std::unique_ptr<int> p; char back[N]; // large, with a move that empties the source
        explicit Heavy(int t) : s(t % 2 ? "" : "heavy-" + std::to_string(t) + "-with-a-long-tail-to-defeat-sso"), p(new int(t)) { std::memset(front, t, N); std::memset(back, t + 1, N); }
        Heavy(const Heavy& o) : s(o.s), p(o.p ? new int(*o.p) : nullptr) { std::memcpy(front, o.front, N); std::memcpy(back, o.back, N); }
        Heavy(Heavy&& o) noexcept(N % 2 == 0) : s(std::move(o.s)), p(std::move(o.p)) { std::memcpy(front, o.front, N); std::memcpy(back, o.back, N); std::memset(o.back, 0, N); }
        Heavy& operator=(Heavy o) { s = o.s; p = std::move(o.p); std::memcpy(front, o.front, N); std::memcpy(back, o.back, N); return *this; }
        bool operator==(const Heavy& o) const { return s == o.s && bool(p) == bool(o.p) && (!p || *p == *o.p) && !std::memcmp(front, o.front, N) && !std::memcmp(back, o.back, N); } };
    struct NoMove { std::string s; NoMove(int t) : s(std::to_string(t) + "-without-a-move-constructor-at-all") {} NoMove(const NoMove& o) : s(o.s) {} NoMove& operator=(const NoMove& o) { s = o.s; return *this; } bool operator==(const NoMove& o) const { return s == o.s; } };
    struct Greedy { std::string s; Greedy(int t) : s(std::to_string(t) + "-whose-copy-of-a-nonconst-source-takes") {} Greedy(Greedy&& o) : s(std::move(o.s)) { o.s = "taken"; } Greedy(const Greedy& o) : s(o.s) {} Greedy& operator=(Greedy&& o) { s = std::move(o.s); o.s = "taken"; return *this; } Greedy& operator=(const Greedy& o) { s = o.s; return *this; } bool operator==(const Greedy& o) const { return s == o.s; } };

    template<typename T> struct io;
    std::string lng(int t) { return "string-" + std::to_string(t) + "-that-is-long-enough-for-the-heap"; }
    template<> struct io<int> { static int make(int t) { return t; } static const char* name() { return "int"; } };
    template<> struct io<bool> { static bool make(int t) { return t & 1; } static const char* name() { return "bool"; } };
    template<> struct io<double> { static double make(int t) { return t * 0.25; } static const char* name() { return "double"; } };
    template<> struct io<unsigned long long> { static unsigned long long make(int t) { return 0xdeadbeef00000000ull + unsigned(t); } static const char* name() { return "ull"; } };
    template<> struct io<char> { static char make(int t) { return char('a' + t % 26); } static const char* name() { return "char"; } };
    template<> struct io<En> { static En make(int t) { return En(t); } static const char* name() { return "enum"; } };
    template<> struct io<const char*> { static const char* make(int t) { static const char* p[] = { "a", "bc", "def", "" }; return p[t & 3]; } static const char* name() { return "char*"; } };
    template<> struct io<std::string> { static std::string make(int t) { return lng(t); } static const char* name() { return "string"; } };
    template<> struct io<Val> { static Val make(int t) { return Val(t); } static const char* name() { return "class"; } };
    template<> struct io<Big> { static Big make(int t) { Big b; b.head = t; for (int i = 0; i < 1000; ++i) b.a[size_t(i)] = t + i; b.tail = -t; return b; } static const char* name() { return "big"; } };
    template<> struct io<Over> { static Over make(int t) { Over o; std::memset(&o, 0, sizeof o); o.v = t; o.pad[50] = char(t); return o; } static const char* name() { return "over-aligned"; } };
    template<> struct io<std::vector<std::string>> { static std::vector<std::string> make(int t) { return { lng(t), lng(t + 1), "" }; } static const char* name() { return "vector"; } };
    template<> struct io<std::map<int, std::string>> { static std::map<int, std::string> make(int t) { return { { t, lng(t) }, { t + 1, "x" } }; } static const char* name() { return "map"; } };
    template<> struct io<std::shared_ptr<int>> { static std::shared_ptr<int> make(int t) { return std::make_shared<int>(t); } static const char* name() { return "shared_ptr"; } };
    template<> struct io<std::weak_ptr<int>> { static std::weak_ptr<int> make(int) { return {}; } static const char* name() { return "weak_ptr"; } };
    template<> struct io<FnBox> { static FnBox make(int t) { std::string s = lng(t); return FnBox{ [s, t] { return int(s.size()) + t; } }; } static const char* name() { return "function"; } };
    template<> struct io<Agg> { static Agg make(int t) { return Agg{ lng(t), t, { lng(t), "q" } }; } static const char* name() { return "aggregate"; } };
    template<> struct io<std::tuple<std::string>> { static std::tuple<std::string> make(int t) { return std::tuple<std::string>(lng(t)); } static const char* name() { return "tuple1"; } };
    template<> struct io<std::pair<std::string, int>> { static std::pair<std::string, int> make(int t) { return { lng(t), t }; } static const char* name() { return "pair"; } };
    template<> struct io<opt::optional<std::string>> { static opt::optional<std::string> make(int t) { return t % 3 ? opt::optional<std::string>(lng(t)) : opt::optional<std::string>(); } static const char* name() { return "optional"; } };
    template<int N> struct io<Heavy<N>> { static Heavy<N> make(int t) { return Heavy<N>(t); } static const char* name() { return N < 20 ? "heavy small" : N < 100 ? "heavy" : "heavy large"; } };
    template<> struct io<NoMove> { static NoMove make(int t) { return NoMove(t); } static const char* name() { return "without move"; } };
    template<> struct io<Greedy> { static Greedy make(int t) { return Greedy(t); } static const char* name() { return "throwing move"; } };
    template<> struct io<std::array<std::string, 4>> { static std::array<std::string, 4> make(int t) { return { { lng(t), "", lng(t + 1), "x" } }; } static const char* name() { return "array of strings"; } };
    template<> struct io<std::list<std::string>> { static std::list<std::string> make(int t) { return { lng(t), "y" }; } static const char* name() { return "list"; } };
    template<> struct io<std::wstring> { static std::wstring make(int t) { return std::wstring(size_t(20 + t % 50), L'w'); } static const char* name() { return "wstring"; } };
    template<> struct io<std::vector<int>> { static std::vector<int> make(int t) { return std::vector<int>(size_t(t % 7), t); } static const char* name() { return "vector<int>"; } };

    template<typename T> void same(const T& got, const T& want, const char* how, int slot)
    {
        guard_harness g;
        ++judged;
        if (!(got == want)) fail("parameter type %s: slot %d (%s) did not receive the value the caller passed", io<T>::name(), slot, how);
    }

    template<typename T> void consume(T& v) { T sink(std::move(v)); (void)sink; }
    template<typename T> void overwrite(T& v) { v = io<T>::make(9999); }

    // ---- by value: int(int, T, T) -------------------------------------------------------------------------------------
    template<typename T> struct expect_t { static int n; static const T* a; static const T* b; static int calls; };
    template<typename T> int expect_t<T>::n; template<typename T> const T* expect_t<T>::a; template<typename T> const T* expect_t<T>::b; template<typename T> int expect_t<T>::calls;

    template<typename T> struct Receiver
    {
        int id; int mode;
        int judge(int n, const T& a, const T& b, const char* how)
        {
            using E = expect_t<T>;
            ++E::calls;
            if (n != E::n) fail("parameter type %s: slot %d received %d as its first argument, expected %d", io<T>::name(), id, n, E::n);
            same(a, *E::a, how, id); same(b, *E::b, how, id);
            return id;
        }
        void damage(T& a, T& b)
        {
            switch (mode) { case 0: break; case 1: consume(a); consume(b); break; case 2: overwrite(a); overwrite(b); break; default: std::swap(a, b); consume(a); }
        }
        int value(int n, T a, T b) { int r = judge(n, a, b, "by value"); n = -1; damage(a, b); return r; }
        int cref(int n, const T& a, const T& b) { return judge(n, a, b, "by const reference"); }
        int rref(int n, T&& a, T&& b) { int r = judge(n, a, b, "by rvalue reference"); damage(a, b); return r; }
        int mixed(const int& n, T&& a, T b) { int r = judge(n, a, b, "mixed"); damage(a, b); return r; }
    };

    // combiner that dereferences every slot several times
    struct twice
    {
        using result_type = int;
        template<typename It> int operator()(It f, It l) const { int n = 0; for (; f != l; ++f) { *f; ++n; if (n % 2) { *f; ++n; } } return n; }
    };

    template<typename T, typename Sig> void by_value(Sig& s, bool multi)
    {
        using E = expect_t<T>;
        int n = int(R.below(7));
        std::vector<std::shared_ptr<Receiver<T>>> rs;
        std::vector<Receiver<T>> raws; raws.reserve(8);
        int expected = 0;
        for (int i = 0; i < n; ++i)
        {
            int mode = int(R.below(4));
            int how = int(R.below(8));
            tr("slot %d kind %d mode %d", i, how, mode);
            Receiver<T> r{ i, mode };
            rs.push_back(std::make_shared<Receiver<T>>(r)); raws.push_back(r);
            switch (how)
            {
            case 0: s.connect([r](int k, T a, T b) mutable { return r.value(k, std::move(a), std::move(b)); }); break;
            case 1: s.connect([r](int k, const T& a, const T& b) mutable { return r.cref(k, a, b); }); break;
            case 2: s.connect([r](int k, T&& a, T&& b) mutable { return r.rref(k, std::move(a), std::move(b)); }); break;
            case 3: s.connect(&Receiver<T>::value, &raws.back()); break;
            case 4: s.connect(&Receiver<T>::value, rs.back()); break;
            case 5: s.connect(std::function<int(int, T, T)>([r](int k, T a, T b) mutable { return r.value(k, std::move(a), std::move(b)); })); break;
            case 6: s.connect(&Receiver<T>::mixed, rs.back()); break;
            default: s.connect(&Receiver<T>::rref, std::ref(raws.back())); break;
            }
        }
        expected = multi ? n + (n + 1) / 2 : n;
        for (int rep = 0; rep < 3; ++rep)
        {
            int t = int(R.below(1000));
            T a = io<T>::make(t), b = io<T>::make(t + 7);
            const T wa = a, wb = b; // what must arrive
            E::n = t; E::a = &wa; E::b = &wb; E::calls = 0;
            int how = int(R.below(4));
            tr("emit token %d mode %d", t, how);
            switch (how)
            {
            case 0: s(t, a, b); break;
            case 1: { const T ca = a; s(t, ca, b); if (!(ca == wa)) fail("parameter type %s: the caller's const variable changed", io<T>::name()); break; }
            case 2: s(t, T(a), b); break;
            default: { T c = a; s(t, std::move(c), b); }
            }
            if (multi) { if (E::calls < n) fail("%d of %d slots ran", E::calls, n); }
            else if (E::calls != expected) fail("parameter type %s: %d slots ran, expected %d", io<T>::name(), E::calls, expected);
            if (!(a == wa) || !(b == wb)) fail("parameter type %s: the emission changed the caller's variable", io<T>::name());
            ++judged;
        }
    }
    template<> struct io<ConvOnly>;

    template<typename T> void value_case()
    {
        track_blocks(false);
        tr("by value %s", io<T>::name());
        if (R.chance(1, 3)) { sig::signal<int(int, T, T), twice> s; by_value<T>(s, true); }
        else { sig::signal<int(int, T, T)> s; by_value<T>(s, false); }
        count("by_value_cases");
    }

    // ---- references: R(T&, const T&, T&&) -------------------------------------------------------------------------------
    template<typename T> struct RefState { static T* a; static const T* b; static T* c; static int seen; };
    template<typename T> T* RefState<T>::a; template<typename T> const T* RefState<T>::b; template<typename T> T* RefState<T>::c; template<typename T> int RefState<T>::seen;
    template<typename T> struct RefReceiver
    {
        int id;
        // every slot finds what the previous one wrote and writes the next token
        void on(T& a, const T& b, T&& c)
        {
            using S = RefState<T>;
            ++judged;
            if (&a != S::a) fail("parameter type %s&: slot %d received another object", io<T>::name(), id);
            if (&b != S::b) fail("parameter type const %s&: slot %d received another object", io<T>::name(), id);
            if (&c != S::c) fail("parameter type %s&&: slot %d received another object", io<T>::name(), id);
            if (!(a == io<T>::make(S::seen)) || !(c == io<T>::make(S::seen + 1))) fail("parameter type %s&: slot %d does not see what the previous slot wrote", io<T>::name(), id);
            ++S::seen;
            a = io<T>::make(S::seen); c = io<T>::make(S::seen + 1);
        }
    };
    template<typename T> struct RefGeneric
    {
        RefReceiver<T> r;
        template<typename A, typename B, typename C> void operator()(A&& a, B&& b, C&& c)
        {
            static_assert(std::is_same<A&&, T&>::value && std::is_same<B&&, const T&>::value && std::is_same<C&&, T&&>::value, "value categories");
            r.on(a, b, std::move(c));
        }
    };

    template<typename T> void ref_case()
    {
        using S = RefState<T>;
        tr("references to %s", io<T>::name());
        sig::signal<void(T&, const T&, T&&)> s;
        int n = int(R.below(6));
        std::vector<std::shared_ptr<RefReceiver<T>>> keep; std::vector<RefReceiver<T>> raws; raws.reserve(8);
        for (int i = 0; i < n; ++i)
        {
            RefReceiver<T> r{ i };
            keep.push_back(std::make_shared<RefReceiver<T>>(r)); raws.push_back(r);
            int how = int(R.below(6));
            tr("slot %d kind %d", i, how);
            switch (how)
            {
            case 0: s.connect([r](T& a, const T& b, T&& c) mutable { r.on(a, b, std::move(c)); }); break;
            case 1: s.connect(&RefReceiver<T>::on, keep.back()); break;
            case 2: s.connect(&RefReceiver<T>::on, &raws.back()); break;
            case 3: s.connect(std::function<void(T&, const T&, T&&)>([r](T& a, const T& b, T&& c) mutable { r.on(a, b, std::move(c)); })); break;
            case 4: s.connect(&RefReceiver<T>::on, r); break;
            default: s.connect(RefGeneric<T>{ r }); break;
            }
        }
        for (int rep = 0; rep < 2; ++rep)
        {
            int t = int(R.below(100));
            T a = io<T>::make(t), c = io<T>::make(t + 1); const T b = io<T>::make(t);
            S::a = &a; S::b = &b; S::c = &c; S::seen = t;
            tr("emit %d", t);
            s(a, b, std::move(c));
            if (S::seen != t + n) fail("parameter type %s&: %d slots ran, expected %d", io<T>::name(), S::seen - t, n);
            if (!(a == io<T>::make(t + n))) fail("parameter type %s&: the caller does not see what the slots wrote", io<T>::name());
            if (!(b == io<T>::make(t))) fail("parameter type const %s&: the caller's object changed", io<T>::name());
            ++judged;
        }
        count("reference_cases");
    }

    // ---- move-only, polymorphic, conversions, many and no arguments, nested emissions ----------------------------------
    struct Base { virtual ~Base() {} virtual int who() const { return 1; } int pad = 5; };
    struct Derived : Base { int who() const override { return 2; } };

    void special_case()
    {
        switch (R.below(7))
        {
        case 0:
        {
            tr("move-only argument");
            sig::signal<void(std::unique_ptr<std::string>)> s;
            int n = int(R.below(4)), calls = 0, t = int(R.below(100)); bool last = R.chance(1, 2); std::string got;
            for (int i = 0; i < n; ++i) s.connect([&](const std::unique_ptr<std::string>& p) { ++calls; if (!p || *p != lng(t)) fail("slot %d did not receive the move-only argument", calls); });
            if (last) s.connect([&](std::unique_ptr<std::string> p) { ++calls; if (!p) fail("the owning slot received nothing"); got = *p; });
            s(std::unique_ptr<std::string>(new std::string(lng(t))));
            ++judged;
            if (calls != n + last || (last && got != lng(t))) fail("move-only argument was not delivered");
            break;
        }
        case 1:
        {
            tr("polymorphic reference argument");
            sig::signal<int(Base&, const Base&, Base*)> s;
            Derived d; Base b; int calls = 0, n = 1 + int(R.below(4));
            for (int i = 0; i < n; ++i) s.connect([&](Base& x, const Base& y, Base* z) { ++calls; if (&x != &d || x.who() != 2) fail("a Base& argument was sliced"); if (&y != &b || y.who() != 1) fail("const Base& argument is another object"); if (z != &d) fail("pointer argument changed"); x.pad++; return 0; });
            s(d, b, &d);
            ++judged;
            if (calls != n || d.pad != 5 + n) fail("polymorphic reference argument: %d calls, pad %d", calls, d.pad);
            break;
        }
        case 2:
        {
            tr("converting parameters");
            sig::signal<void(int, const char*, Derived&)> s;
            int calls = 0, t = int(R.below(100)); Derived d;
            s.connect([&](long a, std::string b, Base& c) { ++calls; if (a != t || b != "text" || &c != &d) fail("converted arguments differ"); b.clear(); });
            s.connect([&](ConvOnly a, const std::string& b, const Base& c) { ++calls; if (a.v != t || b != "text" || &c != &d) fail("converted arguments differ"); });
            s.connect([&](double a, const char* const& b, Derived& c) { ++calls; if (a != t || std::string(b) != "text" || &c != &d) fail("converted arguments differ"); });
            s(t, "text", d);
            ++judged;
            if (calls != 3) fail("%d of 3 slots ran", calls);
            break;
        }
        case 3:
        {
            tr("ten arguments");
            using Sig = sig::signal<void(int, std::string, double, char, const std::string&, std::vector<int>, bool, std::string&, long, std::string)>;
            Sig s; int calls = 0, t = int(R.below(50)), n = 1 + int(R.below(4));
            std::string cr = lng(3), mr = lng(4);
            for (int i = 0; i < n; ++i)
                s.connect([&](int a, std::string b, double c, char d, const std::string& e, std::vector<int> f, bool g, std::string& h, long k, std::string l) {
                    ++calls;
                    if (a != t || b != lng(t) || c != t * .5 || d != 'd' || &e != &cr || f != std::vector<int>(size_t(t), 7) || g != (t % 2 == 0) || &h != &mr || k != t * 1000L || l != lng(t + 1)) fail("one of ten arguments differs in slot %d", calls);
                    b.clear(); f.clear(); l = "gone";
                });
            s(t, lng(t), t * .5, 'd', cr, std::vector<int>(size_t(t), 7), t % 2 == 0, mr, t * 1000L, lng(t + 1));
            ++judged;
            if (calls != n) fail("%d of %d slots ran", calls, n);
            break;
        }
        case 4:
        {
            tr("no arguments");
            sig::signal<int()> s; int calls = 0, n = int(R.below(4));
            for (int i = 0; i < n; ++i) s.connect([&] { return ++calls; });
            auto r = s();
            ++judged;
            if (calls != n || (n ? !r || *r != n : bool(r))) fail("signal without arguments: %d calls", calls);
            break;
        }
        case 5:
        {
            tr("nested emissions");
            sig::signal<void(int, std::string)> s; int depth = 3, calls = 0;
            std::string expect[8];
            for (int i = 0; i < 3; ++i)
                s.connect([&, i](int d, std::string x) {
                    ++calls;
                    if (x != lng(100 + d)) fail("slot %d at depth %d received the argument of another emission", i, d);
                    std::string mine = std::move(x);
                    if (i == 1 && d < depth) s(d + 1, lng(101 + d));
                    if (mine != lng(100 + d)) fail("a nested emission changed the argument of the outer one");
                });
            s(0, lng(100));
            ++judged;
            if (calls != 3 * (depth + 1)) fail("nested emissions: %d calls", calls);
            break;
        }
        default:
        {
            tr("copies per argument");
            // a copy per slot is enough for by-value delivery; shared ownership must be given back
            sig::signal<void(std::shared_ptr<int>)> s; int n = int(R.below(5));
            auto p = std::make_shared<int>(4);
            std::vector<std::shared_ptr<int>> kept;
            for (int i = 0; i < n; ++i) s.connect([&](std::shared_ptr<int> q) { if (q != p) fail("shared_ptr argument differs"); kept.push_back(std::move(q)); });
            s(p);
            ++judged;
            if (p.use_count() != long(1 + kept.size()) || int(kept.size()) != n) fail("use_count %ld after an emission to %d slots that each keep a copy", p.use_count(), n);
        }
        }
        count("special_cases");
    }
}

// The instantiations are spread over several translation units (-DPART=n).
using fn = void (*)();
namespace args_parts
{
    extern const std::vector<fn> p0, p1, p2, p3, p4, p5, p6, p7, p8, p9;
#if PART == 0
    const std::vector<fn> p0 = { value_case<int>, value_case<bool>, value_case<double>, value_case<const char*> };
#elif PART == 1
    const std::vector<fn> p1 = { value_case<unsigned long long>, value_case<char>, value_case<En>, value_case<std::string> };
#elif PART == 2
    const std::vector<fn> p2 = { value_case<Val>, value_case<Big>, value_case<Over> };
#elif PART == 3
    const std::vector<fn> p3 = { value_case<std::vector<std::string>>, value_case<std::map<int, std::string>>, value_case<std::shared_ptr<int>> };
#elif PART == 4
    const std::vector<fn> p4 = { value_case<FnBox>, value_case<Agg>, value_case<std::tuple<std::string>> };
#elif PART == 5
    const std::vector<fn> p5 = { value_case<std::pair<std::string, int>>, value_case<opt::optional<std::string>>, ref_case<int>, ref_case<double>, ref_case<std::string>, ref_case<Val> };
#elif PART == 6
    const std::vector<fn> p6 = { ref_case<Big>, ref_case<Over>, ref_case<std::vector<std::string>>, ref_case<Agg>, ref_case<std::pair<std::string, int>>, special_case, special_case, special_case, special_case, special_case };
#elif PART == 7
    const std::vector<fn> p7 = { value_case<Heavy<9>>, value_case<Heavy<40>>, value_case<Heavy<301>>, value_case<Heavy<6000>> };
#elif PART == 8
    const std::vector<fn> p8 = { value_case<NoMove>, value_case<Greedy>, value_case<std::array<std::string, 4>>, value_case<std::list<std::string>> };
#elif PART == 9
    const std::vector<fn> p9 = { value_case<std::wstring>, value_case<std::vector<int>>, ref_case<Heavy<40>>, ref_case<Greedy> };
#endif
}
#if PART == 0
int main(int argc, char** argv)
{
    init(argc, argv);
    using namespace args_parts;
    std::vector<fn> all;
    for (auto* p : { &p0, &p1, &p2, &p3, &p4, &p5, &p6, &p7, &p8, &p9 }) all.insert(all.end(), p->begin(), p->end());
    run_cases("args", vf::opt().cases, [&](long k) {
        R = rng(case_seed(k, 3));
        uint64_t before = judged;
        all[R.below(uint32_t(all.size()))]();
        if (!reg().live.empty()) fail("%zu argument copies are alive after the emission", reg().live.size());
        end_case(judged > before);
    });
    count("judged_events", judged);
    summary();
}
#endif

#include "kinds.hpp"
namespace kinds
{
#if PART == 0
    rng R(1);
    std::vector<long> effects;
    uint64_t judged = 0;
#endif
    namespace
    {
        using I = tester<int(int)>;
        using Vd = tester<void(int)>;

        // ---- functions and function objects --------------------------------------------------------------------------
        int fr(int x) { eff(x + 1); return x * 2; }
        int fr_noexcept(int x) noexcept { eff(x + 2); return x * 3; }
        long fr_long(short x) { eff(x); return long(x) * 4; }
        void fr_void(int x) { eff(x + 5); }
        int fr_cref(const int& x) { eff(x + 6); return x - 1; }
        int& fr_ref(int x) { static int y; y = x + 4; eff(x); return y; }
        char fr_char(int x) { return char(x & 63); }
        struct Counter { int n = 0; int operator()(int x) { eff(++n); return x + n; } };
        struct Both { int n = 1; int operator()(int x) { eff(1); return x + n; } int operator()(int x) const { eff(2); return x - n; } };
        struct Quals { int operator()(int x) & { eff(1); return x; } int operator()(int x) && { eff(2); return -x; } };
        struct Many { int operator()(int x) const { eff(1); return x; } int operator()(double x) const { eff(2); return int(x) * 2; } int operator()(std::string) const { return 0; } };
        struct Def { int operator()(int x, int y = 3) const { eff(y); return x + y; } };
        struct Poly { virtual ~Poly() {} virtual int operator()(int x) { eff(9); return x; } };
        struct PolyD : Poly { int k = 2; int operator()(int x) override { eff(10); return x * k; } };
        struct BigF { int a[300]; BigF() { for (int i = 0; i < 300; ++i) a[i] = i; } int operator()(int x) { long s = 0; for (int i : a) s += i; eff(s); return x + int(s); } };
        struct alignas(64) OverF { int k = 8; int operator()(int x) { eff(long(reinterpret_cast<uintptr_t>(this) % 64)); return x + k; } };
        struct Conv { using fp = int(*)(int); operator fp() const { return &fr; } };

#if PART == 0
        void a00() { I::run("free function", fr, [](auto k) { k(fr); }, one); }
        void a01() { I::run("function pointer", fr, [](auto k) { int (*p)(int) = fr; k(p); }, one); }
        void a02() { I::run("const function pointer", fr, [](auto k) { int (*const p)(int) = &fr; k(p); }, one); }
        void a03() { I::run("noexcept function", fr_noexcept, [](auto k) { k(fr_noexcept); }, one); }
        void a04() { I::run("function with other types", fr_long, [](auto k) { k(&fr_long); }, one); }
        void a05() { I::run("function taking const&", fr_cref, [](auto k) { k(fr_cref); }, one); }
        void a06() { I::run("function returning a reference", fr_ref, [](auto k) { k(fr_ref); }, one); }
        void a07() { I::run("function returning char", fr_char, [](auto k) { k(fr_char); }, one); }
        void a08() { I::run("stateful functor", Counter(), [](auto k) { Counter c; k(c); }, one); }
        void a09() { I::run("stateful functor from const", Counter(), [](auto k) { const Counter c; k(c); }, one); }
        void a10() { I::run("stateful functor rvalue", Counter(), [](auto k) { k(Counter()); }, one); }
        void a11() { Both b; I::run("const/non-const operator()", [b](int x) mutable { return b(x); }, [b](auto k) { k(b); }, one); }
        void a12() { Quals q; I::run("ref-qualified operator()", [q](int x) mutable { return q(x); }, [](auto k) { k(Quals()); }, one); }
        void a13() { I::run("overloaded operator()", Many(), [](auto k) { k(Many()); }, one); }
        void a14() { I::run("default argument", Def(), [](auto k) { k(Def()); }, one); }
        void a15() { I::run("derived functor", PolyD(), [](auto k) { k(PolyD()); }, one); }
        void a16() { I::run("large functor", BigF(), [](auto k) { BigF b; k(b); }, one); }
        void a17() { I::run("over-aligned functor", [](int x) { eff(0); return x + 8; }, [](auto k) { OverF f; k(f); }, one); }
        void a18() { I::run("object convertible to function pointer", fr, [](auto k) { k(Conv()); }, one); }
        void a19() { I::run("lambda", fr, [](auto k) { k([](int x) { return fr(x); }); }, one); }
        const table t[] = { { a00, a01, a02, a03, a04, a05, a06, a07, a08, a09, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19 } };
#elif PART == 1
        void a20() { std::string s = "captured-string-longer-than-sso"; I::run("capturing lambda", [s](int x) { eff(long(s.size())); return x + int(s.size()); }, [&](auto k) { k([s](int x) { eff(long(s.size())); return x + int(s.size()); }); }, one); }
        void a21() { I::run("mutable lambda", [n = 0](int x) mutable { eff(++n); return x * n; }, [&](auto k) { k([n = 0](int x) mutable { eff(++n); return x * n; }); }, one); }
        void a22() { I::run("generic lambda", [](auto x) { eff(sizeof x); return x + 1; }, [&](auto k) { k([](auto x) { eff(sizeof x); return x + 1; }); }, one); }
        void a23() { I::run("variadic lambda", [](auto... x) { eff(sizeof...(x)); return (x + ... + 0); }, [&](auto k) { k([](auto... x) { eff(sizeof...(x)); return (x + ... + 0); }); }, one); }
        void a24() { I::run("std::function", fr, [](auto k) { std::function<int(int)> f = fr; k(f); }, one); }
        void a25() { I::run("std::function of a functor", Counter(), [](auto k) { k(std::function<int(int)>(Counter())); }, one); }
        void a26() { using namespace std::placeholders; I::run("std::bind", [](int x) { return fr(x) + 1; }, [](auto k) { k(std::bind(std::plus<int>(), std::bind(fr, _1), 1)); }, one); }
        void a27() { using namespace std::placeholders; static O o; o.v = 3; O c(3); I::run("std::bind of a member function", [&](int x) { return c.two(x, 7); }, [](auto k) { k(std::bind(&O::two, &o, _1, 7)); }, one); }
        void a28() { static O o(3); O c(3); o.v = 3; I::run("std::ref functor", [n = Counter()](int x) mutable { return n(x); }, [](auto k) { static Counter s; s = Counter(); k(std::ref(s)); }, one); }
        void a29() { Vd::run("void free function", fr_void, [](auto k) { k(fr_void); }, one); }
        void a30() { Vd::run("void signal, function with a result", [](int x) { fr(x); }, [](auto k) { k(fr); }, one); }
        void a31() { Vd::run("void signal, functor with a result", [c = Counter()](int x) mutable { c(x); }, [](auto k) { k(Counter()); }, one); }
        void a32() { Vd::run("void lambda", [](int x) { eff(x); }, [](auto k) { k([](int x) { eff(x); }); }, one); }
        void a33() { O c(3); Vd::run("void signal, member function with a result", [&](int x) { c.f(x); }, [](auto k) { static O o; o.v = 3; k(&O::f, &o); }, one); }
        void a34() { O c(3); Vd::run("void member function, shared_ptr", [&](int x) { c.vo(x); }, [o = std::make_shared<O>(3)](auto k) { k(&O::vo, o); }, one); }
        void a35() { O c(3); Vd::run("void member function, shared_ptr rvalue", [&](int x) { c.vo(x); }, [o = std::make_shared<O>(3)](auto k) { k(&O::vo, std::shared_ptr<O>(o)); }, one); }
        void a36() { O c(3); Vd::run("void member function, object copy", [&](int x) { c.vo(x); }, [](auto k) { O o(3); k(&O::vo, o); }, one); }
        void a37() { I::run("pointer to static member function", O::st, [](auto k) { k(&O::st); }, one); }
        const table t[] = { { a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35, a36, a37 } };
#elif PART == 2
        // ---- member functions bound to objects in every way ---------------------------------------------------------------
        template<typename Ret, typename Pm, typename Mk> void bound(const char* name, Pm pm, Mk mk, int v0 = 3) // mk(k, pm, object)
        {
            auto direct_obj = std::make_shared<O>(v0);
            tester<Ret(int)>::run(name, [direct_obj, pm](int x) -> Ret { return std::invoke(pm, *direct_obj, x); }, [&](auto k) { mk(k, pm); }, one);
        }
        template<typename Ret, typename Pm> void bind_all(const char* name, Pm pm)
        {
            std::string n(name);
            switch (R.below(7))
            {
            case 0: { O o(3); bound<Ret>((n + ", object pointer").c_str(), pm, [&](auto k, Pm p) { k(p, &o); }); break; }
            case 1: { O o(3); bound<Ret>((n + ", object copy").c_str(), pm, [&](auto k, Pm p) { k(p, o); }); if (o.v != 3) fail("%s: binding a copy changed the original", name); break; }
            case 2: { bound<Ret>((n + ", rvalue object").c_str(), pm, [&](auto k, Pm p) { k(p, O(3)); }); break; }
            case 3: { O o(3); bound<Ret>((n + ", std::ref").c_str(), pm, [&](auto k, Pm p) { k(p, std::ref(o)); }); break; }
            case 4: { auto o = std::make_shared<O>(3); bound<Ret>((n + ", shared_ptr").c_str(), pm, [&](auto k, Pm p) { k(p, o); }); if (o.use_count() != 1) fail("%s: a slot owns the tracked object", name); break; }
            case 5: { auto o = std::make_shared<O>(3); bound<Ret>((n + ", shared_ptr rvalue").c_str(), pm, [&](auto k, Pm p) { auto q = o; k(p, std::move(q)); }); break; }
            default: { O o(3); O* const q = &o; const Pm cp = pm; bound<Ret>((n + ", const pointers").c_str(), pm, [&](auto k, Pm) { k(cp, q); }); }
            }
        }
        void b00() { bind_all<int>("member function", &O::f); }
        void b01() { bind_all<int>("const member function", &O::cf); }
        void b02() { bind_all<int>("noexcept member function", &O::nf); }
        void b03() { bind_all<int>("virtual member function", &O::vf); }
        void b04() { O o(3); bound<int>("&-qualified member function, object pointer", &O::lf, [&](auto k, auto p) { k(p, &o); }); }
        void b05() { bind_all<int>("overloaded non-const", static_cast<int (O::*)(int)>(&O::over)); }
        void b06() { bind_all<int>("overloaded const", static_cast<int (O::*)(int) const>(&O::over)); }
        void b07() { bind_all<long>("member function, converted result", &O::f); }
        void b08() { bind_all<int>("member function returning zero", &O::zero); }
        void b09() { bind_all<bool>("member function returning false", &O::no); }
        void b10() { bind_all<std::string>("member function returning an empty string", &O::es); }
        void b11() { bind_all<int>("member function returning int&", &O::ref); }
        void b12() { bind_all<std::string>("member function returning const string&", &O::sref); }
        const table t[] = { { b00, b01, b02, b03, b04, b05, b06, b07, b08, b09, b10, b11, b12 } };
#elif PART == 3
        template<typename Ret, typename Obj, typename Pm> void derived(const char* name, Pm pm)
        {
            std::string n(name);
            auto d = std::make_shared<Obj>(4);
            auto direct = [d, pm](int x) -> Ret { return std::invoke(pm, *d, x); };
            switch (R.below(5))
            {
            case 0: { Obj o(4); tester<Ret(int)>::run((n + ", pointer").c_str(), direct, [&](auto k) { k(pm, &o); }, one); break; }
            case 1: { Obj o(4); tester<Ret(int)>::run((n + ", copy").c_str(), direct, [&](auto k) { k(pm, o); }, one); break; }
            case 2: { Obj o(4); tester<Ret(int)>::run((n + ", std::ref").c_str(), direct, [&](auto k) { k(pm, std::ref(o)); }, one); break; }
            case 3: { auto o = std::make_shared<Obj>(4); tester<Ret(int)>::run((n + ", shared_ptr").c_str(), direct, [&](auto k) { k(pm, o); }, one); break; }
            default: { Obj o(4); O* b = &o; (void)b; tester<Ret(int)>::run((n + ", pointer").c_str(), direct, [&](auto k) { k(pm, &o); }, one); }
            }
        }
        void c00() { derived<int, D>("base member of a derived object", &O::f); }
        void c01() { derived<int, D>("virtual base member of a derived object", &O::vf); }
        void c02() { derived<int, D>("member of the first base", &Second::sec); }
        void c03() { derived<int, D>("virtual member of the first base", &Second::vsec); }
        void c04() { derived<int, D>("own member", &D::own); }
        void c05() { derived<int, V>("member of a virtual base", &O::cf); }
        void c06() { derived<int, V>("virtual member of a virtual base", &O::vf); }
        void c07() { D d(4); auto c = std::make_shared<D>(4); tester<int(int)>::run("virtual call through a base pointer", [c](int x) { return c->vf(x); }, [&](auto k) { O* b = &d; k(&O::vf, b); }, one); }
        void c08() { D d(4); auto c = std::make_shared<D>(4); tester<int(int)>::run("virtual call through a base reference wrapper", [c](int x) { return c->vcf(x); }, [&](auto k) { k(&O::vcf, std::ref<O>(d)); }, one); }
        void c09() { std::shared_ptr<O> d = std::make_shared<D>(4); auto c = std::make_shared<D>(4); tester<int(int)>::run("virtual call through shared_ptr<base>", [c](int x) { return c->vf(x); }, [&](auto k) { k(&O::vf, d); }, one); }
        void c10() { const O o(3); O c(3); tester<int(int)>::run("const object pointer", [&](int x) { return c.cf(x); }, [&](auto k) { k(&O::cf, &o); }, one); }
        void c11() { const O o(3); O c(3); tester<int(int)>::run("std::cref", [&](int x) { return c.cf(x); }, [&](auto k) { k(&O::cf, std::cref(o)); }, one); }
        void c12() { std::shared_ptr<const O> o = std::make_shared<O>(3); O c(3); tester<int(int)>::run("shared_ptr<const>", [&](int x) { return c.cf(x); }, [&](auto k) { k(&O::cf, o); }, one); }
        void c13() { O o(3); O c(3); tester<int(int, int)>::run("member with two arguments", [&](int x, int y) { return c.two(x, y); }, [&](auto k) { k(&O::two, &o); }, [](int x) { return std::tuple<int, int>(x, x + 1); }); }
        void c14() { auto o = std::make_shared<O>(3); O c(3); tester<int()>::run("member without arguments", [&] { return c.none(); }, [&](auto k) { k(&O::none, o); }, [](int) { return std::tuple<>(); }); }
        void c15()
        {
            // weak_ptr: accepted by slots
            auto o = std::make_shared<D>(4); D c(4); std::weak_ptr<D> w = o;
            sig::slot<int(int)> s(&O::vf, w); sig::signal<int(int)> g; g.connect(s);
            int x = int(R.below(100)); tr("weak_ptr slot %d", x);
            effects.clear(); auto r = g(x); auto e = effects; effects.clear(); int want = c.vf(x);
            ++judged;
            if (!r || *r != want || e != effects) fail("slot bound to a weak_ptr differs from a direct call");
            o.reset(); effects.clear();
            if (g(x) || !effects.empty()) fail("slot bound to a weak_ptr runs after the object died");
        }
        const table t[] = { { c00, c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15 } };
#elif PART == 4
        // ---- member data, unbound members, results of other types ----------------------------------------------------------
        template<typename Ret, typename Pm> void data(const char* name, Pm pm)
        {
            std::string n(name);
            int v = int(R.below(100)); tr("value %d", v);
            O c(v);
            auto direct = [&]() -> Ret { return c.*pm; };
            auto none = [](int) { return std::tuple<>(); };
            switch (R.below(5))
            {
            case 0: { O o(v); tester<Ret()>::run((n + ", pointer").c_str(), direct, [&](auto k) { k(pm, &o); }, none); break; }
            case 1: { O o(v); tester<Ret()>::run((n + ", copy").c_str(), direct, [&](auto k) { k(pm, o); }, none); break; }
            case 2: { O o(v); tester<Ret()>::run((n + ", std::ref").c_str(), direct, [&](auto k) { k(pm, std::ref(o)); }, none); break; }
            case 3: { auto o = std::make_shared<O>(v); tester<Ret()>::run((n + ", shared_ptr").c_str(), direct, [&](auto k) { k(pm, o); }, none); break; }
            default: { const O o(v); tester<Ret()>::run((n + ", const pointer").c_str(), direct, [&](auto k) { k(pm, &o); }, none); }
            }
        }
        void d00() { data<int>("member data", &O::v); }
        void d01() { data<long>("member data, converted", &O::v); }
        void d02() { data<std::string>("string member data", &O::str); }
        void d03() { data<int>("const member data", &O::cv); }
        void d04()
        {
            // member data follows the object
            O o(1); sig::signal<int()> s; s.connect(&O::v, &o); sig::slot<int&()> sl(&O::v, &o);
            int x = int(R.below(100)); tr("member data %d", x); o.v = x;
            ++judged;
            auto r = s(); if (!r || *r != x) fail("a slot bound to member data does not return its current value");
            auto q = sl(); if (!q || &*q != &o.v) fail("a slot returning a reference to member data refers to something else");
        }
        void d05() { O c(3); tester<int(O*, int)>::run("unbound member function, pointer argument", [&](O*, int x) { return c.f(x); }, [](auto k) { k(&O::f); }, [](int x) { static std::vector<std::unique_ptr<O>> keep; keep.clear(); static O o; o.v = 3; return std::tuple<O*, int>(&o, x); }); }
        void d06() { D c(4); static D d(4); d.v = 4; d.extra = 77; tester<int(O&, int)>::run("unbound virtual member function, reference argument", [&](O&, int x) { return c.vf(x); }, [](auto k) { k(&O::vf); }, [](int x) { return std::tuple<O&, int>(d, x); }); }
        void d08() { tester<int(std::shared_ptr<O>, int)>::run("unbound member function, shared_ptr argument", [](std::shared_ptr<O>, int x) { O c(3); return c.cf(x); }, [](auto k) { k(&O::cf); }, [](int x) { return std::tuple<std::shared_ptr<O>, int>(std::make_shared<O>(3), x); }); }
        void d09() { tester<int(std::reference_wrapper<O>, int)>::run("unbound member function, reference_wrapper argument", [](std::reference_wrapper<O>, int x) { O c(3); return c.cf(x); }, [](auto k) { k(&O::cf); }, [](int x) { static O o(3); return std::tuple<std::reference_wrapper<O>, int>(std::ref(o), x); }); }
        void d10() { O c(3); tester<int(O&, int)>::run("std::mem_fn", [&](O&, int x) { return c.cf(x); }, [](auto k) { k(std::mem_fn(&O::cf)); }, [](int x) { static O o(3); return std::tuple<O&, int>(o, x); }); }
        // results: every value arrives engaged, also the ones that look empty
        void e00() { tester<bool(int)>::run("result false", [](int) { return false; }, [](auto k) { k([](int) { return false; }); }, one); }
        void e01() { tester<void*(int)>::run("result nullptr", [](int) -> void* { return nullptr; }, [](auto k) { k([](int) -> void* { return nullptr; }); }, one); }
        void e02() { tester<std::string(int)>::run("result empty string", [](int) { return std::string(); }, [](auto k) { k([](int) { return std::string(); }); }, one); }
        void e03() { tester<opt::optional<int>(int)>::run("result disengaged optional", [](int x) { return x & 1 ? opt::optional<int>() : opt::optional<int>(x); }, [](auto k) { k([](int x) { return x & 1 ? opt::optional<int>() : opt::optional<int>(x); }); }, one); }
        void e04() { tester<std::optional<int>(int)>::run("result std::optional", [](int x) { return x & 1 ? std::optional<int>() : std::optional<int>(x); }, [](auto k) { k([](int x) { return x & 1 ? std::optional<int>() : std::optional<int>(x); }); }, one); }
        void e05() { tester<double(int)>::run("int result converted to double", [](int x) { return double(x / 2); }, [](auto k) { k([](int x) { return x / 2; }); }, one); }
        void e06() { tester<int(int)>::run("double result converted to int", [](int x) { return int(x * 0.75); }, [](auto k) { k([](int x) { return x * 0.75; }); }, one); }
        void e07() { static D d; tester<O*(int)>::run("derived pointer converted to base", [](int) -> O* { return &d; }, [](auto k) { k([](int) { return &d; }); }, one); }
        void e08() { tester<std::vector<int>(int)>::run("vector result", [](int x) { return std::vector<int>(size_t(x & 7), x); }, [](auto k) { k([](int x) { return std::vector<int>(size_t(x & 7), x); }); }, one); }
        void e09() { static std::string s; s = "const-reference-result-longer-than-sso"; tester<std::string(int)>::run("const string& result copied", [](int) { return s; }, [](auto k) { k([](int) -> const std::string& { return s; }); }, one); if (s != "const-reference-result-longer-than-sso") fail("returning a reference consumed the referred object"); }
        void e10() { tester<std::shared_ptr<int>(int)>::run("shared_ptr result", [](int) { return std::shared_ptr<int>(); }, [](auto k) { k([](int) { return std::shared_ptr<int>(); }); }, one); }
        void e11() { tester<std::any(int)>::run("std::any result", [](int x) { return std::any(x); }, [](auto k) { k([](int x) { return std::any(x); }); }, one); }
        void e12() { static std::string s; s = "mutable-reference-result-longer-than-sso"; tester<std::string(int)>::run("string& result copied", [](int) { return s; }, [](auto k) { k([](int) -> std::string& { return s; }); }, one); if (s != "mutable-reference-result-longer-than-sso") fail("returning a reference consumed the referred object"); }
        struct col { using result_type = std::vector<std::unique_ptr<int>>; template<typename It> result_type operator()(It f, It l) const { result_type r; for (; f != l; ++f) { auto x = *f; if (!x) fail("a move-only result arrives disengaged"); r.push_back(std::move(*x)); } return r; } };
        void e13()
        {
            sig::signal<std::unique_ptr<int>(int), col> s; int n = int(R.below(4)), x = int(R.below(100)); tr("move-only results %d %d", n, x);
            for (int i = 0; i < n; ++i) s.connect([i](int y) { return std::unique_ptr<int>(new int(y + i)); });
            auto v = s(x); ++judged;
            if (int(v.size()) != n) fail("%zu of %d move-only results", v.size(), n);
            for (int i = 0; i < n; ++i) if (!v[size_t(i)] || *v[size_t(i)] != x + i) fail("move-only result %d is wrong", i);
        }
        const table t[] = { { d00, d01, d02, d03, d04, d05, d06, d08, d09, d10, e00, e01, e02, e03, e04, e05, e06, e07, e08, e09, e10, e11, e12, e13 } };
#elif PART == 5
        // ---- bound objects of other shapes: plain, empty, large, final, abstract base, pointer-like -----------------------------
        // Every call works on the one object the slot owns (or refers to): its state and address persist from call to call.
        struct Plain { int v = 3; void* self = nullptr; int step(int x) { if (!self) self = this; eff(self == this); v += x; eff(v); return v; } int get(int x) const { eff(v); return v - x; } void bump(int x) { if (!self) self = this; eff(self == this); eff(v += x); } int next() { eff(1); return ++v; } };
        struct PlainFinal final : Plain {};
        struct PlainDerived : Plain { int more[40] = {}; int step2(int x) { if (!self) self = this; eff(self == this); for (int& m : more) m += x; eff(more[39]); return more[39]; } };
        struct PlainTwo : PlainDerived { std::string s = "another-string-longer-than-sso"; int app(int x) { s += char('a' + (x & 15)); eff(long(s.size())); eff(self == nullptr || self == this); return int(s.size()); } };
        struct Empty { int f(int x) { eff(x); return x + 1; } };
        struct Abstract { virtual ~Abstract() {} virtual int step(int) = 0; virtual void bump(int) = 0; int get(int x) const { eff(3); return x; } };
        struct Impl : Abstract { Plain p; int step(int x) override { return p.step(x); } void bump(int x) override { p.bump(x); } };
        struct alignas(64) Over { int n = 0; int step(int x) { eff(long(reinterpret_cast<uintptr_t>(this) % 64)); return n += x; } };
        template<typename T> struct Handle { T* p; T& operator*() const { return *p; } friend bool operator==(const Handle& a, const Handle& b) { return a.p == b.p; } }; // pointer-like
        template<typename Ret, typename Obj, typename Pm> void shape(const char* name, Pm pm)
        {
            std::string n(name);
            auto d = std::make_shared<Obj>();
            using A = tester<Ret(int)>;
            auto direct = [d, pm](int x) -> Ret { return std::invoke(pm, *d, x); };
            auto keep = std::make_shared<Obj>(); Obj& o = *keep;
            switch (R.below(8))
            {
            case 0: A::run((n + ", pointer").c_str(), direct, [&](auto k) { k(pm, &o); }, one); break;
            case 1: A::run((n + ", copy").c_str(), direct, [&](auto k) { k(pm, o); }, one); break;
            case 2: A::run((n + ", copy, const pointer to member").c_str(), direct, [&](auto k) { const Pm p = pm; k(p, o); o = Obj(); }, one); break;
            case 3: A::run((n + ", rvalue").c_str(), direct, [&](auto k) { k(pm, Obj()); }, one); break;
            case 4: A::run((n + ", std::ref").c_str(), direct, [&](auto k) { k(pm, std::ref(o)); }, one); break;
            case 5: A::run((n + ", shared_ptr").c_str(), direct, [&](auto k) { k(pm, keep); }, one); break;
            case 6: A::run((n + ", pointer-like").c_str(), direct, [&](auto k) { k(pm, Handle<Obj>{ &o }); }, one); break;
            default: { auto block = std::make_shared<int>(1); std::shared_ptr<Obj> al(block, &o); A::run((n + ", aliasing shared_ptr").c_str(), direct, [&](auto k) { k(pm, al); }, one); }
            }
        }
        void g00() { shape<int, Plain>("member of a plain object", &Plain::step); }
        void g01() { shape<void, Plain>("void member of a plain object", &Plain::bump); }
        void g02() { shape<int, PlainFinal>("inherited member of a final object", &Plain::step); }
        void g03() { shape<int, PlainDerived>("member of a larger object", &PlainDerived::step2); }
        void g04() { shape<int, PlainTwo>("inherited member, two levels", &Plain::step); }
        void g05() { shape<void, PlainTwo>("inherited void member, two levels", &Plain::bump); }
        void g06() { shape<int, PlainTwo>("string member state", &PlainTwo::app); }
        void g07() { shape<int, Empty>("member of an empty object", &Empty::f); }
        void g08() { shape<int, Impl>("pure virtual member", &Abstract::step); }
        void g09() { shape<void, Impl>("pure virtual void member", &Abstract::bump); }
        void g10() { shape<long, Plain>("converted result of a plain object", &Plain::get); }
        void g11() { shape<int, Over>("member of an over-aligned object", &Over::step); }
        void g12()
        {
            // the same object bound in two slots, and a copy of it in a third
            Plain o, c; sig::signal<int(int), collect<int>> s;
            s.connect(&Plain::step, &o); s.connect(&Plain::step, c); s.connect(&Plain::step, std::ref(o));
            int n = 1 + int(R.below(4)); tr("shared state, %d calls", n); Plain mo, mc;
            for (int i = 0; i < n; ++i)
            {
                int x = int(R.below(50)); effects.clear(); auto r = s(x); ++judged;
                int a = mo.step(x), b = mc.step(x), d = mo.step(x);
                if (r.size() != 3 || !r[0] || !r[1] || !r[2] || *r[0] != a || *r[1] != b || *r[2] != d) fail("call %d: member slots on a shared object and on a copy return wrong values", i);
                if (o.v != mo.v || c.v != 3) fail("call %d: the state of the bound object is %d instead of %d, of the copied one %d", i, o.v, mo.v, c.v);
            }
        }
        void g13()
        {
            // member data of a copy follows the copy, of a pointer follows the object
            Plain o; o.v = int(R.below(100)); int x = o.v; sig::signal<int(), collect<int>> s; tr("member data of a plain object %d", x);
            s.connect(&Plain::v, o); s.connect(&Plain::v, &o); s.connect(&Plain::next, &o); s.connect(&Plain::v, std::ref(o));
            o.v = x + 5; auto r = s(); ++judged;
            if (r.size() != 4 || !r[0] || !r[1] || !r[2] || !r[3] || *r[0] != x || *r[1] != x + 5 || *r[2] != x + 6 || *r[3] != x + 6) fail("member data slots return wrong values");
        }
        const table t[] = { { g00, g01, g02, g03, g04, g05, g06, g07, g08, g09, g10, g11, g12, g13 } };
#endif
    }
#if PART == 0
    const table t0 = t[0];
#elif PART == 1
    const table t1 = t[0];
#elif PART == 2
    const table t2 = t[0];
#elif PART == 3
    const table t3 = t[0];
#elif PART == 4
    const table t4 = t[0];
#elif PART == 5
    const table t5 = t[0];
#endif
}
#if PART == 0
int main(int argc, char** argv)
{
    init(argc, argv);
    using namespace kinds;
    table all;
    for (auto* p : { &t0, &t1, &t2, &t3, &t4, &t5 }) all.insert(all.end(), p->begin(), p->end());
    run_cases("kinds", vf::opt().cases, [&](long k) {
        R = rng(case_seed(k, 22));
        uint64_t before = judged;
        all[size_t(k) % all.size()](); // every form is visited
        end_case(judged > before);
    });
    count("judged_events", judged);
    count("kinds_of_callables", all.size());
    summary();
}
#endif

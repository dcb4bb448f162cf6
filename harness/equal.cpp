// C06, C21: which callables are equal. Families of callables with their own idea of equality (or none), passed in every form, disconnected by
// callable and compared as slots, against a table of which keys of a family are equal.
#include "vf.hpp"
#include <signals.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>
using namespace vf;
namespace
{
    rng R(1);
    uint64_t judged = 0;
    std::vector<int> ran;
    template<typename T> T ret(int code) { { guard_harness g; ran.push_back(code); } return T(code); }
    template<> void ret<void>(int code) { guard_harness g; ran.push_back(code); }

    // ---- functors. Every family has its own number F; a call is recorded as F * 100 + key ------------------------------------
    template<typename T, int F> struct body { canary c; int key; explicit body(int k) : c(1), key(k) {} T operator()(int) const { c.check("called"); return ret<T>(F * 100 + key); } };
    template<typename T> struct with_member : body<T, 1> { using body<T, 1>::body; bool operator==(const with_member& o) const { this->c.check("compared"); o.c.check("compared"); return this->key == o.key; } };
    template<typename T> struct with_friend : body<T, 2> { using body<T, 2>::body; friend bool operator==(const with_friend& a, const with_friend& b) { return a.key == b.key; } };
    template<typename T> struct with_free : body<T, 3> { using body<T, 3>::body; };
    template<typename T> bool operator==(const with_free<T>& a, const with_free<T>& b) { return a.key == b.key; }
    struct keyed { int k; explicit keyed(int i) : k(i) {} bool operator==(const keyed& o) const { return k == o.k; } };
    template<typename T> struct inherits : keyed { int other; explicit inherits(int i) : keyed(i), other(int(R.below(100))) {} T operator()(int) const { return ret<T>(4 * 100 + k); } };
    template<typename T> struct gives_int : body<T, 5> { using body<T, 5>::body; friend int operator==(const gives_int& a, const gives_int& b) { return a.key == b.key ? 256 : 0; } };
    struct verdict { bool b; operator bool() const { return b; } };
    template<typename T> struct gives_class : body<T, 6> { using body<T, 6>::body; friend verdict operator==(const gives_class& a, const gives_class& b) { return { a.key == b.key }; } };
    template<typename T> struct by_value : body<T, 7> { using body<T, 7>::body; friend bool operator==(by_value a, by_value b) { return a.key == b.key; } };
    template<typename T> struct coarse : body<T, 8> { using body<T, 8>::body; friend bool operator==(const coarse& a, const coarse& b) { return a.key % 2 == b.key % 2; } };
    template<typename T> struct never : body<T, 9> { using body<T, 9>::body; friend bool operator==(const never&, const never&) { return false; } };
    template<typename T> struct always : body<T, 10> { using body<T, 10>::body; friend bool operator==(const always&, const always&) { return true; } };
    template<typename T> struct converts : body<T, 11> { using body<T, 11>::body; operator int() const { return this->key; } };
    template<typename T> struct with_ne : body<T, 12> { using body<T, 12>::body; friend bool operator==(const with_ne& a, const with_ne& b) { return a.key == b.key; } friend bool operator!=(const with_ne&, const with_ne&) { fail("a callable is compared with !="); } bool operator<(const with_ne&) const { fail("a callable is compared with <"); } };
    template<typename T> struct no_eq : body<T, 13> { using body<T, 13>::body; };
    template<typename T> struct deleted_eq : body<T, 14> { using body<T, 14>::body; friend bool operator==(const deleted_eq&, const deleted_eq&) = delete; };
    template<typename T> struct only_less : body<T, 15> { using body<T, 15>::body; friend bool operator<(const only_less& a, const only_less& b) { return a.key < b.key; } friend bool operator!=(const only_less& a, const only_less& b) { return a.key != b.key; } };
    template<typename T> struct stateful : body<T, 16> // equality ignores what calls changed
    {
        mutable int calls = 0; mutable std::vector<int> seen; explicit stateful(int k) : body<T, 16>(k) {}
        T operator()(int x) const { ++calls; { guard_harness g; seen.push_back(x); } return body<T, 16>::operator()(x); }
        friend bool operator==(const stateful& a, const stateful& b) { return a.key == b.key; }
    };
    template<typename T, int K> T fn(int) { return ret<T>(20 * 100 + K); }
    template<typename T, int K> T fnx(int) noexcept { return ret<T>(21 * 100 + K); }
    template<typename T, int K> T fnl(long) { return ret<T>(22 * 100 + K); } // called with a converted argument: another type of callable

    // one closure type each, whoever asks
    template<typename T> auto plain_lambda() { return [](int) { return ret<T>(2300); }; }
    template<typename T> auto capturing_lambda(int k) { return [k](int) { return ret<T>(2400 + k); }; }
    template<typename T> auto bound(int k) { return std::bind([](int c, int) { return ret<T>(2600 + c); }, k, std::placeholders::_1); }

    // ---- objects -------------------------------------------------------------------------------------------------------------
    template<typename T> struct root { virtual ~root() {} int k = 0; T low(int) { return ret<T>(30 * 100 + 40 + k); } virtual T v(int) { return ret<T>(30 * 100 + 90 + k); } };
    template<typename T> struct thing : root<T>
    {
        canary c; int data = 7;
        explicit thing(int i) : c(2) { this->k = i; }
        T a(int) { c.check("called"); return ret<T>(30 * 100 + this->k); }
        T b(int) { c.check("called"); return ret<T>(30 * 100 + 10 + this->k); }
        T q(int) const { c.check("called"); return ret<T>(30 * 100 + 20 + this->k); }
        T o(int) { return ret<T>(30 * 100 + 30 + this->k); }
        T o(double) { fail("the wrong overload is called"); }
        T v(int) override { c.check("called"); return ret<T>(30 * 100 + 50 + this->k); }
        friend bool operator==(const thing& x, const thing& y) { x.c.check("compared"); y.c.check("compared"); return x.k == y.k; }
    };
    template<typename T> struct opaque { canary c; int k; explicit opaque(int i) : c(2), k(i) {} T a(int) { return ret<T>(31 * 100 + k); } T b(int) { return ret<T>(31 * 100 + 10 + k); } };
    // a smart pointer whose weak form can be compared
    template<typename T> struct my_weak
    {
        std::weak_ptr<T> w; const void* id;
        bool expired() const { return w.expired(); } std::shared_ptr<T> lock() const { return w.lock(); } void reset() { w.reset(); }
        friend bool operator==(const my_weak& a, const my_weak& b) { return a.id == b.id; }
    };
    template<typename T> struct my_shared { std::shared_ptr<T> p; T& operator*() const { return *p; } T* operator->() const { return p.get(); } };
    template<typename T> my_weak<T> to_weak(const my_shared<T>& s) { return { s.p, s.p.get() }; }

    template<typename T> struct pool
    {
        std::vector<thing<T>> v; std::vector<std::shared_ptr<thing<T>>> s; std::vector<std::shared_ptr<opaque<T>>> q;
        pool() { guard_harness g; v.reserve(4); for (int i = 0; i < 4; ++i) { v.emplace_back(i); s.push_back(std::make_shared<thing<T>>(i)); q.push_back(std::make_shared<opaque<T>>(i)); } }
    };

    // ---- forms ---------------------------------------------------------------------------------------------------------------
    enum { forms = 7 };
    template<typename Slot, typename V, typename Op> void pass(const V& v, int form, Op op)
    {
        V x(v); const V& cx = x;
        switch (form)
        {
        case 0: op(std::move(x)); break;
        case 1: op(x); break;
        case 2: op(cx); break;
        case 3: op(std::move(cx)); break;
        case 4: op(Slot(x)); break;
        case 5: { const Slot s(std::move(x)); op(s); break; }
        default: { Slot s(cx); Slot t(s); op(t); }
        }
    }
    template<typename Slot, typename M, typename P, typename Op> void pass2(M m, const P& v, int form, Op op)
    {
        P x(v); const P& cx = x; const M cm = m;
        switch (form)
        {
        case 0: op(std::move(m), std::move(x)); break;
        case 1: op(m, x); break;
        case 2: op(cm, x); break;
        case 3: op(std::move(cm), P(cx)); break;
        case 4: op(Slot(m, x)); break;
        case 5: { const Slot s(cm, std::move(x)); op(s); break; }
        default: { Slot s(m, cx); Slot t(s); op(t); }
        }
    }

    // data members tell which slots an emission ran through their value
    struct codes { using result_type = std::vector<int>; template<typename It> result_type operator()(It a, It b) const { result_type r; for (; a != b; ++a) if (auto v = *a) r.push_back(*v); return r; } };
    template<typename Sig> struct signal_for { using type = sig::signal<Sig>; static std::vector<int> run(const type& s) { ran.clear(); s(5); return ran; } };
    template<> struct signal_for<int()> { using type = sig::signal<int(), codes>; static std::vector<int> run(const type& s) { return s(); } };

    template<typename Sig> struct family
    {
        const char* name; bool comparable; int keys; bool member; // member: the low bit of the key is the member function
        using signal = typename signal_for<Sig>::type; using slot = sig::slot<Sig>;
        virtual ~family() {}
        virtual bool eq(int a, int b) const = 0;
        virtual int code(int k) const = 0;
        virtual sig::connection connect(signal&, int key, int form, bool scoped) const = 0;
        virtual size_t disconnect(signal&, int key, int form) const = 0;
        virtual slot make(int key, int form) const = 0;
    };
    // With: void with(key, form, op) hands the callable to op
    template<typename Sig, typename Eq, typename Code, typename With> struct family_of : family<Sig>
    {
        Eq e; Code c; With w;
        using typename family<Sig>::signal; using typename family<Sig>::slot;
        family_of(const char* n, bool cmp, int k, Eq e_, Code c_, With w_) : e(e_), c(c_), w(w_) { this->name = n; this->comparable = cmp; this->keys = k; this->member = !std::strncmp(n, "member", 6) || !std::strncmp(n, "data", 4); }
        bool eq(int a, int b) const override { return e(a, b); }
        int code(int k) const override { return c(k); }
        sig::connection connect(signal& s, int key, int form, bool scoped) const override
        {
            sig::connection r;
            w(key, form, [&](auto&&... a) { if (scoped) { sig::scoped_connection sc = s.connect_scoped(std::forward<decltype(a)>(a)...); r = sc.release(); } else r = s.connect(std::forward<decltype(a)>(a)...); });
            return r;
        }
        size_t disconnect(signal& s, int key, int form) const override { size_t r = 0; w(key, form, [&](auto&&... a) { r = s.disconnect(std::forward<decltype(a)>(a)...); }); return r; }
        slot make(int key, int form) const override { slot r; w(key, form, [&](auto&&... a) { r = slot(std::forward<decltype(a)>(a)...); }); return r; }
    };
    template<typename Sig> using families = std::vector<std::unique_ptr<family<Sig>>>;
    template<typename Sig, typename Eq, typename Code, typename With> void add(families<Sig>& f, const char* n, bool cmp, int k, Eq e, Code c, With w)
    { f.emplace_back(new family_of<Sig, Eq, Code, With>(n, cmp, k, e, c, w)); }

    auto same = [](int a, int b) { return a == b; };
    template<typename Sig> using slot_of = sig::slot<Sig>;

    template<typename V, typename Sig, typename Eq> void functor(families<Sig>& f, const char* n, int F, bool cmp, Eq e)
    { add<Sig>(f, n, cmp, 4, e, [F](int k) { return F * 100 + k; }, [](int k, int form, auto op) { pass<slot_of<Sig>>(V(k), form, op); }); }

    template<typename T> void make_families(families<T(int)>& f, pool<T>& p)
    {
        using S = T(int); using slot = slot_of<S>;
        functor<with_member<T>>(f, "member ==", 1, true, same);
        functor<with_friend<T>>(f, "friend ==", 2, true, same);
        functor<with_free<T>>(f, "free ==", 3, true, same);
        functor<inherits<T>>(f, "inherited ==", 4, true, same);
        functor<gives_int<T>>(f, "== gives int", 5, true, same);
        functor<gives_class<T>>(f, "== gives a class", 6, true, same);
        functor<by_value<T>>(f, "== by value", 7, true, same);
        functor<coarse<T>>(f, "coarse ==", 8, true, [](int a, int b) { return a % 2 == b % 2; });
        functor<never<T>>(f, "never ==", 9, true, [](int, int) { return false; });
        functor<always<T>>(f, "always ==", 10, true, [](int, int) { return true; });
        functor<converts<T>>(f, "converts to int", 11, true, same);
        functor<with_ne<T>>(f, "== and !=", 12, true, same);
        functor<no_eq<T>>(f, "no ==", 13, false, same);
        functor<deleted_eq<T>>(f, "deleted ==", 14, false, same);
        functor<only_less<T>>(f, "only < and !=", 15, false, same);
        functor<stateful<T>>(f, "state not compared", 16, true, same);
        add<S>(f, "function pointer", true, 4, same, [](int k) { return 2000 + k; }, [](int k, int form, auto op) {
            T (*const t[])(int) = { fn<T, 0>, fn<T, 1>, fn<T, 2>, fn<T, 3> };
            switch (form == 1 ? k : -1) { case 0: op(fn<T, 0>); break; case 1: op(fn<T, 1>); break; case 2: op(fn<T, 2>); break; case 3: op(fn<T, 3>); break; default: pass<slot>(t[k], form, op); } });
        add<S>(f, "noexcept function pointer", true, 2, same, [](int k) { return 2100 + k; }, [](int k, int form, auto op) { T (*const t[])(int) noexcept = { fnx<T, 0>, fnx<T, 1> }; pass<slot>(t[k], form, op); });
        add<S>(f, "function of another type", true, 2, same, [](int k) { return 2200 + k; }, [](int k, int form, auto op) { T (*const t[])(long) = { fnl<T, 0>, fnl<T, 1> }; pass<slot>(t[k], form, op); });
        add<S>(f, "lambda without capture", true, 1, same, [](int) { return 2300; }, [](int, int form, auto op) { pass<slot>(plain_lambda<T>(), form, op); });
        add<S>(f, "lambda with capture", false, 4, same, [](int k) { return 2400 + k; }, [](int k, int form, auto op) { pass<slot>(capturing_lambda<T>(k), form, op); });
        add<S>(f, "std::function", false, 4, same, [](int k) { return 2500 + k; }, [](int k, int form, auto op) { pass<slot>(std::function<T(int)>([k](int) { return ret<T>(2500 + k); }), form, op); });
        add<S>(f, "std::bind", false, 4, same, [](int k) { return 2600 + k; }, [](int k, int form, auto op) { pass<slot>(bound<T>(k), form, op); });
        // objects. Pointers compare by identity, copies by value.
        using th = thing<T>; using pm = T (th::*)(int);
        auto code = [](int k) { return 3000 + (k & 1 ? 10 : 0) + k / 2; }; // key: object * 2 + function
        add<S>(f, "member, pointer", true, 8, same, code, [&p](int k, int form, auto op) { pm t[] = { &th::a, &th::b }; pass2<slot>(t[k & 1], &p.v[size_t(k / 2)], form, op); });
        add<S>(f, "member, copy", true, 8, same, code, [](int k, int form, auto op) { pm t[] = { &th::a, &th::b }; pass2<slot>(t[k & 1], th(k / 2), form, op); });
        add<S>(f, "member, reference wrapper", true, 8, same, code, [&p](int k, int form, auto op) { pm t[] = { &th::a, &th::b }; pass2<slot>(t[k & 1], std::ref(p.v[size_t(k / 2)]), form, op); });
        add<S>(f, "member, iterator", true, 8, same, code, [&p](int k, int form, auto op) { pm t[] = { &th::a, &th::b }; pass2<slot>(t[k & 1], p.v.begin() + k / 2, form, op); });
        add<S>(f, "member, own smart pointer", true, 8, same, code, [&p](int k, int form, auto op) { pm t[] = { &th::a, &th::b }; pass2<slot>(t[k & 1], my_shared<th>{ p.s[size_t(k / 2)] }, form, op); });
        add<S>(f, "const member, const pointer", true, 4, same, [](int k) { return 3020 + k; }, [&p](int k, int form, auto op) { pass2<slot>(&th::q, static_cast<const th*>(&p.v[size_t(k)]), form, op); });
        add<S>(f, "const member, pointer", true, 4, same, [](int k) { return 3020 + k; }, [&p](int k, int form, auto op) { pass2<slot>(&th::q, &p.v[size_t(k)], form, op); });
        add<S>(f, "overload, pointer", true, 4, same, [](int k) { return 3030 + k; }, [&p](int k, int form, auto op) { struct x { static pm get() { return &th::o; } }; T (th::*m)(int) = &th::o; pass2<slot>(m, const_cast<th* const>(&p.v[size_t(k)]), form, op); });
        using rt = root<T>;
        add<S>(f, "base member, pointer", true, 8, same, [](int k) { return k & 1 ? 3050 + k / 2 : 3040 + k / 2; }, [&p](int k, int form, auto op) { T (rt::*t[])(int) = { &rt::low, &rt::v }; pass2<slot>(t[k & 1], &p.v[size_t(k / 2)], form, op); });
        add<S>(f, "base member, base pointer", true, 8, same, [](int k) { return k & 1 ? 3050 + k / 2 : 3040 + k / 2; }, [&p](int k, int form, auto op) { T (rt::*t[])(int) = { &rt::low, &rt::v }; pass2<slot>(t[k & 1], static_cast<rt*>(&p.v[size_t(k / 2)]), form, op); });
        using qu = opaque<T>; using qm = T (qu::*)(int);
        auto qcode = [](int k) { return 3100 + (k & 1 ? 10 : 0) + k / 2; };
        add<S>(f, "member, pointer to incomparable", true, 8, same, qcode, [&p](int k, int form, auto op) { qm t[] = { &qu::a, &qu::b }; pass2<slot>(t[k & 1], p.q[size_t(k / 2)].get(), form, op); });
        add<S>(f, "member, incomparable copy", false, 8, same, qcode, [](int k, int form, auto op) { qm t[] = { &qu::a, &qu::b }; pass2<slot>(t[k & 1], qu(k / 2), form, op); });
        add<S>(f, "member, shared_ptr", false, 8, same, qcode, [&p](int k, int form, auto op) { qm t[] = { &qu::a, &qu::b }; pass2<slot>(t[k & 1], p.q[size_t(k / 2)], form, op); });
        add<S>(f, "member, weak_ptr", false, 8, same, code, [&p](int k, int form, auto op) { pm t[] = { &th::a, &th::b }; std::weak_ptr<th> w(p.s[size_t(k / 2)]); if (form % 2) op(slot(t[k & 1], w)); else { const slot s(t[k & 1], std::move(w)); op(s); }; });
    }
    // pointers to data
    struct rec { int x, y; friend bool operator==(const rec& a, const rec& b) { return a.x == b.x && a.y == b.y; } };
    struct rec2 { int x, y; };
    struct data_pool { rec r[3]; rec2 q[3]; std::shared_ptr<rec2> s[3]; data_pool() { guard_harness g; for (int i = 0; i < 3; ++i) { r[i] = { 4000 + 2 * i, 4001 + 2 * i }; q[i] = { 4100 + 2 * i, 4101 + 2 * i }; s[i] = std::make_shared<rec2>(rec2{ 4200 + 2 * i, 4201 + 2 * i }); } } };
    template<int K> int nullary() { return 4300 + K; }
    void make_families(families<int()>& f, data_pool& p)
    {
        using S = int(); using slot = slot_of<S>;
        add<S>(f, "data, pointer", true, 6, same, [](int k) { return 4000 + k; }, [&p](int k, int form, auto op) { int rec::*t[] = { &rec::x, &rec::y }; pass2<slot>(t[k & 1], &p.r[k / 2], form, op); });
        add<S>(f, "data, copy", true, 6, same, [](int k) { return 4000 + k; }, [&p](int k, int form, auto op) { int rec::*t[] = { &rec::x, &rec::y }; pass2<slot>(t[k & 1], p.r[k / 2], form, op); });
        add<S>(f, "data, incomparable copy", false, 6, same, [](int k) { return 4100 + k; }, [&p](int k, int form, auto op) { int rec2::*t[] = { &rec2::x, &rec2::y }; pass2<slot>(t[k & 1], p.q[k / 2], form, op); });
        add<S>(f, "data, shared_ptr", false, 6, same, [](int k) { return 4200 + k; }, [&p](int k, int form, auto op) { int rec2::*t[] = { &rec2::x, &rec2::y }; pass2<slot>(t[k & 1], p.s[k / 2], form, op); });
        add<S>(f, "nullary function", true, 2, same, [](int k) { return 4300 + k; }, [](int k, int form, auto op) { int (*const t[])() = { nullary<0>, nullary<1> }; pass<slot>(t[k], form, op); });
    }
    template<typename Sig> struct entry { const family<Sig>* f; int key; sig::connection c; sig::connection_blocker b; bool alive, blocked; };

    template<typename Sig> void expect_state(std::vector<entry<Sig>>& e, const char* when)
    {
        for (size_t i = 0; i < e.size(); ++i)
        {
            ++judged;
            if (e[i].c.connected() != e[i].alive) fail("%s: slot %zu (%s, key %d) is %s", when, i, e[i].f->name, e[i].key, e[i].alive ? "disconnected" : "still connected");
        }
    }
    template<typename Sig> void scene(const families<Sig>& f)
    {
        typename signal_for<Sig>::type s;
        std::vector<entry<Sig>> e;
        const family<Sig>* use[3];
        for (auto& u : use) u = f[R.below(uint32_t(f.size()))].get();
        auto connect = [&]() {
            const family<Sig>* u = use[R.below(3)]; int key = int(R.below(uint32_t(u->keys))), form = int(R.below(forms)); bool scoped = R.chance(1, 5);
            tr("connect %s key %d form %d%s", u->name, key, form, scoped ? " scoped" : "");
            entry<Sig> x{ u, key, u->connect(s, key, form, scoped), {}, true, false };
            guard_harness g; e.push_back(std::move(x));
        };
        int n = int(R.below(9));
        for (int i = 0; i < n; ++i) connect();
        int rounds = 1 + int(R.below(5));
        for (int round = 0; round < rounds; ++round)
        {
            for (auto& x : e)
            {
                if (!x.alive || !R.chance(1, 6)) continue;
                switch (R.below(4))
                {
                case 0: tr("disconnect by handle"); if (!x.c.disconnect()) fail("a connected slot is not disconnected by its handle"); x.alive = false; break;
                case 1: x.c.block(); x.blocked = true; break;
                case 2: x.b = x.c.blocker(); x.blocked = true; break;
                default: x.c.unblock(); x.b = sig::connection_blocker(); x.blocked = false;
                }
            }
            if (R.chance(1, 4)) connect();
            // mostly a callable that has been connected
            const family<Sig>* u = use[R.below(3)]; int key = int(R.below(uint32_t(u->keys))), form = int(R.below(forms));
            if (!e.empty() && R.chance(2, 3)) { auto& x = e[R.below(uint32_t(e.size()))]; u = x.f; key = x.key; }
            if (R.chance(1, 8)) u = f[R.below(uint32_t(f.size()))].get(), key %= u->keys;
            size_t want = 0; bool throws = false, may = false; // different member functions may be told apart without comparing the objects
            for (auto& x : e) if (x.alive && x.f == u) { if (!u->comparable) { may = true; if (!u->member || !((x.key ^ key) & 1)) throws = true; } else if (u->eq(x.key, key)) { x.alive = false; ++want; } }
            tr("disconnect(%s key %d form %d)", u->name, key, form);
            size_t got = 0; bool threw = false;
            try { got = u->disconnect(s, key, form); } catch (const sig::not_comparable_exception&) { threw = true; }
            judged += 2;
            if (threw ? !may : throws) fail("disconnecting a callable (%s) %s", u->name, threw ? "throws although no incomparable slot of its type is connected" : "does not throw although a slot of its type, which cannot be compared, is connected");
            if (got != want) fail("disconnecting a callable (%s) reports %zu slots instead of %zu", u->name, got, want);
            expect_state(e, "after disconnecting by callable");
            std::vector<int> due; { guard_harness g; for (auto& x : e) if (x.alive && !x.blocked) due.push_back(x.f->code(x.key)); }
            std::vector<int> did = signal_for<Sig>::run(s);
            guard_harness g;
            std::sort(due.begin(), due.end()); std::sort(did.begin(), did.end());
            ++judged;
            if (due != did) fail("after disconnecting by callable (%s) %zu slots run instead of %zu, or other ones", u->name, did.size(), due.size());
        }
        guard_harness g; std::vector<entry<Sig>>().swap(e);
    }
    template<typename Sig> void compare(const families<Sig>& f)
    {
        for (int i = 0; i < 6; ++i)
        {
            const family<Sig>* u = f[R.below(uint32_t(f.size()))].get(); const family<Sig>* v = R.chance(2, 3) ? u : f[R.below(uint32_t(f.size()))].get();
            int a = int(R.below(uint32_t(u->keys))), b = R.chance(1, 3) ? a % v->keys : int(R.below(uint32_t(v->keys))), fa = int(R.below(forms)), fb = int(R.below(forms));
            tr("compare %s key %d form %d with %s key %d form %d", u->name, a, fa, v->name, b, fb);
            auto x = u->make(a, fa); auto y = v->make(b, fb);
            bool want = u == v && u->eq(a, b), may = u == v && !u->comparable, throws = may && (!u->member || !((a ^ b) & 1));
            for (int ne = 0; ne < 4; ++ne)
            {
                bool got = false, threw = false;
                const auto& cx = x; const auto& cy = y;
                try { got = ne == 0 ? cx == cy : ne == 1 ? !(cx != cy) : ne == 2 ? cy == cx : !(cy != cx); } catch (const sig::not_comparable_exception&) { threw = true; }
                ++judged;
                if (threw ? !may : throws) fail("comparing slots (%s, %s) %s", u->name, v->name, threw ? "throws" : "does not throw although they cannot be compared");
                if (!threw && got != want) fail("slots of %s key %d and %s key %d compare %s", u->name, a, v->name, b, got ? "equal" : "unequal");
            }
        }
    }
}
int main(int argc, char** argv)
{
    init(argc, argv);
    bool cmp = vf::opt().profile == "C21";
    pool<int> pi; pool<void> pv; data_pool pd;
    families<int(int)> fi; families<void(int)> fv; families<int()> fd;
    { guard_harness g; make_families(fi, pi); make_families(fv, pv); make_families(fd, pd); }
    int objects = live_uid(2);
    run_cases("equal", vf::opt().cases, [&](long k) {
        R = rng(case_seed(k, 6)); uint64_t before = judged;
        uint32_t t = R.below(9);
        track_blocks(true);
        if (t < 4) { if (cmp) compare(fi); else scene(fi); }
        else if (t < 8) { if (cmp) compare(fv); else scene(fv); }
        else if (cmp) compare(fd);
        else scene(fd);
        { guard_harness g; std::vector<int>().swap(ran); }
        expect_no_blocks("at the end of the case");
        track_blocks(false);
        if (live_uid(1) || live_uid(2) != objects) fail("%d callables and %d objects are alive at the end of the case", live_uid(1), live_uid(2) - objects);
        end_case(judged > before);
    });
    count("judged_events", judged);
    summary();
}

// One module of portable.hpp. PART numbers it.
#include "portable.hpp"

#define PT_CAT2(a, b) a##b
#define PT_CAT(a, b) PT_CAT2(a, b)

namespace pt
{
    namespace
    {
        int local(int a, const std::string& s) { called(70000 + PART, a, s); return result(70000 + PART, a); }

        int bindable(int label, int a, const std::string& s) { called(label, a, s); return result(label, a); }

        template<typename R, typename F> R with(int kind, int id, bound& b, F f)
        {
            switch (kind)
            {
            case k_function: switch (id % 4) { case 0: return f(&ff<0>); case 1: return f(ff<1>); case 2: return f(&ff<2>); default: return f(ff<3>); }
            case k_functor: if (id & 1) { functor x(id); return f(x); } return f(functor(id));
            case k_pmf: { base* p = b.raw; return f(&base::first, p); }
            case k_const_pmf: { const object* p = b.raw; return f(&base::second, p); }
            case k_static: return f(local);
            case k_tracked: return f(&object::first, b.shared);
            case k_lambda: { vf::canary c(id); return f([id, c](int a, const std::string& s) { c.check("called"); called(80000 + id, a, s); return result(80000 + id, a); }); }
            case k_std_function: { functor x(id); return f(std::function<int(int, const std::string&)>(x)); }
            case k_bind: return f(std::bind(&bindable, 90000 + id, std::placeholders::_1, std::placeholders::_2));
            case k_shot: return f(shot(id));
            case k_slot: { functor x(id); const slot s(x); return f(s); }
            default: return f(&base::second, std::ref(static_cast<base&>(*b.raw)));
            }
        }

        struct connects
        {
            S& s;
            template<typename F> sig::connection operator()(F&& f) { return s.connect(std::forward<F>(f)); }
            template<typename F, typename P> sig::connection operator()(F&& f, P&& p) { return s.connect(std::forward<F>(f), std::forward<P>(p)); }
        };
        struct connects_scoped
        {
            S& s;
            template<typename F> sig::scoped_connection operator()(F&& f) { return s.connect_scoped(std::forward<F>(f)); }
            template<typename F, typename P> sig::scoped_connection operator()(F&& f, P&& p) { return s.connect_scoped(std::forward<F>(f), std::forward<P>(p)); }
        };
        struct disconnects
        {
            S& s;
            template<typename F> std::size_t operator()(F&& f) { return s.disconnect(std::forward<F>(f)); }
            template<typename F, typename P> std::size_t operator()(F&& f, P&& p) { return s.disconnect(std::forward<F>(f), std::forward<P>(p)); }
        };
        struct makes
        {
            template<typename F> slot operator()(F&& f) { return slot(std::forward<F>(f)); }
            template<typename F, typename P> slot operator()(F&& f, P&& p) { return slot(std::forward<F>(f), std::forward<P>(p)); }
        };

        struct cannot_copy_error { int v; };
        struct failing
        {
            bool call; std::shared_ptr<int> copies;
            failing(bool c, int n) : call(c), copies(std::make_shared<int>(n)) {}
            failing(const failing& o) : call(o.call), copies(o.copies) { if (--*copies < 0) throw cannot_copy_error{ 5 }; }
            int operator()(int a, const std::string&) { if (call) throw std::out_of_range("slot"); return a; }
        };
        struct incomparable { int operator()(int a, const std::string&) { return a; } };

        S* create() { return new S(); }
        void destroy(S* s) { delete s; }
        S* move_(S* s) { return new S(std::move(*s)); }
        void assign(S* a, S* b) { *a = std::move(*b); }
        sig::connection connect(S& s, int k, int id, bound& b) { return with<sig::connection>(k, id, b, connects{ s }); }
        sig::scoped_connection connect_scoped(S& s, int k, int id, bound& b) { return with<sig::scoped_connection>(k, id, b, connects_scoped{ s }); }
        std::size_t disconnect(S& s, int k, int id, bound& b) { return with<std::size_t>(k, id, b, disconnects{ s }); }
        std::size_t disconnect_slot(S& s, const slot& x) { return s.disconnect(x); }
        opt::optional<int> emit(S& s, int a, const std::string& t) { return s(a, t); }
        slot make(int k, int id, bound& b) { return with<slot>(k, id, b, makes()); }
        slot copy(const slot& s) { return s; }
        bool equal(const slot& a, const slot& b) { if ((a == b) == (a != b)) vf::fail("== and != of slots agree"); return a == b; }
        opt::optional<int> call(slot& s, int a, const std::string& t) { return s(std::move(a), t); }
        bool off(sig::connection& c) { return c.disconnect(); }
        bool connected(const sig::connection& c) { return c.connected(); }
        bool blocked(const sig::connection& c) { return c.blocked(); }
        void block(sig::connection& c, bool on) { if (on) c.block(); else c.unblock(); }
        sig::connection_blocker blocker(const sig::connection& c) { return c.blocker(); }
        sig::connection duplicate(const sig::connection& c) { sig::connection d; d = c; sig::connection e(d); swap(d, e); return e; }
        void drop(sig::scoped_connection& c) { c = sig::scoped_connection(); }
        sig::connection release(sig::scoped_connection& c) { return c.release(); }
        void void_connect(V& v, int n) { switch (n) { case 0: v.connect(vv<0>); break; case 1: v.connect(&vv<1>); break; default: v.connect(vv<2>); } }
        void void_emit(V& v, std::string& s, int a) { static_assert(std::is_same<decltype(v(s, a)), opt::optional<void>>::value, "result"); if (v(s, a)) vf::fail("a void emission has a result"); }
        std::size_t void_disconnect(V& v, int n) { switch (n) { case 0: return v.disconnect(&vv<0>); case 1: return v.disconnect(vv<1>); default: return v.disconnect(&vv<2>); } }

        text text_of(bool on, const std::string& s) { if (on) return text(s); return opt::nullopt; }
        void text_assign(text& a, const text& b, int how)
        {
            switch (how)
            {
            case 0: a = b; break;
            case 1: { text t(b); a = std::move(t); break; }
            case 2: if (b) a = *b; else a = opt::nullopt; break;
            case 3: if (b) a.emplace(b->size(), 'x'); else a.reset(); break;
            case 4: { text t(b); a.swap(t); break; }
            default: { text t(b); using std::swap; swap(a, t); }
            }
        }
        template<typename A, typename B> int six(const A& a, const B& b) { return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5; }
        int text_compare(const text& a, const text& b) { return six(a, b); }
        int text_value(const text& a, const std::string& d) // bit 0: value_or took the default, bit 1: value() threw
        {
            int r = a.value_or(d) == d ? 1 : 0;
            try { const std::string& v = a.value(); if (!a || &v != a.get_ptr()) vf::fail("value() is not the value"); } catch (const opt::bad_optional_access&) { r |= 2; }
            return r;
        }
        std::string text_read(const text& a) { return a ? *a : "(none)"; }
        int number_compare(const number& a, const number& b, int v)
        {
            int x = v; opt::optional<int&> r(x); opt::optional<const int&> cr(x);
            if (six(r, v) != six(v, v) || six(cr, v) != six(v, v) || six(v, r) != six(v, v)) vf::fail("an optional reference compares differently from its value");
            return six(a, b) | six(a, v) << 6 | six(v, b) << 12 | six(a, opt::nullopt) << 18 | six(opt::nullopt, b) << 24;
        }
        int fails(S& s, bound& b)
        {
            int n = 0;
            try { sig::connection c; failing f(false, 0); c = s.connect(f); } catch (const cannot_copy_error& e) { n += e.v == 5; }
            sig::scoped_connection c = s.connect_scoped(failing(true, 1000));
            try { s(1, ""); } catch (const std::out_of_range& e) { n += std::string(e.what()) == "slot"; }
            c = s.connect_scoped(incomparable());
            try { s.disconnect(incomparable()); } catch (const sig::not_comparable_exception&) { ++n; }
            c = s.connect_scoped(&base::second, std::make_shared<object>(-5));
            if (c.connected()) vf::fail("a slot outlives its tracked object");
            (void)b;
            return n;
        }
    }

    const module* PT_CAT(part, PART)()
    {
        static const module m = {
#ifdef __clang__
            "clang",
#else
            "gcc",
#endif
            __cplusplus,
#ifdef __OPTIMIZE__
            1,
#else
            0,
#endif
            create, destroy, move_, assign, connect, connect_scoped, disconnect, disconnect_slot, emit, make, copy, equal, call, off, connected, blocked, block, blocker, duplicate, drop, release,
            void_connect, void_emit, void_disconnect, text_of, text_assign, text_compare, text_value, number_compare, text_read, fails };
        return &m;
    }
}

// C18: random operation sequences on pools of opt::optional, mirrored on std::optional; after every operation the whole pool is compared.
// C24 (--profile C24): the same operations with constructors and assignments that throw at a random point, every construction, use and
// destruction of a value observed.
#include "vf.hpp"
#include <optional.hpp>
#include <array>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
using namespace vf;

namespace
{
    rng R(1);
    uint64_t judged = 0;

    // ---- value types -----------------------------------------------------------------------------------------------------
    long throw_in = -1; // countdown to the next failure
    uint64_t thrown = 0;
    struct boom { int id; };
    int throw_id = 0;
    void may_throw() { if (throw_in >= 0 && throw_in-- == 0) { ++thrown; throw boom{ ++throw_id }; } }
    const int MOVED = -4242;

    enum feature { CopyMove = 0, MoveOnly = 1, CopyOnly = 2, NoAssign = 3 };

    template<int Kind, size_t Align> struct alignas(Align) tok
    {
        canary c; int v; std::unique_ptr<int> heap; // heap: overwritten or leaked values are seen by ASan
        static void* operator new(size_t) = delete; // values live inside the optional
        void at() const { if (reinterpret_cast<uintptr_t>(this) % Align) fail("a value lives at the misaligned address %p (alignment %zu)", (const void*)this, Align); }
        void set(int x) { v = x; { guard_harness g; heap.reset(new int(x)); } }
        explicit tok(int a) : c((may_throw(), 1)), v(0) { at(); set(a); }
        tok(int a, int b) : c((may_throw(), 1)), v(0) { at(); set(a + b); }
        tok(std::initializer_list<int> il, int b = 0) : c((may_throw(), 1)), v(0) { at(); set(std::accumulate(il.begin(), il.end(), b)); }
        tok(const tok& o) : c((may_throw(), o.c)), v(0) { static_assert(Kind != MoveOnly, ""); at(); set(*o.heap); }
        tok(tok&& o) : c((may_throw(), std::move(o.c))), v(0) { at(); set(*o.heap); o.set(MOVED); }
        tok& operator=(const tok& o) { c.check("assigned"); o.c.check("read"); may_throw(); set(*o.heap); return *this; }
        tok& operator=(tok&& o) { c.check("assigned"); o.c.check("moved"); may_throw(); int x = *o.heap; o.set(MOVED); set(x); return *this; }
        ~tok() { at(); set(-1); guard_harness g; heap.reset(); }
        bool operator==(const tok& o) const { c.check("compared"); o.c.check("compared"); return v == o.v && *heap == *o.heap; }
    };
    using tok0 = tok<CopyMove, alignof(void*)>;
    using tok64 = tok<CopyMove, 64>;

    struct move_only
    {
        tok0 t; explicit move_only(int a) : t(a) {} move_only(int a, int b) : t(a, b) {}
        move_only(move_only&&) = default; move_only& operator=(move_only&&) = default; move_only(const move_only&) = delete;
        bool operator==(const move_only& o) const { return t == o.t; }
    };
    struct copy_only
    {
        tok0 t; explicit copy_only(int a) : t(a) {} copy_only(int a, int b) : t(a, b) {}
        copy_only(const copy_only& o) : t(static_cast<const tok0&>(o.t)) {} copy_only& operator=(const copy_only& o) { t = static_cast<const tok0&>(o.t); return *this; }
        bool operator==(const copy_only& o) const { return t == o.t; }
    };
    struct no_assign
    {
        tok0 t; const int k = 4; explicit no_assign(int a) : t(a) {} no_assign(int a, int b) : t(a, b) {}
        no_assign(const no_assign&) = default; no_assign(no_assign&&) = default;
        bool operator==(const no_assign& o) const { return t == o.t; }
    };
    struct amp // operator& says nothing useful
    {
        int v; std::string s; explicit amp(int a) : v(a), s(std::to_string(a) + "-a-string-that-does-not-fit-inline") {} amp(int a, int b) : amp(a + b) {}
        amp* operator&() { return nullptr; } const amp* operator&() const { return nullptr; }
        bool operator==(const amp& o) const { return v == o.v && s == o.s; }
    };
    struct big { char pad[3000]; int v; std::string s; explicit big(int a) : v(a), s(50, char('a' + (a & 15))) { std::memset(pad, a, sizeof pad); } big(int a, int b) : big(a + b) {}
        bool operator==(const big& o) const { return v == o.v && s == o.s && !std::memcmp(pad, o.pad, sizeof pad); } };
    enum class color { a, b, c };
    // converts to others
    struct src { int v = 0; explicit src(int a) : v(a) {} operator int() const { return v; } operator std::string() const { return "src-" + std::to_string(v) + "-longer-than-the-inline-buffer"; }
        operator tok0() const& { return tok0(v); } operator double() const { return v * 0.5; } bool operator==(const src& o) const { return v == o.v; } };

    template<typename T> struct make { static T of(int a) { return T(a); } };
    template<> struct make<bool> { static bool of(int a) { return a & 1; } };
    template<> struct make<color> { static color of(int a) { return color(a % 3); } };
    template<> struct make<int*> { static int* of(int a) { static int x[64]; return a & 1 ? nullptr : &x[a & 63]; } };
    template<> struct make<std::nullptr_t> { static std::nullptr_t of(int) { return nullptr; } };
    template<> struct make<std::string> { static std::string of(int a) { return std::string(size_t(a % 40), char('a' + a % 26)); } };
    template<> struct make<std::vector<int>> { static std::vector<int> of(int a) { return std::vector<int>(size_t(a % 5), a); } };
    template<> struct make<std::shared_ptr<int>> { static std::shared_ptr<int> of(int a) { return a & 1 ? nullptr : std::make_shared<int>(a); } };
    template<> struct make<std::unique_ptr<int>> { static std::unique_ptr<int> of(int a) { return std::unique_ptr<int>(a & 1 ? nullptr : new int(a)); } };
    template<> struct make<std::pair<int, std::string>> { static std::pair<int, std::string> of(int a) { return { a, make<std::string>::of(a) }; } };
    template<> struct make<const int> { static int of(int a) { return a; } };
    template<> struct make<const std::string> { static std::string of(int a) { return make<std::string>::of(a); } };
    template<typename U> struct make<opt::optional<U>> { static opt::optional<U> of(int a) { return a % 3 ? opt::optional<U>(make<U>::of(a)) : opt::optional<U>(); } };

    template<typename T> bool same(const T& a, const T& b) { return a == b; }
    bool same(const std::shared_ptr<int>& a, const std::shared_ptr<int>& b) { return bool(a) == bool(b) && (!a || *a == *b); }
    bool same(const std::unique_ptr<int>& a, const std::unique_ptr<int>& b) { return bool(a) == bool(b) && (!a || *a == *b); }

    template<typename T> void where(const opt::optional<T>& o)
    {
        // The value lives inside the optional.
        auto p = reinterpret_cast<const char*>(std::addressof(*o)), b = reinterpret_cast<const char*>(std::addressof(o));
        if (p < b || p + sizeof(T) > b + sizeof o) fail("the value of an optional lives at %p, outside of the optional %p..%p", (void*)p, (void*)b, (void*)(b + sizeof o));
        if (reinterpret_cast<uintptr_t>(p) % alignof(T)) fail("the value of an optional lives at the misaligned address %p", (void*)p);
    }

    // ---- C18 ------------------------------------------------------------------------------------------------------------------
    const int N = 4;
    template<typename T> struct pool
    {
        using O = opt::optional<T>; using S = std::optional<T>; using M = make<T>;
        static constexpr bool copyable = std::is_copy_constructible<T>::value;
        static constexpr bool assignable = std::is_move_assignable<T>::value;
        std::vector<std::unique_ptr<O>> o; std::vector<S> s;
        const char* name;

        pool(const char* n) : name(n) { for (int i = 0; i < N; ++i) { o.emplace_back(new O()); s.emplace_back(); } }
        void judge(const char* op)
        {
            for (int i = 0; i < N; ++i)
            {
                const O& x = *o[size_t(i)]; const S& y = s[size_t(i)];
                ++judged;
                if (x.has_value() != y.has_value()) fail("optional<%s> %d is %s after %s, std::optional is %s", name, i, x ? "engaged" : "disengaged", op, y ? "engaged" : "disengaged");
                if (bool(x) != x.has_value() || x.is_initialized() != x.has_value()) fail("optional<%s>: bool, has_value and is_initialized disagree after %s", name, op);
                if (x.has_value())
                {
                    if (!same<T>(x)(*x, *y)) fail("optional<%s> %d holds another value than std::optional after %s", name, i, op);
                    where(x);
                    if (x.get_ptr() != std::addressof(*x) || std::addressof(x.get()) != std::addressof(*x) || std::addressof(x.value()) != std::addressof(*x) || x.operator->() != std::addressof(*x))
                        fail("optional<%s>: the accessors refer to different objects after %s", name, op);
                }
                else if (x.get_ptr()) fail("optional<%s>: get_ptr of a disengaged optional is not null after %s", name, op);
            }
        }
        template<typename X> static auto same(const opt::optional<X>&) { return [](const X& a, const X& b) { return ::same(a, b); }; }
        template<typename X, typename Y> void cmp(const char* op, const X& a, const Y& b) { ++judged; if (!::same(a, b)) fail("optional<%s>: %s yields another value than std::optional", name, op); }

        void step()
        {
            int i = int(R.below(N)), j = int(R.below(N)), v = int(R.below(200)), op = int(R.below(36));
            auto &x = o[size_t(i)], &y = o[size_t(j)]; auto &p = s[size_t(i)], &q = s[size_t(j)];
            const char* what = "nothing";
            tr("%s: op %d on %d, %d, value %d", name, op, i, j, v);
            switch (op)
            {
            case 0: what = "default construction"; x.reset(new O()); p.~S(); new (&p) S(); break;
            case 1: what = "construction from nullopt"; x.reset(new O(opt::nullopt)); p.~S(); new (&p) S(std::nullopt); break;
            case 2: case 3: what = "construction from an rvalue"; x.reset(new O(M::of(v))); p.~S(); new (&p) S(M::of(v)); break;
            case 4: if constexpr (copyable) { what = "construction from an lvalue"; auto l = M::of(v); x.reset(new O(l)); p.~S(); new (&p) S(l); cmp("the source of a copy", l, M::of(v)); } break;
            case 5: if constexpr (copyable) { what = "copy construction"; std::unique_ptr<O> n(new O(static_cast<const O&>(*y))); S m(static_cast<const S&>(q)); x = std::move(n); p.~S(); new (&p) S(std::move(m)); } break;
            case 6: { what = "move construction"; std::unique_ptr<O> n(new O(std::move(*y))); S m(std::move(q)); x = std::move(n); p.~S(); new (&p) S(std::move(m)); break; }
            case 7: what = "in-place construction"; if constexpr (std::is_same<T, tok0>::value || std::is_same<T, tok64>::value || std::is_same<T, move_only>::value || std::is_same<T, copy_only>::value || std::is_same<T, no_assign>::value || std::is_same<T, amp>::value || std::is_same<T, big>::value)
                { x.reset(new O(opt::in_place, v, 7)); p.~S(); new (&p) S(std::in_place, v, 7); } else { x.reset(new O(opt::in_place, M::of(v))); p.~S(); new (&p) S(std::in_place, M::of(v)); } break;
            case 8: what = "in-place-if construction"; if constexpr (assignable && !std::is_same<T, std::nullptr_t>::value) { bool c = v & 1; x.reset(new O(opt::in_place_if, c, M::of(v))); p.~S(); if (c) new (&p) S(M::of(v)); else new (&p) S(); } break;
            case 9: what = "in-place construction from a list"; if constexpr (std::is_same<T, std::vector<int>>::value || std::is_same<T, tok0>::value) { x.reset(new O(opt::in_place, { v, 2, 3 })); p.~S(); new (&p) S(std::in_place, { v, 2, 3 }); } else if constexpr (std::is_same<T, std::string>::value) { x.reset(new O(opt::in_place, { 'a', char('a' + v % 20) })); p.~S(); new (&p) S(std::in_place, { 'a', char('a' + v % 20) }); } break;
            case 10: what = "in-place-if construction from a list"; if constexpr (std::is_same<T, std::vector<int>>::value || std::is_same<T, tok0>::value) { bool c = v & 1; x.reset(new O(opt::in_place_if, c, { v, 2 })); p.~S(); if (c) new (&p) S(std::in_place, { v, 2 }); else new (&p) S(); } break;
            case 11: what = "conditional construction"; { bool c = v & 1; x.reset(new O(c, M::of(v))); p.~S(); if (c) new (&p) S(M::of(v)); else new (&p) S(); } break;
            case 12: if constexpr (copyable && assignable) { what = i == j ? "self copy assignment" : "copy assignment"; *x = static_cast<const O&>(*y); p = static_cast<const S&>(q); } break;
            case 13: if constexpr (assignable) { if (i != j) { what = "move assignment"; *x = std::move(*y); p = std::move(q); } } break;
            case 14: case 15: if constexpr (assignable) { what = "assignment of an rvalue"; *x = M::of(v); p = M::of(v); } break;
            case 16: if constexpr (copyable && assignable) { what = "assignment of an lvalue"; const auto l = M::of(v); *x = l; p = l; cmp("the assigned object", l, M::of(v)); } break;
            case 17: what = "assignment of nullopt"; *x = opt::nullopt; p = std::nullopt; break;
            case 18: what = "reset"; x->reset(); p.reset(); break;
            case 19: if constexpr (assignable) { what = "emplace"; x->emplace(M::of(v)); p.emplace(M::of(v)); } break;
            case 20: what = "emplace from arguments"; if constexpr (std::is_same<T, tok0>::value || std::is_same<T, tok64>::value || std::is_same<T, move_only>::value || std::is_same<T, no_assign>::value || std::is_same<T, amp>::value || std::is_same<T, big>::value) { x->emplace(v, 11); p.emplace(v, 11); }
                else if constexpr (std::is_same<T, std::vector<int>>::value) { x->emplace({ v, v, 5 }); p.emplace({ v, v, 5 }); } else if constexpr (std::is_same<T, std::string>::value) { x->emplace(size_t(v), 'q'); p.emplace(size_t(v), 'q'); } break;
            case 21: if constexpr (assignable) { what = "swap"; x->swap(*y); p.swap(q); } break;
            case 22: if constexpr (assignable) { what = "std::swap"; std::swap(*x, *y); std::swap(p, q); } break;
            case 23:
            {
                what = "value()"; bool threw = false, threw2 = false;
                try { auto& r = x->value(); if (std::addressof(r) != x->get_ptr()) fail("value() refers to something else"); } catch (const opt::bad_optional_access& e) { threw = true; (void)e.what(); }
                try { const O& c = *x; auto& r = c.value(); if (std::addressof(r) != x->get_ptr()) fail("value() refers to something else"); } catch (const std::logic_error&) { threw2 = true; }
                ++judged;
                if (threw == p.has_value() || threw2 == p.has_value()) fail("optional<%s>: value() of %s optional %s", name, p ? "an engaged" : "a disengaged", threw ? "throws" : "does not throw");
                break;
            }
            case 24: if constexpr (!std::is_const<T>::value) { what = "value() &&"; bool threw = false; try { T r(std::move(*x).value()); T w(std::move(p).value()); cmp(what, r, w); } catch (const opt::bad_optional_access&) { threw = true; } if (threw == p.has_value()) fail("optional<%s>: value() && throws wrongly", name); } break;
            case 25: if constexpr (copyable) { what = "value_or"; const O& c = *x; cmp(what, c.value_or(M::of(v)), p.value_or(M::of(v))); } break;
            case 26: if constexpr (!std::is_const<T>::value) { what = "value_or &&"; auto l = M::of(v), m = M::of(v); cmp(what, std::move(*x).value_or(std::move(l)), std::move(p).value_or(std::move(m))); } break;
            case 27: { what = "get_value_or"; auto l = M::of(v); const O& c = *x; auto& r = c.get_value_or(l); ++judged; if (std::addressof(r) != (p ? c.get_ptr() : std::addressof(l))) fail("optional<%s>: get_value_or refers to the wrong object", name);
                const auto& r2 = opt::get_optional_value_or(c, l); if (std::addressof(r2) != std::addressof(r)) fail("optional<%s>: get_optional_value_or refers to the wrong object", name); if constexpr (!std::is_const<T>::value) { auto& r3 = x->get_value_or(l); if (std::addressof(r3) != std::addressof(r)) fail("get_value_or"); auto& r4 = opt::get_optional_value_or(*x, l); if (std::addressof(r4) != std::addressof(r)) fail("get_optional_value_or"); } break; }
            case 28: { what = "get_pointer"; const O& c = *x; ++judged; if (opt::get_pointer(*x) != x->get_ptr() || opt::get_pointer(c) != c.get_ptr() || opt::get(&*x) != x->get_ptr() || opt::get(&c) != c.get_ptr()) fail("optional<%s>: get_pointer/get refer to another object", name);
                if (p && (std::addressof(opt::get(*x)) != x->get_ptr() || std::addressof(opt::get(c)) != c.get_ptr())) fail("optional<%s>: get refers to another object", name); break; }
            case 29: if constexpr (assignable) { what = "modification through *"; if (p) { **x = M::of(v); *p = M::of(v); } } break;
            case 30: if constexpr (assignable) { what = "modification through get_ptr"; if (T* r = x->get_ptr()) { *r = M::of(v); *p = M::of(v); } } break;
            case 31: if constexpr (!std::is_const<T>::value) { what = "moving out of *"; if (p) { T r(*std::move(*x)); T w(*std::move(p)); cmp(what, r, w); } } break;
            case 32: if constexpr (!std::is_const<T>::value) { what = "make_optional"; auto m = opt::make_optional(M::of(v)); static_assert(std::is_same<decltype(m), O>::value, ""); S n(M::of(v)); if constexpr (assignable) { *x = std::move(m); p = std::move(n); } else { x.reset(new O(std::move(m))); p.~S(); new (&p) S(std::move(n)); } } break;
            case 33: if constexpr (!std::is_const<T>::value && assignable) { what = "make_optional(bool, value)"; bool c = v & 1; *x = opt::make_optional(c, M::of(v)); if (c) p = M::of(v); else p.reset(); } break;
            case 34: if constexpr (copyable && assignable) { what = "assignment of its own value"; if (p) { *x = **x; p = T(*p); } } break;
            case 35: convert(what, *x, p, v); break;
            }
            judge(what);
        }
        // from optionals of other types
        template<typename U> void conv(const char*& what, O& x, S& p, const U& u, int how)
        {
            opt::optional<U> e(u), d; std::optional<U> se(u), sd;
            bool eng = how & 1; auto& a = eng ? e : d; auto& b = eng ? se : sd;
            switch ((how >> 1) % 4)
            {
            case 0: what = "copy assignment from another optional type"; x = static_cast<const opt::optional<U>&>(a); p = static_cast<const std::optional<U>&>(b); break;
            case 1: what = "move assignment from another optional type"; x = std::move(a); p = std::move(b); break;
            case 2: { what = "copy construction from another optional type"; O n(static_cast<const opt::optional<U>&>(a)); S m(static_cast<const std::optional<U>&>(b)); x = std::move(n); p = std::move(m); break; }
            default: { what = "move construction from another optional type"; O n(std::move(a)); S m(std::move(b)); x = std::move(n); p = std::move(m); }
            }
            ++judged;
            if (a.has_value() != eng) fail("optional<%s>: %s changed whether the source is engaged", name, what);
            if (eng && !::same(*a, *b)) fail("optional<%s>: the source holds another value than std::optional's after %s", name, what);
        }
        void convert(const char*& what, O& x, S& p, int v)
        {
            int how = int(R.below(8));
            if constexpr (std::is_same<T, int>::value) { if (v & 1) conv(what, x, p, short(v), how); else conv(what, x, p, src(v), how); }
            else if constexpr (std::is_same<T, double>::value) conv(what, x, p, v, how);
            else if constexpr (std::is_same<T, std::string>::value) { if (v & 1) conv(what, x, p, static_cast<const char*>("a string literal that does not fit inline"), how); else conv(what, x, p, src(v), how); }
            else if constexpr (std::is_same<T, tok0>::value) conv(what, x, p, src(v), how);
            else if constexpr (std::is_same<T, std::shared_ptr<int>>::value) { if (!(how & 2)) conv(what, x, p, std::make_shared<int>(v), how); }
        }
        static void run(const char* n, int steps) { pool p(n); for (int k = 0; k < steps; ++k) p.step(); }
    };

    // optional references
    template<typename T> void refs(const char* name, int steps)
    {
        using O = opt::optional<T&>;
        using V = typename std::remove_const<T>::type;
        V obj[5] = { V(make<V>::of(1)), V(make<V>::of(2)), V(make<V>::of(3)), V(make<V>::of(4)), V(make<V>::of(5)) };
        int val[5] = { 1, 2, 3, 4, 5 };
        std::vector<std::unique_ptr<O>> o; T* m[N] = {};
        for (int i = 0; i < N; ++i) o.emplace_back(new O());
        for (int k = 0; k < steps; ++k)
        {
            int i = int(R.below(N)), j = int(R.below(N)), r = int(R.below(5)), op = int(R.below(16)), v = int(R.below(200));
            tr("%s: op %d on %d, %d, object %d, value %d", name, op, i, j, r, v);
            switch (op)
            {
            case 0: o[size_t(i)].reset(new O(static_cast<T&>(obj[r]))); m[i] = std::addressof(obj[r]); break;
            case 1: o[size_t(i)].reset(new O(opt::in_place, static_cast<T&>(obj[r]))); m[i] = std::addressof(obj[r]); break;
            case 2: { std::unique_ptr<O> n(new O(*o[size_t(j)])); o[size_t(i)] = std::move(n); m[i] = m[j]; break; }
            case 3: *o[size_t(i)] = *o[size_t(j)]; m[i] = m[j]; break;
            case 4: *o[size_t(i)] = static_cast<const O&>(*o[size_t(j)]); m[i] = m[j]; break;
            case 5: *o[size_t(i)] = O(static_cast<T&>(obj[r])); m[i] = std::addressof(obj[r]); break;
            case 6: *o[size_t(i)] = opt::nullopt; m[i] = nullptr; break;
            case 7: o[size_t(i)]->reset(); m[i] = nullptr; break;
            case 8: o[size_t(i)]->emplace(static_cast<T&>(obj[r])); m[i] = std::addressof(obj[r]); break;
            case 9: o[size_t(i)]->swap(*o[size_t(j)]); std::swap(m[i], m[j]); break;
            case 10: std::swap(*o[size_t(i)], *o[size_t(j)]); std::swap(m[i], m[j]); break;
            case 11: *o[size_t(i)] = opt::make_optional(std::reference_wrapper<T>(obj[r])); m[i] = std::addressof(obj[r]); break;
            case 12: if constexpr (!std::is_const<T>::value) if (m[i]) { **o[size_t(i)] = V(make<V>::of(v)); for (int x = 0; x < 5; ++x) if (std::addressof(obj[x]) == m[i]) val[x] = v; } break;
            case 13: { V d(make<V>::of(v)); V got = o[size_t(i)]->value_or(d); ++judged; if (!same(got, m[i] ? static_cast<const V&>(*m[i]) : d)) fail("optional<%s>: value_or yields the wrong value", name); break; }
            case 14: { bool threw = false; try { if (std::addressof(o[size_t(i)]->value()) != m[i]) fail("optional<%s>: value() refers to another object", name); } catch (const opt::bad_optional_access&) { threw = true; } ++judged; if (threw == (m[i] != nullptr)) fail("optional<%s>: value() throws wrongly", name); break; }
            case 15: o[size_t(i)].reset(new O(opt::nullopt)); m[i] = nullptr; break;
            }
            for (int x = 0; x < N; ++x)
            {
                const O& c = *o[size_t(x)]; ++judged;
                if (c.has_value() != (m[x] != nullptr) || bool(c) != c.has_value()) fail("optional<%s> %d is wrongly %s after op %d", name, x, c ? "engaged" : "disengaged", op);
                if (m[x] && (std::addressof(*c) != m[x] || c.operator->() != m[x])) fail("optional<%s> %d refers to the wrong object after op %d", name, x, op);
            }
            for (int x = 0; x < 5; ++x) if (!same(obj[x], V(make<V>::of(val[x])))) fail("optional<%s>: op %d changed a referred object", name, op);
        }
    }
    void voids()
    {
        opt::optional<void> a, b(opt::nullopt), c(a); int x = 5;
        for (int k = 0; k < 6; ++k)
        {
            int op = int(R.below(8)); tr("void: op %d", op);
            switch (op) { case 0: a = b; break; case 1: a = 5; break; case 2: a.emplace(x); break; case 3: a.emplace(7); break; case 4: a.swap(c); break; case 5: a.reset(); break; case 6: a = opt::nullopt; break; default: if (a.value_or(x) != 5) fail("value_or of a void optional"); }
            bool threw = false; try { a.value(); } catch (const opt::bad_optional_access&) { threw = true; }
            ++judged;
            if (a || b || c || a.has_value() || !threw || x != 5) fail("a void optional is engaged or its value() does not throw");
        }
    }
    template<typename T> void p(const char* n) { pool<T>::run(n, 4 + int(R.below(24))); }
    struct form { const char* n; void (*f)(const char*); };
    const form forms[] = {
        { "token", p<tok0> }, { "aligned token", p<tok64> }, { "move-only", p<move_only> }, { "copy-only", p<copy_only> }, { "not assignable", p<no_assign> },
        { "int", p<int> }, { "bool", p<bool> }, { "double", p<double> }, { "char", p<char> }, { "enum", p<color> }, { "pointer", p<int*> }, { "string", p<std::string> }, { "vector", p<std::vector<int>> },
        { "shared_ptr", p<std::shared_ptr<int>> }, { "unique_ptr", p<std::unique_ptr<int>> }, { "pair", p<std::pair<int, std::string>> }, { "overloaded &", p<amp> }, { "big", p<big> },
        { "const int", p<const int> }, { "const string", p<const std::string> },
        { "token&", [](const char* n) { refs<tok0>(n, 4 + int(R.below(24))); } }, { "const token&", [](const char* n) { refs<const tok0>(n, 4 + int(R.below(24))); } }, { "int&", [](const char* n) { refs<int>(n, 4 + int(R.below(24))); } },
        { "const string&", [](const char* n) { refs<const std::string>(n, 4 + int(R.below(24))); } }, { "overloaded & reference", [](const char* n) { refs<amp>(n, 4 + int(R.below(24))); } }, { "void", [](const char*) { voids(); } },
    };

    // ---- C24 ------------------------------------------------------------------------------------------------------------------
    struct tsrc { int v; operator tok0() const { return tok0(v); } operator tok64() const { return tok64(v); } };
    template<typename T> struct throwing
    {
        using O = opt::optional<T>;
        std::vector<std::unique_ptr<O>> o; std::vector<std::optional<int>> m;
        const char* name;
        static T mk(int v) { return T(v); }
        int held() const { int n = 0; for (auto& x : o) n += x && x->has_value(); return n; }
        void judge(const char* op, bool threw)
        {
            for (int i = 0; i < N; ++i)
            {
                const O& x = *o[size_t(i)]; ++judged;
                if (x.has_value() != m[size_t(i)].has_value()) fail("optional<%s> %d is wrongly %s after %s%s", name, i, x ? "engaged" : "disengaged", op, threw ? " that threw" : "");
                if (x) { where(x); const T& t = *x; t.c.check("read"); if (*t.heap != t.v) fail("the value of an optional was overwritten"); if (!threw && t.v != *m[size_t(i)]) fail("optional<%s> %d holds %d instead of %d after %s", name, i, t.v, *m[size_t(i)], op); m[size_t(i)] = t.v; }
            }
            if (live_uid(1) != held()) fail("%d values are alive, %d optionals are engaged after %s%s", live_uid(1), held(), op, threw ? " that threw" : "");
        }
        void step()
        {
            int i = int(R.below(N)), j = int(R.below(N)), v = int(R.below(200)), op = int(R.below(20));
            long k = R.chance(1, 2) ? -1 : long(R.below(4));
            auto &x = o[size_t(i)], &y = o[size_t(j)]; auto &p = m[size_t(i)], &q = m[size_t(j)];
            const char* what = ""; bool threw = false, fresh = false, was = p.has_value(), loose = false;
            tr("%s: op %d on %d, %d, value %d, failure in %ld", name, op, i, j, v, k);
            throw_id = int(v); uint64_t before = thrown;
            std::unique_ptr<O> n;
            try
            {
                // operands are built before failures are armed
                switch (op)
                {
                case 0: { what = "construction from an rvalue"; T t(v); throw_in = k; n.reset(new O(std::move(t))); throw_in = -1; fresh = true; p = v; break; }
                case 1: { what = "construction from an lvalue"; const T t(v); throw_in = k; n.reset(new O(t)); throw_in = -1; fresh = true; p = v; break; }
                case 2: { what = "copy construction"; const O& c = *y; throw_in = k; n.reset(new O(c)); throw_in = -1; fresh = true; p = q; break; }
                case 3: { what = "move construction"; throw_in = k; n.reset(new O(std::move(*y))); throw_in = -1; fresh = true; auto w = q; if (q) q = MOVED; p = w; break; }
                case 4: what = "in-place construction"; throw_in = k; n.reset(new O(opt::in_place, v, 3)); throw_in = -1; fresh = true; p = v + 3; break;
                case 5: what = "in-place-if construction"; throw_in = k; n.reset(new O(opt::in_place_if, (v & 1) != 0, v)); throw_in = -1; fresh = true; p = v & 1 ? std::optional<int>(v) : std::nullopt; break;
                case 6: what = "in-place construction from a list"; throw_in = k; n.reset(new O(opt::in_place, { 1, v }, 5)); throw_in = -1; fresh = true; p = v + 6; break;
                case 7: { what = "conditional construction"; T t(v); throw_in = k; n.reset(new O((v & 1) != 0, std::move(t))); throw_in = -1; fresh = true; p = v & 1 ? std::optional<int>(v) : std::nullopt; break; }
                case 8: { what = "copy assignment"; const O& c = *y; throw_in = k; *x = c; throw_in = -1; p = q; break; }
                case 9: { if (i == j) break; what = "move assignment"; throw_in = k; *x = std::move(*y); throw_in = -1; p = q; if (q) q = MOVED; break; }
                case 10: { what = "assignment of an rvalue"; T t(v); throw_in = k; *x = std::move(t); throw_in = -1; p = v; break; }
                case 11: { what = "assignment of an lvalue"; const T t(v); throw_in = k; *x = t; throw_in = -1; p = v; break; }
                case 12: what = "emplace"; throw_in = k; x->emplace(v, 4); throw_in = -1; p = v + 4; break;
                case 13: { what = "emplace from a value"; T t(v); throw_in = k; x->emplace(std::move(t)); throw_in = -1; p = v; break; }
                case 14: what = "reset"; throw_in = k; x->reset(); throw_in = -1; p.reset(); break;
                case 15: what = "assignment of nullopt"; throw_in = k; *x = opt::nullopt; throw_in = -1; p.reset(); break;
                case 16: { what = "assignment from another optional type"; opt::optional<tsrc> s; if (v & 1) s = tsrc{ v }; loose = true; throw_in = k; if (v & 2) *x = s; else *x = std::move(s); throw_in = -1; p = v & 1 ? std::optional<int>(v) : std::nullopt; break; }
                case 17: { what = "construction from another optional type"; opt::optional<tsrc> s; if (v & 1) s = tsrc{ v }; throw_in = k; if (v & 2) n.reset(new O(s)); else n.reset(new O(std::move(s))); throw_in = -1; fresh = true; p = v & 1 ? std::optional<int>(v) : std::nullopt; break; }
                case 18: { if (i == j) break; what = "swap"; loose = true; throw_in = k; x->swap(*y); throw_in = -1; std::swap(p, q); break; }
                case 19: { what = "emplace from a list"; throw_in = k; x->emplace({ v, 1 }, 2); throw_in = -1; p = v + 3; break; }
                }
            }
            catch (const boom& b)
            {
                threw = true; throw_in = -1;
                if (thrown != before + 1 || b.id != v + 1) fail("another exception than the one thrown arrives");
                if (op <= 7 || op == 17) { n.reset(); }                 // never came to life: the old object is untouched
                else if (op == 12 || op == 13 || op == 19) p.reset();   // emplace: disengaged
                else if (loose) { p = x->has_value() ? std::optional<int>(0) : std::nullopt; if (op == 18) q = y->has_value() ? std::optional<int>(0) : std::nullopt; else if (!was && p) fail("optional<%s>: engaged after an assignment that threw", name); }
                else if (was) ;                                         // assignment operator threw: still engaged
                else p.reset();
            }
            bool fired = thrown != before;
            throw_in = -1;
            if (fired != threw) fail("an exception thrown by a value during %s does not reach the caller", what);
            if (threw) count("operations_that_threw");
            if (fresh && !threw) { x = std::move(n); }
            judge(what, threw);
        }
        static void run(const char* nm)
        {
            if (live_uid(1)) fail("%d values are alive before the first optional", live_uid(1));
            {
                throwing t; t.name = nm; for (int i = 0; i < N; ++i) { t.o.emplace_back(new O()); t.m.emplace_back(); }
                int steps = 4 + int(R.below(30));
                for (int k = 0; k < steps; ++k) t.step();
            }
            if (live_uid(1)) fail("%d values are alive after the last optional", live_uid(1));
        }
    };
}

int main(int argc, char** argv)
{
    init(argc, argv);
    bool c24 = vf::opt().profile == "C24";
    const long nf = long(sizeof forms / sizeof *forms);
    run_cases(c24 ? "throwing" : "optional", vf::opt().cases, [&](long k) {
        R = rng(case_seed(k, c24 ? 24 : 18));
        uint64_t before = judged;
        track_blocks(true);
        if (c24 && k % 4) { if (k & 1) throwing<tok0>::run("token"); else throwing<tok64>::run("aligned token"); }
        else { const form& f = forms[k % nf]; f.f(f.n); }
        expect_no_blocks("at the end of the case");
        track_blocks(false);
        end_case(judged > before);
    });
    count("judged_events", judged);
    count("value_types", uint64_t(nf));
    count("values_constructed", reg().created); count("values_destroyed", reg().destroyed);
    summary();
}

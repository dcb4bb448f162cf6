// C25: one program, many ways of compiling it. Everything here is C++11. Modules (portable_part.cpp) are compiled with different compilers, standards and
// optimisation levels and linked together; objects of the library are created in one module and used in another.
#pragma once
#include "vf.hpp"
#include <functional>
#include <memory>
#include <signals.hpp>

namespace pt
{
    // What a slot did, in the order in which it happened (portable_main.cpp).
    void called(int label, int a, const std::string& s);
    void one_shot(int uid); // disconnects the slot that is running

    using S = sig::signal<int(int, const std::string&)>;
    using V = sig::signal<void(std::string&, int)>;
    using slot = S::slot_type;
    using text = opt::optional<std::string>;
    using number = opt::optional<int>;

    inline int result(int label, int a) { return label * 7 + a; }

    template<int N> int ff(int a, const std::string& s) { called(10000 + N, a, s); return result(10000 + N, a); }
    template<int N> void vv(std::string& s, int a) { s += char('a' + N); s += std::to_string(a); }

    struct functor // equal if the number is
    {
        int id; vf::canary c;
        explicit functor(int i) : id(i), c(i) {}
        bool operator==(const functor& o) const { c.check("compared"); return id == o.id; }
        int operator()(int a, const std::string& s) { c.check("called"); called(20000 + id, a, s); return result(20000 + id, a); }
    };
    struct shot
    {
        int uid; vf::canary c;
        explicit shot(int i) : uid(i), c(i) {}
        int operator()(int a, const std::string& s) { one_shot(uid); c.check("used after it disconnected itself"); called(30000 + uid, a, s); return result(30000 + uid, a); }
    };
    struct base
    {
        int id; vf::canary c;
        explicit base(int i) : id(i), c(i) {}
        virtual ~base() {}
        virtual int first(int a, const std::string& s) { c.check("called"); called(40000 + id, a, s); return result(40000 + id, a); }
        int second(int a, const std::string& s) const { c.check("called"); called(50000 + id, a, s); return result(50000 + id, a); }
    };
    struct object : base
    {
        explicit object(int i) : base(i) {}
        int first(int a, const std::string& s) override { c.check("called"); called(60000 + id, a, s); return result(60000 + id, a); }
    };

    enum kind { k_function, k_functor, k_pmf, k_const_pmf, k_static, k_tracked, k_lambda, k_std_function, k_bind, k_shot, k_slot, k_reference, kinds };

    struct bound { object* raw; std::shared_ptr<object> shared; };

    // The functions of one translation unit.
    struct module
    {
        const char* compiler; long standard; int optimised;
        S* (*create)(); void (*destroy)(S*); S* (*move)(S*); void (*assign)(S*, S*);
        sig::connection (*connect)(S&, int kind, int id, bound&);
        sig::scoped_connection (*connect_scoped)(S&, int kind, int id, bound&);
        std::size_t (*disconnect)(S&, int kind, int id, bound&);
        std::size_t (*disconnect_slot)(S&, const slot&);
        opt::optional<int> (*emit)(S&, int, const std::string&);
        slot (*make)(int kind, int id, bound&); slot (*copy)(const slot&); bool (*equal)(const slot&, const slot&); opt::optional<int> (*call)(slot&, int, const std::string&);
        bool (*off)(sig::connection&); bool (*connected)(const sig::connection&); bool (*blocked)(const sig::connection&); void (*block)(sig::connection&, bool);
        sig::connection_blocker (*blocker)(const sig::connection&);
        sig::connection (*duplicate)(const sig::connection&); void (*drop)(sig::scoped_connection&); sig::connection (*release)(sig::scoped_connection&);
        void (*void_connect)(V&, int); void (*void_emit)(V&, std::string&, int); std::size_t (*void_disconnect)(V&, int);
        text (*text_of)(bool, const std::string&); void (*text_assign)(text&, const text&, int how); int (*text_compare)(const text&, const text&); int (*text_value)(const text&, const std::string&);
        int (*number_compare)(const number&, const number&, int); std::string (*text_read)(const text&);
        int (*fails)(S&, bound&); // number of exceptions that arrived as their own type
    };
}

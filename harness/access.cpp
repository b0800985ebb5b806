// Monitors for typed access (U04): run-time type information over declared inheritance graphs, and typed access to
// unbounded variants, judged by dynamic_cast over the same graphs.
#include "vh.hpp"
#include "vh_mr.hpp"
#include <cetl/rtti.hpp>
#include <cetl/unbounded_variant.hpp>

using vh::Rng;

// ------------------------------------------------------------------------------------------------ hierarchies
template <typename Id, typename... Bases>
using H = cetl::rtti_helper<Id, Bases...>;
// Identifiers that differ in single bytes, or only in the order of bytes.
using IdA  = cetl::type_id_type<1>;
using IdB  = cetl::type_id_type<0, 1>;
using IdC  = cetl::type_id_type<1, 1>;
using IdD  = cetl::type_id_type<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>;
using IdE  = cetl::type_id_type<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>;
using IdF  = cetl::type_id_type<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>;
using IdG  = cetl::type_id_type<0, 0, 0, 0, 0, 0, 0, 1>;
using IdK  = cetl::type_id_type<0, 0, 0, 0, 0, 0, 0, 0, 1>;
using IdL  = cetl::type_id_type<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>;
using IdM  = cetl::type_id_type<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254>;
using IdN  = cetl::type_id_type<2>;
using IdQ  = cetl::type_id_type<3>;
using IdR  = cetl::type_id_type<0x80>;
using IdS  = cetl::type_id_type<0x7F, 1, 2, 3>;

struct Payload  // where the bytes of each class are, to notice a wrong subobject
{
    explicit Payload(int k)
        : kind(k)
    {
    }
    int kind;
    int val = 0;
};
#define BODY(N, K)                                                                                                     \
    Payload      own{K};                                                                                               \
    virtual int  kind_##N() const                                                                                      \
    {                                                                                                                  \
        return own.kind;                                                                                               \
    }
struct A : H<IdA>
{
    BODY(a, 1)
};
struct B : H<IdB>
{
    BODY(b, 2)
};
struct K : H<IdK>
{
    BODY(k, 3)
    double more = 0;
};
struct C : H<IdC, A>  // a chain
{
    BODY(c, 4)
};
struct D : H<IdD, A, B>  // two bases
{
    BODY(d, 5)
};
struct E : H<IdE, C, B>  // a chain and another base
{
    BODY(e, 6)
};
struct F : H<IdF, K, D>  // three roots at two depths
{
    BODY(f, 7)
};
struct G : H<IdG, B, K, C>
{
    BODY(g, 8)
};
struct L : H<IdL, G>  // deep
{
    BODY(l, 9)
};
struct Plain
{
    virtual ~Plain() = default;
    int plain        = 77;
};
struct M : H<IdM, A>, Plain  // another base outside of the scheme
{
    BODY(m, 10)
};
// implemented by hand, over a shared virtual base
struct N : virtual A
{
    BODY(n, 11)
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return cetl::type_id_type_value<IdN>();
    }
    void* _cast_(const cetl::type_id& id) & noexcept override
    {
        return id == _get_type_id_() ? static_cast<void*>(this) : A::_cast_(id);
    }
    const void* _cast_(const cetl::type_id& id) const& noexcept override
    {
        return id == _get_type_id_() ? static_cast<const void*>(this) : A::_cast_(id);
    }
};
struct Q : N, virtual A, B  // a diamond
{
    BODY(q, 12)
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return cetl::type_id_type_value<IdQ>();
    }
    void* _cast_(const cetl::type_id& id) & noexcept override
    {
        if (id == _get_type_id_())
        {
            return static_cast<void*>(this);
        }
        if (void* const p = N::_cast_(id))
        {
            return p;
        }
        return B::_cast_(id);
    }
    const void* _cast_(const cetl::type_id& id) const& noexcept override
    {
        if (id == _get_type_id_())
        {
            return static_cast<const void*>(this);
        }
        if (const void* const p = N::_cast_(id))
        {
            return p;
        }
        return B::_cast_(id);
    }
};
// by composition
struct R : virtual cetl::rtti
{
    D first;
    K second;
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return cetl::type_id_type_value<IdR>();
    }
    void* _cast_(const cetl::type_id& id) & noexcept override
    {
        if (id == _get_type_id_())
        {
            return static_cast<void*>(this);
        }
        if (void* const p = first._cast_(id))
        {
            return p;
        }
        return second._cast_(id);
    }
    const void* _cast_(const cetl::type_id& id) const& noexcept override
    {
        if (id == _get_type_id_())
        {
            return static_cast<const void*>(this);
        }
        if (const void* const p = first._cast_(id))
        {
            return p;
        }
        return second._cast_(id);
    }
    virtual ~R() = default;
};
// castable without the interface
struct S
{
    int x = 5;
    A   inner;
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return cetl::type_id_type_value<IdS>();
    }
    void* _cast_(const cetl::type_id& id) & noexcept
    {
        return id == _get_type_id_() ? static_cast<void*>(this) : id == cetl::type_id_value<A> ? static_cast<void*>(&inner) : nullptr;
    }
    const void* _cast_(const cetl::type_id& id) const& noexcept
    {
        return id == _get_type_id_() ? static_cast<const void*>(this)
                                     : id == cetl::type_id_value<A> ? static_cast<const void*>(&inner) : nullptr;
    }
};
// not castable at all
struct U
{
    int x = 6;
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return cetl::type_id_type_value<cetl::type_id_type<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>();
    }
};
namespace cetl
{
template <>
constexpr type_id type_id_getter<int>() noexcept
{
    return {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17}};
}
template <>
constexpr type_id type_id_getter<double>() noexcept
{
    return {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 16}};
}
}  // namespace cetl

// ------------------------------------------------------------------------------------------------ the oracle
/// Where the T of an object of static (and, from a value, dynamic) type X is, or null.
template <typename X, typename T, bool = std::is_polymorphic<X>::value && std::is_polymorphic<T>::value>
struct Where
{
    static const void* in(const X& x)
    {
        return std::is_same<X, T>::value ? static_cast<const void*>(&x) : nullptr;
    }
};
template <typename X, typename T>
struct Where<X, T, true>
{
    static const void* in(const X& x)
    {
        return dynamic_cast<const T*>(&x);
    }
};
template <typename T>
struct Where<R, T, true>
{
    static const void* in(const R& r)
    {
        if (std::is_same<T, R>::value)
        {
            return &r;
        }
        const void* const p = dynamic_cast<const T*>(&r.first);
        return p != nullptr ? p : dynamic_cast<const T*>(&r.second);
    }
};
template <typename T>
struct Where<S, T, false>
{
    static const void* in(const S& s)
    {
        return std::is_same<T, S>::value ? static_cast<const void*>(&s) : std::is_same<T, A>::value ? static_cast<const void*>(&s.inner) : nullptr;
    }
};

template <typename... Ts>
struct List
{};
using Graph = List<A, B, K, C, D, E, F, G, L, M, N, Q, R>;
using All   = List<A, B, K, C, D, E, F, G, L, M, N, Q, R, S, U, int, double>;
template <typename T>
struct Tag
{
    using type = T;
};
template <typename F>
void each(F&, List<>)
{
}
template <typename F, typename T, typename... Ts>
void each(F& f, List<T, Ts...>)
{
    f(Tag<T>{});
    each(f, List<Ts...>{});
}
template <typename F>
void pick(unsigned, F&, List<>)
{
}
template <typename F, typename T, typename... Ts>
void pick(unsigned i, F& f, List<T, Ts...>)
{
    if (i == 0)
    {
        f(Tag<T>{});
    }
    else
    {
        pick(i - 1, f, List<Ts...>{});
    }
}
constexpr unsigned N_GRAPH = 13, N_ALL = 17;

// ------------------------------------------------------------------------------------------------ casts
/// All casts from a pointer of type X into a complete object.
template <typename X>
struct Casts
{
    X* x;
    template <typename T>
    void operator()(Tag<T>)
    {
        const void* const want = Where<X, T>::in(*x);
        T* const          p    = cetl::rtti_cast<T*>(x);
        VH_CHECK(static_cast<const void*>(p) == want, "rtti.cast", "target id %d: %p, expected %p", first_byte<T>(), static_cast<const void*>(p), want);
        const X* const cx = x;
        const T* const q  = cetl::rtti_cast<T*>(cx);
        VH_CHECK(q == p, "rtti.cast-const", "target id %d", first_byte<T>());
        const T* const s = cetl::rtti_cast<const T*>(cx);
        VH_CHECK(s == p, "rtti.cast-const", "target id %d", first_byte<T>());
        const T* const u = cetl::rtti_cast<const T*>(x);
        VH_CHECK(u == p, "rtti.cast-const", "target id %d", first_byte<T>());
        VH_CHECK(cetl::is_instance_of<T>(*x) == (want != nullptr), "rtti.is_instance_of", "target id %d", first_byte<T>());
        VH_CHECK(cetl::is_instance_of(*x, cetl::type_id_value<T>) == (want != nullptr), "rtti.is_instance_of", "target id %d", first_byte<T>());
        VH_CHECK(cetl::rtti_cast<T*>(static_cast<X*>(nullptr)) == nullptr, "rtti.cast-null", "target id %d", first_byte<T>());
        VH_CHECK(cetl::rtti_cast<T*>(static_cast<const X*>(nullptr)) == nullptr, "rtti.cast-null", "target id %d", first_byte<T>());
        vh::count(want != nullptr ? "casts that succeed" : "casts that fail");
    }
    template <typename T>
    static int first_byte()
    {
        int k = 0;
        for (std::size_t i = 0; i < cetl::type_id_size; ++i)
        {
            k = k * 3 + cetl::type_id_value<T>[i];
        }
        return k;
    }
};
/// Casts starting at every base of the object.
template <typename X>
struct FromBases
{
    X*   x;
    Rng* rng;
    template <typename T>
    void operator()(Tag<T>)
    {
        if (T* const b = dynamic_cast<T*>(x))
        {
            Casts<T> c{b};
            each(c, Graph{});
            // an identifier that belongs to no type here
            cetl::type_id id = cetl::type_id_value<X>;
            id[rng->below(cetl::type_id_size)] ^= static_cast<std::uint8_t>(4U << rng->below(5));
            VH_CHECK(!cetl::is_instance_of(*b, id), "rtti.unknown-id", "an unknown identifier was accepted");
            vh::nontrivial();
        }
    }
};
struct CastCase
{
    Rng* rng;
    template <typename X>
    void operator()(Tag<X>)
    {
        X x;
        vh::op("casts among the bases of an object of %zu bytes", sizeof(X));
        FromBases<X> f{&x, rng};
        each(f, Graph{});
        vh::feel(sizeof(X));
    }
};

// ------------------------------------------------------------------------------------------------ variants
template <typename T>
std::enable_if_t<!std::is_arithmetic<T>::value> scribble(T&, int)
{
}
template <typename T>
std::enable_if_t<std::is_arithmetic<T>::value> scribble(T& t, int v)
{
    t = static_cast<T>(v);
}

template <typename V, typename X>
struct Typed
{
    V*   v;
    Rng* rng;
    template <typename T>
    void operator()(Tag<T>)
    {
        const V&       cv = *v;
        const X* const x  = cetl::get_if<X>(&cv);
        VH_CHECK(x != nullptr, "access.exact", "no access by the exact type");
        const void* const want = Where<X, T>::in(*x);
        T* const          p    = cetl::get_if<T>(v);
        VH_CHECK(static_cast<const void*>(p) == want, "access.get_if", "%p instead of %p", static_cast<const void*>(p), want);
        VH_CHECK(cetl::get_if<T>(&cv) == p, "access.get_if-const", "%p", static_cast<const void*>(p));
        VH_CHECK(cetl::get_if<const T>(&cv) == p && cetl::get_if<const T>(v) == p, "access.get_if-const", "%p", static_cast<const void*>(p));
        if (want != nullptr)
        {
            VH_CHECK(&cetl::get<T&>(*v) == p && &cetl::get<const T&>(*v) == p && &cetl::get<const T&>(cv) == p, "access.get", "%p", static_cast<const void*>(p));
            T&& r = cetl::get<T&&>(std::move(*v));
            VH_CHECK(&r == p, "access.get-rvalue", "%p", static_cast<const void*>(p));
            T copy(cetl::get<T>(cv));
            T copy2(cetl::get<T>(*v));
            VH_CHECK(&copy != p && &copy2 != p, "access.get-value", "%p", static_cast<const void*>(p));
            vh::count("accesses that succeed");
        }
        else
        {
#if VH_EXC
            int bad = 0;
            try
            {
                (void) cetl::get<T&>(*v);
            } catch (const cetl::bad_unbounded_variant_access&)
            {
                ++bad;
            }
            try
            {
                (void) cetl::get<const T&>(cv);
            } catch (const cetl::bad_unbounded_variant_access&)
            {
                ++bad;
            }
            try
            {
                (void) cetl::get<T>(std::move(*v));
            } catch (const std::exception& e)
            {
                ++bad;
            }
            VH_CHECK(bad == 3, "access.bad-access", "an access to another type did not fail");
#endif
            vh::count("accesses that fail");
        }
    }
};
template <typename V>
struct NoAccess
{
    V* v;
    template <typename T>
    void operator()(Tag<T>)
    {
        const V& cv = *v;
        VH_CHECK(cetl::get_if<T>(v) == nullptr && cetl::get_if<T>(&cv) == nullptr, "access.empty", "access to an empty variant");
#if VH_EXC
        bool bad = false;
        try
        {
            (void) cetl::get<T&>(*v);
        } catch (const cetl::bad_unbounded_variant_access&)
        {
            bad = true;
        }
        VH_CHECK(bad, "access.empty", "access to an empty variant");
#endif
    }
};
template <typename V>
struct Look
{
    V*   v;
    Rng* rng;
    template <typename X>
    void operator()(Tag<X>)
    {
        VH_CHECK(v->has_value() && v->type_size() == sizeof(X), "access.size", "%zu", v->type_size());
        VH_CHECK(v->type_id() == cetl::type_id_value<X>, "access.type_id", "another type is reported");
        Typed<V, X> t{v, rng};
        each(t, All{});
    }
};
template <typename V>
struct Put
{
    V*   v;
    Rng* rng;
    template <typename X>
    void operator()(Tag<X>)
    {
        X x{};
        scribble(x, static_cast<int>(rng->below(100)));
        switch (rng->below(3))
        {
        case 0:
            *v = x;
            break;
        case 1:
            *v = std::move(x);
            break;
        default:
            v->template emplace<X>();
        }
    }
};

template <typename V>
void typed(Rng& rng, V& a, V& b, std::true_type)
{
    int held[2] = {-1, -1};
    V*  vs[2]   = {&a, &b};
    for (int k = static_cast<int>(rng.range(2, 8)); k > 0; --k)
    {
        const auto i = rng.below(2);
        switch (rng.below(6))
        {
        case 0:
            *vs[i]  = *vs[1 - i];
            held[i] = held[1 - i];
            vh::op("copy %d", held[i]);
            break;
        case 1:
            *vs[i]      = std::move(*vs[1 - i]);
            held[i]     = held[1 - i];
            held[1 - i] = -1;
            vh::op("move %d", held[i]);
            break;
        case 2:
            a.swap(b);
            std::swap(held[0], held[1]);
            vh::op("swap");
            break;
        case 3:
            if (rng.chance(1, 3))
            {
                vs[i]->reset();
                held[i] = -1;
                vh::op("reset");
                break;
            }
            // fall through
        default: {
            held[i] = static_cast<int>(rng.below(N_ALL));
            Put<V> p{vs[i], &rng};
            pick(static_cast<unsigned>(held[i]), p, All{});
            vh::op("store %d", held[i]);
        }
        }
        for (int j = 0; j < 2; ++j)
        {
            if (held[j] >= 0)
            {
                Look<V> l{vs[j], &rng};
                pick(static_cast<unsigned>(held[j]), l, All{});
                vh::nontrivial();
            }
            else
            {
                NoAccess<V> n{vs[j]};
                each(n, All{});
            }
        }
        vh::feel(static_cast<std::uint64_t>(held[0] * 32 + held[1]));
    }
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("casts", 20, [](Rng& rng) {
        CastCase c{&rng};
        for (unsigned k = 0; k < 3; ++k)
        {
            pick(static_cast<unsigned>(rng.below(N_GRAPH)), c, Graph{});
        }
    });
    vh::suite("access", 100, [](Rng& rng) {
        if (rng.chance(1, 2))
        {
            using V = cetl::unbounded_variant<512>;
            V a, b;
            typed(rng, a, b, std::true_type{});
        }
        else if (rng.chance(1, 2))
        {
            using V = cetl::unbounded_variant<32, true, true, alignof(std::max_align_t), cetl::pf17::pmr::memory_resource>;
            vh::MemRes m0(0), m1(1);
            {
                V a(&m0), b(&m1);
                typed(rng, a, b, std::true_type{});
            }
            m0.heap.check_empty("the end of the case");
            m1.heap.check_empty("the end of the case");
        }
        else
        {
            using V = cetl::unbounded_variant<0, true, true, alignof(std::max_align_t), cetl::pf17::pmr::memory_resource>;
            vh::MemRes m0(0), m1(1);
            {
                V a(&m0), b(&m1);
                typed(rng, a, b, std::true_type{});
            }
            m0.heap.check_empty("the end of the case");
            m1.heap.check_empty("the end of the case");
        }
    });
    return vh::finish();
}

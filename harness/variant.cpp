// Monitors for cetl::pf17::variant (V01, V02, V03). -DCFG selects the alternatives.
#include "vh.hpp"
#include "vh_fwd.hpp"
#include <cetl/pf17/variant.hpp>
#include <cetl/visit_helpers.hpp>
#if __cplusplus >= 201703L
#    include <variant>
#endif

using vh::Rng;
#ifndef CFG
#    define CFG 0
#endif

// ------------------------------------------------------------------------------------------------ value types
struct Triv
{
    std::int64_t v;
    Triv(std::int64_t x = 0)
        : v(x)
    {
    }
    Triv(std::int64_t x, int add)
        : v(x + add)
    {
    }
};
/// Trivially destructible, everything else by hand.
struct TrivDtor
{
    std::int64_t v;
    TrivDtor(std::int64_t x = 0)
        : v(x)
    {
        vh::elem_tick();
    }
    TrivDtor(std::int64_t x, int add)
        : TrivDtor(x + add)
    {
    }
    TrivDtor(const TrivDtor& o)
        : v(o.v)
    {
        vh::elem_tick();
    }
    TrivDtor(TrivDtor&& o)
        : v(o.v)
    {
        vh::elem_tick();
        o.v = vh::MOVED;
    }
    TrivDtor& operator=(const TrivDtor& o)
    {
        vh::elem_tick();
        v = o.v;
        return *this;
    }
    TrivDtor& operator=(TrivDtor&& o)
    {
        vh::elem_tick();
        const auto x = o.v;
        o.v          = vh::MOVED;
        v            = x;
        return *this;
    }
};
/// Copies by hand, trivial moves, trivial destructor.
template <int>
struct TrivMove
{
    std::int64_t v;
    TrivMove(std::int64_t x = 0)
        : v(x)
    {
    }
    TrivMove(std::int64_t x, int add)
        : v(x + add)
    {
    }
    TrivMove(const TrivMove& o)
        : v(o.v)
    {
        vh::elem_tick();
    }
    TrivMove(TrivMove&&) = default;
    TrivMove& operator=(const TrivMove& o)
    {
        vh::elem_tick();
        v = o.v;
        return *this;
    }
    TrivMove& operator=(TrivMove&&) = default;
};
struct Str
{
    std::string v;
    Str(std::int64_t x = 0)
        : v("some longer text to make it allocate " + std::to_string(x))
    {
    }
    Str(std::int64_t x, int add)
        : Str(x + add)
    {
    }
};
/// What is known about an alternative.
template <typename T>
struct About
{
    static constexpr bool tracked = false, marks = false;
    static std::int64_t   get(const T& x)
    {
        return x.v;
    }
};
template <int F, int Tag>
struct About<vh::Elem<F, Tag>>
{
    static constexpr bool tracked = true, marks = (F & vh::F_MOVE) != 0;
    static std::int64_t   get(const vh::Elem<F, Tag>& x)
    {
        return x.value();
    }
};
template <>
struct About<std::int64_t>
{
    static constexpr bool tracked = false, marks = false;
    static std::int64_t   get(std::int64_t x)
    {
        return x;
    }
};
template <>
struct About<TrivDtor>
{
    static constexpr bool tracked = false, marks = true;
    static std::int64_t   get(const TrivDtor& x)
    {
        return x.v;
    }
};
template <>
struct About<Str>
{
    static constexpr bool tracked = false, marks = true;
    static std::int64_t   get(const Str& x)
    {
        return x.v.empty() ? vh::MOVED : std::strtoll(x.v.c_str() + 37, nullptr, 10);
    }
};
template <typename X>
std::int64_t val(const X& x)
{
    return About<X>::get(x);
}

/// Converts to one alternative only; its own copies and moves are not noexcept.
template <typename T>
struct Conv
{
    std::int64_t v;
    explicit Conv(std::int64_t x)
        : v(x)
    {
    }
    Conv(const Conv& o)
        : v(o.v)
    {
    }
    operator T() const
    {
        return T(v);
    }
};

// ------------------------------------------------------------------------------------------------ the two implementations
struct Pf
{
    template <typename... Ts>
    using V   = cetl::pf17::variant<Ts...>;
    using Bad =
#if VH_EXC
        cetl::pf17::bad_variant_access;
#else
        int;
#endif
    static constexpr std::size_t npos = cetl::pf17::variant_npos;
    template <std::size_t N>
    using Ix = cetl::pf17::in_place_index_t<N>;
    template <typename T>
    using Ty = cetl::pf17::in_place_type_t<T>;
    template <std::size_t N, typename X>
    static decltype(auto) get(X&& x)
    {
        return cetl::pf17::get<N>(std::forward<X>(x));
    }
    template <typename T, typename X>
    static decltype(auto) get_type(X&& x)
    {
        return cetl::pf17::get<T>(std::forward<X>(x));
    }
    template <std::size_t N, typename X>
    static auto get_if(X* x)
    {
        return cetl::pf17::get_if<N>(x);
    }
    template <typename T, typename X>
    static auto get_if_type(X* x)
    {
        return cetl::pf17::get_if<T>(x);
    }
    template <typename T, typename X>
    static bool holds(const X& x)
    {
        return cetl::pf17::holds_alternative<T>(x);
    }
    template <typename F, typename... X>
    static decltype(auto) visit(F&& f, X&&... x)
    {
        return cetl::pf17::visit(std::forward<F>(f), std::forward<X>(x)...);
    }
};
#if __cplusplus >= 201703L
struct Std
{
    template <typename... Ts>
    using V   = std::variant<Ts...>;
    using Bad = std::bad_variant_access;
    static constexpr std::size_t npos = std::variant_npos;
    template <std::size_t N>
    using Ix = std::in_place_index_t<N>;
    template <typename T>
    using Ty = std::in_place_type_t<T>;
    template <std::size_t N, typename X>
    static decltype(auto) get(X&& x)
    {
        return std::get<N>(std::forward<X>(x));
    }
    template <typename T, typename X>
    static decltype(auto) get_type(X&& x)
    {
        return std::get<T>(std::forward<X>(x));
    }
    template <std::size_t N, typename X>
    static auto get_if(X* x)
    {
        return std::get_if<N>(x);
    }
    template <typename T, typename X>
    static auto get_if_type(X* x)
    {
        return std::get_if<T>(x);
    }
    template <typename T, typename X>
    static bool holds(const X& x)
    {
        return std::holds_alternative<T>(x);
    }
    template <typename F, typename... X>
    static decltype(auto) visit(F&& f, X&&... x)
    {
        return std::visit(std::forward<F>(f), std::forward<X>(x)...);
    }
};
#endif

constexpr std::size_t NONE = static_cast<std::size_t>(-1);
struct Model
{
    std::size_t  ix  = NONE;
    std::int64_t val = 0;
};

/// Calls f with the constant of the given value.
template <std::size_t N, typename F, std::enable_if_t<N == 1, int> = 0>
void with(std::size_t, F&& f)
{
    f(std::integral_constant<std::size_t, 0>{});
}
template <std::size_t N, typename F, std::enable_if_t<(N > 1), int> = 0>
void with(std::size_t i, F&& f)
{
    if (i == N - 1)
    {
        f(std::integral_constant<std::size_t, N - 1>{});
    }
    else
    {
        with<N - 1>(i, std::forward<F>(f));
    }
}
template <typename T, typename... Ts>
constexpr std::size_t occurrences()
{
    std::size_t n = 0;
    for (const bool b : {std::is_same<T, Ts>::value...})
    {
        n += b ? 1 : 0;
    }
    return n;
}
template <typename... B>
constexpr bool all(B... b)
{
    for (const bool x : {b...})
    {
        if (!x)
        {
            return false;
        }
    }
    return true;
}

enum Cat
{
    L,   // T&
    CL,  // const T&
    R,   // T&&
    CR,  // const T&&
};
template <typename A>
Cat category()
{
    using U = std::remove_reference_t<A>;
    return std::is_lvalue_reference<A>::value ? (std::is_const<U>::value ? CL : L) : (std::is_const<U>::value ? CR : R);
}
/// What a visitor was given.
struct Seen
{
    const void*  where;
    std::int64_t value;
    Cat          cat;
    int          type;
};
template <typename T, typename... Ts>
constexpr int first_of()
{
    int n = 0, k = 0;
    for (const bool b : {std::is_same<T, Ts>::value...})
    {
        if (b && n == 0)
        {
            n = k + 1;
        }
        ++k;
    }
    return n - 1;
}

template <typename I, typename... Ts>
struct World
{
    using V                         = typename I::template V<Ts...>;
    static constexpr std::size_t NT = sizeof...(Ts);
    static constexpr int         N  = 3;
    template <std::size_t K>
    using Alt = std::tuple_element_t<K, std::tuple<Ts...>>;

    static constexpr bool CC = all(std::is_copy_constructible<Ts>::value...);
    static constexpr bool MC = all(std::is_move_constructible<Ts>::value...);
    static constexpr bool CA = CC && all(std::is_copy_assignable<Ts>::value...);
    static constexpr bool MA = MC && all(std::is_move_assignable<Ts>::value...);
    using CCt                = std::integral_constant<bool, CC>;
    using CAt                = std::integral_constant<bool, CA>;
    using MCt                = std::integral_constant<bool, MC>;
    using MAt                = std::integral_constant<bool, MA>;

    alignas(V) unsigned char raw[N][sizeof(V)];
    bool                     alive[N] = {};
    Model                    m[N];
    Rng&                     rng;
    std::uint64_t            elem_k = 0;
    bool                     fired  = false;
    std::size_t              locals = 0;
    bool                     tracked[NT] = {About<Ts>::tracked...};
    bool                     marks[NT]   = {About<Ts>::marks...};

    explicit World(Rng& r)
        : rng(r)
    {
        std::memset(raw, 0xCD, sizeof raw);
    }
    ~World()
    {
        for (int i = 0; i < N; ++i)
        {
            if (alive[i])
            {
                destroy(i);
            }
        }
        vh::check_no_live("the end of the case");
    }
    V& o(int i)
    {
        return *reinterpret_cast<V*>(raw[i]);
    }
    void destroy(int i)
    {
        o(i).~V();
        alive[i] = false;
        std::memset(raw[i], 0xCD, sizeof raw[i]);
        m[i] = Model{};
    }
    template <typename F>
    bool guarded(F&& f)  // true if it threw
    {
        vh::Fault& fl     = vh::fault();
        const auto before = fl.fired;
        fl.elem_countdown = elem_k;
        bool threw        = false;
#if VH_EXC
        try
        {
            f();
        } catch (const vh::Injected&)
        {
            threw = true;
        }
#else
        f();
#endif
        fl.disarm();
        elem_k = 0;
        fired  = fl.fired != before;
        VH_CHECK(!VH_EXC || threw == fired, "failure-not-reported", "fired %d, threw %d", int(fired), int(threw));
        if (fired)
        {
            vh::count("faults");
            vh::nontrivial();
        }
        return threw;
    }

    // ---------------------------------------------------------------------------------- observation
    template <std::size_t K, std::enable_if_t<occurrences<Alt<K>, Ts...>() == 1, int> = 0>
    void by_type(int i, const void* p)
    {
        using T     = Alt<K>;
        V&       x  = o(i);
        const V& cx = x;
        VH_CHECK(I::template holds<T>(x) == (p != nullptr), "variant.holds", "alternative %zu of variant %d", K, i);
        VH_CHECK(I::template get_if_type<T>(&x) == p && I::template get_if_type<T>(&cx) == p, "variant.get_if", "alternative %zu of variant %d by type", K, i);
        if (p != nullptr)
        {
            T&        r0 = I::template get_type<T>(x);
            const T&  r1 = I::template get_type<T>(cx);
            T&&       r2 = I::template get_type<T>(std::move(x));
            const T&& r3 = I::template get_type<T>(std::move(cx));
            VH_CHECK(std::addressof(r0) == p && std::addressof(r1) == p && std::addressof(r2) == p && std::addressof(r3) == p, "variant.get", "access by type to another object");
        }
#if VH_EXC
        else if (rng.chance(1, 8))
        {
            int bad = 0;
            try
            {
                (void) I::template get_type<T>(x);
            } catch (const typename I::Bad&)
            {
                ++bad;
            }
            try
            {
                (void) I::template get_type<T>(std::move(cx));
            } catch (const std::exception&)
            {
                ++bad;
            }
            VH_CHECK(bad == 2, "variant.bad-access", "alternative %zu of variant %d by type", K, i);
        }
#endif
    }
    template <std::size_t K, std::enable_if_t<occurrences<Alt<K>, Ts...>() != 1, int> = 0>
    void by_type(int, const void*)
    {
    }
    template <std::size_t K>
    void by_index(int i)
    {
        using T     = Alt<K>;
        V&       x  = o(i);
        const V& cx = x;
        T* const p  = I::template get_if<K>(&x);
        const T* q  = I::template get_if<K>(&cx);
        VH_CHECK((p != nullptr) == (m[i].ix == K) && q == p, "variant.get_if", "alternative %zu of variant %d, active %d", K, i, int(m[i].ix));
        VH_CHECK(I::template get_if<K>(static_cast<V*>(nullptr)) == nullptr, "variant.get_if", "null");
        if (p != nullptr)
        {
            T&        r0 = I::template get<K>(x);
            const T&  r1 = I::template get<K>(cx);
            T&&       r2 = I::template get<K>(std::move(x));
            const T&& r3 = I::template get<K>(std::move(cx));
            VH_CHECK(std::addressof(r0) == p && std::addressof(r1) == p && std::addressof(r2) == p && std::addressof(r3) == p, "variant.get", "access to another object");
            const auto a = reinterpret_cast<std::uintptr_t>(p), lo = reinterpret_cast<std::uintptr_t>(raw[i]);
            VH_CHECK(a >= lo && a + sizeof(T) <= lo + sizeof(V), "variant.place", "the value is not inside");
            const auto v = val(*q);
            VH_CHECK(v == m[i].val, "variant.value", "variant %d has %lld instead of %lld", i, static_cast<long long>(v), static_cast<long long>(m[i].val));
        }
#if VH_EXC
        else if (rng.chance(1, 4))
        {
            int bad = 0;
            try
            {
                (void) I::template get<K>(x);
            } catch (const typename I::Bad&)
            {
                ++bad;
            }
            try
            {
                (void) I::template get<K>(cx);
            } catch (const std::exception&)
            {
                ++bad;
            }
            try
            {
                (void) I::template get<K>(std::move(x));
            } catch (const typename I::Bad&)
            {
                ++bad;
            }
            try
            {
                (void) I::template get<K>(std::move(cx));
            } catch (const typename I::Bad&)
            {
                ++bad;
            }
            VH_CHECK(bad == 4, "variant.bad-access", "alternative %zu of variant %d", K, i);
        }
#else
        else if (rng.chance(1, 8000))
        {
            VH_CHECK(vh::terminates([&] { (void) I::template get<K>(x); }) && vh::terminates([&] { (void) I::template get<K>(std::move(cx)); }), "variant.bad-access", "alternative %zu of variant %d", K, i);
        }
#endif
        by_type<K>(i, p);
    }
    void check(int i)
    {
        const V& cx = o(i);
        VH_CHECK(cx.index() == (m[i].ix == NONE ? I::npos : m[i].ix), "variant.index", "variant %d: %d, expected %d", i, int(cx.index()), int(m[i].ix));
        VH_CHECK(cx.valueless_by_exception() == (m[i].ix == NONE), "variant.valueless", "variant %d", i);
        for (std::size_t k = 0; k < NT; ++k)
        {
            with<NT>(k, [&](auto c) { this->template by_index<decltype(c)::value>(i); });
        }
    }
    void check_all()
    {
        std::size_t live = locals;
        for (int i = 0; i < N; ++i)
        {
            if (alive[i])
            {
                check(i);
                live += m[i].ix != NONE && tracked[m[i].ix] ? 1 : 0;
            }
        }
        VH_CHECK(vh::registry().live.size() == live, "lifetime.count", "%zu objects alive, %zu expected", vh::registry().live.size(), live);
    }
    std::int64_t moved(std::size_t ix, std::int64_t v)
    {
        return ix != NONE && marks[ix] ? vh::MOVED : v;
    }

    // ---------------------------------------------------------------------------------- construction
    void build(int i, bool threw, std::size_t ix, std::int64_t v, const char* what)
    {
        if (threw)
        {
            std::memset(raw[i], 0xCD, sizeof raw[i]);
        }
        else
        {
            alive[i] = true;
            m[i].ix  = ix;
            m[i].val = v;
        }
        vh::op("%s v%d [%d] %lld%s", what, i, int(ix), static_cast<long long>(v), threw ? " THREW" : "");
    }
    template <std::size_t K, typename... A>
    static void in_place(void* p, std::true_type, A&&... a)
    {
        new (p) V(typename I::template Ty<Alt<K>>{}, std::forward<A>(a)...);
    }
    template <std::size_t K, typename... A>
    static void in_place(void* p, std::false_type, A&&... a)
    {
        new (p) V(typename I::template Ix<K>{}, std::forward<A>(a)...);
    }
    void construct(int i, int j)
    {
        const auto v = rng.range(1, 900);
        const auto k = rng.below(NT);
        switch (rng.below(8))
        {
        case 0: {
            const bool threw = guarded([&] { new (raw[i]) V(); });
            build(i, threw, 0, 0, "default construct");
            break;
        }
        case 1:
        case 2: {
            const bool typed = rng.chance(1, 2);
            with<NT>(k, [&](auto c) {
                constexpr std::size_t K = decltype(c)::value;
                using U                 = std::integral_constant<bool, occurrences<Alt<K>, Ts...>() == 1>;
                const bool threw        = guarded([&] {
                    if (typed)
                    {
                        in_place<K>(raw[i], U{}, v);
                    }
                    else
                    {
                        new (raw[i]) V(typename I::template Ix<K>{}, v);
                    }
                });
                build(i, threw, K, v, "construct in place");
            });
            break;
        }
        case 3:
            with<NT>(k, [&](auto c) {
                constexpr std::size_t K = decltype(c)::value;
                this->template from_value<K>(i, v, std::integral_constant<bool, occurrences<Alt<K>, Ts...>() == 1>{});
            });
            break;
        case 4:
            with<NT>(k, [&](auto c) {
                constexpr std::size_t K = decltype(c)::value;
                this->template from_other<K>(i, v, std::integral_constant<bool, occurrences<Alt<K>, Ts...>() == 1>{});
            });
            break;
        case 5:
        case 6:
            if (alive[j])
            {
                copy_construct(i, j, CCt{});
            }
            break;
        default:
            if (alive[j])
            {
                move_construct(i, j, MCt{});
            }
        }
    }
    template <typename T, typename F>
    void lvalue_or_rvalue(T& x, bool rv, std::true_type, F&& f)
    {
        if (rv)
        {
            f(std::move(x));
        }
        else
        {
            f(static_cast<const T&>(x));
        }
    }
    template <typename T, typename F>
    void lvalue_or_rvalue(T& x, bool, std::false_type, F&& f)
    {
        f(std::move(x));
    }
    template <std::size_t K>
    void source(const Alt<K>& x, std::int64_t v, bool rv, bool threw)
    {
        const auto now = val(x);
        VH_CHECK(now == (rv && !threw ? moved(K, v) : v), "variant.source", "the source has %lld", static_cast<long long>(now));
    }
    template <std::size_t K>
    void from_value(int i, std::int64_t v, std::true_type)
    {
        using T       = Alt<K>;
        const bool rv = !std::is_copy_constructible<T>::value || rng.chance(1, 2);
        T          x(v);
        locals += About<T>::tracked ? 1 : 0;
        const bool threw = guarded([&] { lvalue_or_rvalue(x, rv, std::is_copy_constructible<T>{}, [&](auto&& a) { new (raw[i]) V(std::forward<decltype(a)>(a)); }); });
        build(i, threw, K, v, rv ? "construct from rvalue" : "construct from lvalue");
        this->template source<K>(x, v, rv, threw);
        check_all();
        locals -= About<T>::tracked ? 1 : 0;
    }
    template <std::size_t K>
    void from_value(int, std::int64_t, std::false_type)
    {
    }
    template <std::size_t K>
    void from_other(int i, std::int64_t v, std::true_type)
    {
        Conv<Alt<K>> c(v);
        const bool   rv    = rng.chance(1, 2);
        const bool   threw = guarded([&] { lvalue_or_rvalue(c, rv, std::true_type{}, [&](auto&& a) { new (raw[i]) V(std::forward<decltype(a)>(a)); }); });
        build(i, threw, K, v, "construct by conversion");
    }
    template <std::size_t K>
    void from_other(int, std::int64_t, std::false_type)
    {
    }
    void copy_construct(int i, int j, std::true_type)
    {
        const bool threw = guarded([&] { new (raw[i]) V(static_cast<const V&>(o(j))); });
        build(i, threw, m[j].ix, m[j].val, "copy construct");
        vh::nontrivial();
    }
    void copy_construct(int, int, std::false_type) {}
    void move_construct(int i, int j, std::true_type)
    {
        const bool threw = guarded([&] { new (raw[i]) V(std::move(o(j))); });
        build(i, threw, m[j].ix, m[j].val, "move construct");
        if (!threw)
        {
            m[j].val = moved(m[j].ix, m[j].val);
        }
        vh::nontrivial();
    }
    void move_construct(int, int, std::false_type) {}

    // ---------------------------------------------------------------------------------- assignment
    /// Outcome of storing (ix, v) into variant i; if it threw and the alternative changes, the variant may be lost.
    void stored(int i, std::size_t ix, std::int64_t v, bool threw, bool lost, const char* what)
    {
        vh::op("%s v%d [%d] [%d] %lld%s", what, i, int(m[i].ix), int(ix), static_cast<long long>(v), threw ? " THREW" : "");
        vh::feel((m[i].ix + 1) * 8 + (ix + 1) + (threw ? 100 : 0));
        if (!threw)
        {
            m[i].ix  = ix;
            m[i].val = v;
        }
        else if (lost)
        {
            m[i] = Model{};
            vh::count("valueless");
        }
    }
    template <typename F>
    bool rule(std::size_t k, F&& f)
    {
        bool r = false;
        if (k != NONE)
        {
            with<NT>(k, [&](auto c) { r = f(c); });
        }
        return r;
    }
    void copy_assign(int i, int j, std::true_type)
    {
        const Model src  = m[j];
        const bool  lost = m[i].ix != src.ix && rule(src.ix, [](auto c) {
            using T = Alt<decltype(c)::value>;
            return std::is_nothrow_copy_constructible<T>::value || !std::is_nothrow_move_constructible<T>::value;
        });
        const bool  threw = guarded([&] { o(i) = static_cast<const V&>(o(j)); });
        stored(i, src.ix, src.val, threw, lost, i == j ? "self copy assign" : "copy assign");
        vh::nontrivial();
    }
    void copy_assign(int, int, std::false_type) {}
    void move_assign(int i, int j, std::true_type)
    {
        const Model src   = m[j];
        const bool  lost  = m[i].ix != src.ix;
        const bool  threw = guarded([&] { o(i) = std::move(o(j)); });
        stored(i, src.ix, src.val, threw, lost, i == j ? "self move assign" : "move assign");
        if (i != j && !threw)
        {
            m[j].val = moved(src.ix, src.val);
        }
        else if (i == j && src.ix != NONE)
        {
            with<NT>(src.ix, [&](auto c) { m[i].val = val(*I::template get_if<decltype(c)::value>(&o(i))); });
        }
        vh::nontrivial();
    }
    void move_assign(int, int, std::false_type) {}
    template <std::size_t K>
    void assign_value(int i, std::int64_t v, std::true_type)
    {
        using T        = Alt<K>;
        const bool rv  = !std::is_copy_assignable<T>::value || rng.chance(1, 2);
        const bool nx  = rv ? std::is_nothrow_constructible<T, T&&>::value : std::is_nothrow_constructible<T, const T&>::value;
        const bool lost = m[i].ix != K && (nx || !std::is_nothrow_move_constructible<T>::value);
        T          x(v);
        locals += About<T>::tracked ? 1 : 0;
        const bool threw = guarded([&] { lvalue_or_rvalue(x, rv, std::is_copy_assignable<T>{}, [&](auto&& a) { o(i) = std::forward<decltype(a)>(a); }); });
        stored(i, K, v, threw, lost, rv ? "assign rvalue" : "assign lvalue");
        this->template source<K>(x, v, rv, threw);
        check_all();
        locals -= About<T>::tracked ? 1 : 0;
    }
    template <std::size_t K>
    void assign_value(int, std::int64_t, std::false_type)
    {
    }
    template <std::size_t K>
    void assign_other(int i, std::int64_t v, std::true_type)
    {
        using T         = Alt<K>;
        const bool lost = m[i].ix != K && !std::is_nothrow_move_constructible<T>::value;
        Conv<T>    c(v);
        const bool rv    = rng.chance(1, 2);
        const bool threw = guarded([&] { lvalue_or_rvalue(c, rv, std::true_type{}, [&](auto&& a) { o(i) = std::forward<decltype(a)>(a); }); });
        stored(i, K, v, threw, lost, "assign by conversion");
    }
    template <std::size_t K>
    void assign_other(int, std::int64_t, std::false_type)
    {
    }
    template <std::size_t K, typename... A>
    Alt<K>& place(int i, std::true_type, A&&... a)
    {
        return o(i).template emplace<Alt<K>>(std::forward<A>(a)...);
    }
    template <std::size_t K, typename... A>
    Alt<K>& place(int i, std::false_type, A&&... a)
    {
        return o(i).template emplace<K>(std::forward<A>(a)...);
    }
    void emplace(int i, std::size_t k, std::int64_t v)
    {
        const bool typed = rng.chance(1, 2), dflt = rng.chance(1, 8);
        with<NT>(k, [&](auto c) {
            constexpr std::size_t K = decltype(c)::value;
            using U                 = std::integral_constant<bool, occurrences<Alt<K>, Ts...>() == 1>;
            const void* p           = nullptr;
            const bool  threw       = guarded([&] {
                if (dflt)
                {
                    p = std::addressof(this->template place<K>(i, U{}));
                }
                else if (typed)
                {
                    p = std::addressof(this->template place<K>(i, U{}, v));
                }
                else
                {
                    p = std::addressof(o(i).template emplace<K>(v));
                }
            });
            stored(i, K, dflt ? 0 : v, threw, true, "emplace");
            VH_CHECK(threw || p == I::template get_if<K>(&o(i)), "variant.emplace-result", "another address came back");
        });
    }
    void swap(int i, int j, std::true_type)
    {
        const Model a = m[i], b = m[j];
        if (!std::is_same<I, Pf>::value && (a.ix == NONE) != (b.ix == NONE))
        {
            return;  // libstdc++ 13 leaves the moved-from value of the other variant in place
        }
        const bool free_fn = rng.chance(1, 3);
        const bool  threw   = guarded([&] {
            using std::swap;
            if (free_fn)
            {
                swap(o(i), o(j));
            }
            else
            {
                o(i).swap(o(j));
            }
        });
        if (threw || i == j)
        {
            for (const int k : {i, j})
            {
                const auto ix = o(k).index();
                m[k].ix       = ix == I::npos ? NONE : ix;
                VH_CHECK(m[k].ix == NONE || m[k].ix == a.ix || m[k].ix == b.ix, "variant.swap", "a failed swap made up an alternative");
                if (m[k].ix != NONE)
                {
                    with<NT>(ix, [&](auto c) { m[k].val = val(*I::template get_if<decltype(c)::value>(&o(k))); });
                    const bool fine = (m[k].ix == a.ix && m[k].val == a.val) || (m[k].ix == b.ix && m[k].val == b.val) || m[k].val == vh::MOVED;
                    VH_CHECK(fine, "variant.swap", "a failed swap made up the value %lld", static_cast<long long>(m[k].val));
                }
            }
            if (!free_fn && a.ix == b.ix)
            {
                VH_CHECK(m[i].ix == a.ix && m[j].ix == a.ix, "variant.swap", "a failed swap of equal alternatives changed them");
            }
        }
        else
        {
            m[i] = b;
            m[j] = a;
        }
        vh::op("%s v%d [%d] v%d [%d]%s", free_fn ? "std::swap" : "swap", i, int(a.ix), j, int(b.ix), threw ? " THREW" : "");
        vh::nontrivial();
    }
    void swap(int, int, std::false_type) {}
    template <std::size_t K>
    void take(int i, std::true_type)
    {
        const auto   was   = m[i].val;
        std::int64_t got   = 0;
        const bool   threw = guarded([&] {
            Alt<K> x(I::template get<K>(std::move(o(i))));
            got = val(x);
        });
        VH_CHECK(threw || got == was, "variant.take", "%lld came out", static_cast<long long>(got));
        m[i].val = threw ? was : moved(K, was);
        vh::op("take v%d [%zu]%s", i, K, threw ? " THREW" : "");
    }
    template <std::size_t K>
    void take(int, std::false_type)
    {
    }

    // ---------------------------------------------------------------------------------- visitation
    struct Visitor
    {
        std::vector<Seen>& seen;
        int                calls = 0, how = 0;  // how: bit 0 const, bit 1 rvalue of the visitor itself
        template <typename... A>
        std::int64_t note(int how_, A&&... a)
        {
            ++calls;
            how                   = how_;
            const std::int64_t xs[] = {one(std::forward<A>(a))..., 0};
            return xs[0] * 3 + static_cast<std::int64_t>(sizeof...(A));
        }
        template <typename A>
        std::int64_t one(A&& a)
        {
            using T = std::decay_t<A>;
            seen.push_back(Seen{std::addressof(a), val(a), category<A&&>(), first_of<T, Ts...>()});
            return val(a);
        }
        template <typename... A>
        std::int64_t operator()(A&&... a) &
        {
            return note(0, std::forward<A>(a)...);
        }
        template <typename... A>
        std::int64_t operator()(A&&... a) &&
        {
            return note(2, std::forward<A>(a)...);
        }
    };
    const void* address(int i)
    {
        const void* p = nullptr;
        with<NT>(m[i].ix, [&](auto c) { p = I::template get_if<decltype(c)::value>(&o(i)); });
        return p;
    }
    void saw(const Seen& s, int i, Cat c)
    {
        with<NT>(m[i].ix, [&](auto k) {
            VH_CHECK(s.type == (first_of<Alt<decltype(k)::value>, Ts...>()), "visit.type", "visited as another alternative");
        });
        VH_CHECK(s.where == address(i), "visit.address", "visited another object");
        VH_CHECK(s.value == m[i].val, "visit.value", "visited %lld", static_cast<long long>(s.value));
        VH_CHECK(s.cat == c, "visit.category", "category %d instead of %d", int(s.cat), int(c));
    }
    template <typename F>
    void as(Cat c, int i, F&& f)
    {
        switch (c)
        {
        case L:
            f(o(i));
            break;
        case CL:
            f(static_cast<const V&>(o(i)));
            break;
        case R:
            f(std::move(o(i)));
            break;
        default:
            f(static_cast<const V&&>(o(i)));
        }
    }
    template <typename F, typename... X>
    std::int64_t run(F&& f, X&&... x)
    {
        return I::visit(std::forward<F>(f), std::forward<X>(x)...);
    }
    /// The categories of two and of three visited variants.
    const Cat PAIRS_[4][2]   = {{L, CL}, {R, L}, {CL, CR}, {CR, R}};
    const Cat TRIPLES_[2][3] = {{R, CL, L}, {CL, L, R}};
    void visit_two(Visitor& vis, int pair, int i, int j, std::int64_t& got)
    {
        V&       a  = o(i);
        V&       b  = o(j);
        const V& ca = a;
        const V& cb = b;
        switch (pair)
        {
        case 0:
            got = run(vis, a, cb);
            break;
        case 1:
            got = run(vis, std::move(a), b);
            break;
        case 2:
            got = run(vis, ca, std::move(cb));
            break;
        default:
            got = run(vis, std::move(ca), std::move(b));
        }
    }
    void visit_three(Visitor& vis, int triple, int i, int j, int k, std::int64_t& got, std::true_type)
    {
        if (triple == 0)
        {
            got = run(vis, std::move(o(i)), static_cast<const V&>(o(j)), o(k));
        }
        else
        {
            got = run(vis, static_cast<const V&>(o(i)), o(j), std::move(o(k)));
        }
    }
    void visit_three(Visitor&, int, int, int, int, std::int64_t&, std::false_type) {}
    void visit(int i, int j, int k)
    {
        using Three              = std::integral_constant<bool, NT <= 3>;
        const Cat         ci     = static_cast<Cat>(rng.below(4));
        const int         n      = static_cast<int>(rng.below(Three::value ? 4 : 3));
        const int         mix    = static_cast<int>(rng.below(n == 3 ? 2 : 4));
        const bool        rv     = n <= 1 && rng.chance(1, 2);
        const bool        broken = (n > 0 && m[i].ix == NONE) || (n > 1 && m[j].ix == NONE) || (n > 2 && m[k].ix == NONE);
        std::vector<Seen> seen;
        Visitor           vis{seen};
        std::int64_t      got   = -1;
        bool              threw = false;
        vh::op("visit %d of v%d [%d] v%d [%d] v%d [%d]", n, i, int(m[i].ix), j, int(m[j].ix), k, int(m[k].ix));
        auto body = [&] {
            if (n == 0)
            {
                got = rv ? run(std::move(vis)) : run(vis);
            }
            else if (n == 1)
            {
                as(ci, i, [&](auto&& a) { got = rv ? run(std::move(vis), std::forward<decltype(a)>(a)) : run(vis, std::forward<decltype(a)>(a)); });
            }
            else if (n == 2)
            {
                visit_two(vis, mix, i, j, got);
            }
            else
            {
                visit_three(vis, mix, i, j, k, got, Three{});
            }
        };
        if (broken)
        {
#if VH_EXC
            try
            {
                body();
            } catch (const typename I::Bad&)
            {
                threw = true;
            }
            VH_CHECK(threw && vis.calls == 0, "visit.valueless", "visited a valueless variant");
#endif
            return;
        }
        body();
        VH_CHECK(vis.calls == 1, "visit.calls", "the visitor was called %d times", vis.calls);
        VH_CHECK(vis.how == (rv ? 2 : 0), "visit.visitor-category", "the visitor was called as %d", vis.how);
        VH_CHECK(static_cast<int>(seen.size()) == n, "visit.arguments", "%zu arguments", seen.size());
        const int who[] = {i, j, k};
        for (int q = 0; q < n; ++q)
        {
            saw(seen[static_cast<std::size_t>(q)], who[q], n == 1 ? ci : n == 2 ? PAIRS_[mix][q] : TRIPLES_[mix % 2][q]);
        }
        VH_CHECK(got == (n > 0 ? m[i].val : 0) * 3 + n, "visit.result", "%lld came back", static_cast<long long>(got));
        vh::feel(static_cast<std::uint64_t>(n * 4 + rv));
        results(i, j);
    }
    struct Holder
    {
        std::int64_t x;
    };
    /// Other kinds of result.
    void results(int i, int j)
    {
        if (m[i].ix == NONE || m[j].ix == NONE)
        {
            return;
        }
        Holder h{1}, h2{2};
        Holder& r = I::visit([&](auto&) -> Holder& { return h; }, o(i));
        VH_CHECK(&r == &h, "visit.reference", "a reference came back as a copy");
        const Holder& r2 = I::visit([&](auto&, const auto&) -> const Holder& { return h2; }, o(i), o(j));
        VH_CHECK(&r2 == &h2, "visit.reference", "a reference came back as a copy");
        Holder&& r3 = I::visit([&](const auto&) -> Holder&& { return std::move(h); }, static_cast<const V&>(o(i)));
        VH_CHECK(&r3 == &h, "visit.reference", "a reference came back as a copy");
        int n = 0;
        I::visit([&](auto&) -> void { ++n; }, o(i));
        I::visit([&](auto&, auto&&) -> void { ++n; }, o(i), std::move(o(j)));
        VH_CHECK(n == 2, "visit.void", "%d calls", n);
        const std::unique_ptr<std::int64_t> u =
            I::visit([](const auto& a, const auto& b) { return std::unique_ptr<std::int64_t>(new std::int64_t(val(a) * 7 + val(b))); }, o(i), o(j));
        VH_CHECK(*u == m[i].val * 7 + m[j].val, "visit.move-only", "another result");
        // the helper for visitors
        const auto ix = I::visit(cetl::make_overloaded([](const auto&) { return -1; }, [](const Alt<0>&) { return 0; }), static_cast<const V&>(o(i)));
        with<NT>(m[i].ix, [&](auto k) {
            VH_CHECK(ix == ((std::is_same<Alt<decltype(k)::value>, Alt<0>>::value) ? 0 : -1), "visit.overloaded", "another overload");
        });
    }

    void step()
    {
        const int i = static_cast<int>(rng.below(N));
        int       j = static_cast<int>(rng.below(N));
        fired       = false;
        if (!alive[i])
        {
            construct(i, j);
        }
        else
        {
            if (!alive[j])
            {
                j = i;
            }
            const auto v = rng.range(1, 900);
            const auto k = rng.below(NT);
            switch (rng.below(16))
            {
            case 0:
                vh::op("destroy v%d [%d]", i, int(m[i].ix));
                destroy(i);
                break;
            case 1:
            case 2:
                with<NT>(k, [&](auto c) {
                    constexpr std::size_t K = decltype(c)::value;
                    this->template assign_value<K>(i, v, std::integral_constant<bool, occurrences<Alt<K>, Ts...>() == 1 && std::is_move_assignable<Alt<K>>::value>{});
                });
                break;
            case 3:
                with<NT>(k, [&](auto c) {
                    constexpr std::size_t K = decltype(c)::value;
                    this->template assign_other<K>(i, v, std::integral_constant<bool, occurrences<Alt<K>, Ts...>() == 1 && std::is_move_assignable<Alt<K>>::value>{});
                });
                break;
            case 4:
            case 5:
            case 6:
                copy_assign(i, j, CAt{});
                break;
            case 7:
            case 8:
                move_assign(i, j, MAt{});
                break;
            case 9:
            case 10:
                emplace(i, k, v);
                break;
            case 11:
            case 12:
                swap(i, j, MAt{});
                break;
            case 13:
                if (m[i].ix != NONE)
                {
                    with<NT>(m[i].ix, [&](auto c) { this->template take<decltype(c)::value>(i, MCt{}); });
                }
                break;
            default:
                visit(i, j, alive[(i + 1) % N] ? (i + 1) % N : i);
            }
        }
        elem_k = 0;
        check_all();
        vh::feel(static_cast<std::uint64_t>(i) * 64 + static_cast<std::uint64_t>(j) * 16 + (alive[i] ? m[i].ix + 2 : 0));
    }
};
#if CFG == 0
template <typename I>
using W = World<I, vh::Elem<15, 0>, vh::Elem<11, 1>, vh::Elem<79, 2>, Str, std::int64_t>;
#elif CFG == 1
template <typename I>
using W = World<I, vh::Elem<14, 0>, vh::Elem<10, 1>, std::int64_t>;
#elif CFG == 2
template <typename I>
using W = World<I, vh::Elem<9, 0>, vh::Elem<75, 1>, vh::Elem<31, 2>, Triv>;
#elif CFG == 3
template <typename I>
using W = World<I, TrivDtor, Triv, TrivMove<0>>;
#elif CFG == 4
template <typename I>
using W = World<I, std::int64_t, Triv>;
#elif CFG == 5
template <typename I>
using W = World<I, vh::Elem<7, 0>, vh::Elem<15, 1>>;
#elif CFG == 6
template <typename I>
using W = World<I, vh::Elem<15, 0>, vh::Elem<47, 0>, vh::Elem<15, 0>, std::int64_t, std::int64_t>;
#elif CFG == 7
template <typename I>
using W = World<I, TrivMove<0>, TrivMove<1>>;
#elif CFG == 8
template <typename I>
using W = World<I, vh::Elem<11, 0>>;
#endif
template <typename I>
void history(Rng& rng)
{
    W<I>      w(rng);
    const int n = static_cast<int>(rng.range(6, 40));
    for (int k = 0; k < n; ++k)
    {
        w.step();
    }
}
template <typename I>
void faults(Rng& rng)
{
    const std::uint64_t seed = rng.next();
    const int           n    = static_cast<int>(rng.range(1, 10));
    const int           tail = static_cast<int>(rng.range(1, 8));
    for (std::uint64_t k = 1; k < 12; ++k)
    {
        Rng  r(seed);
        W<I> w(r);
        for (int s = 0; s < n; ++s)
        {
            w.step();
        }
        w.elem_k = k;
        w.step();
        const bool hit = w.fired;
        for (int s = 0; s < tail; ++s)
        {
            w.step();
        }
        vh::feel(k);
        if (!hit)
        {
            break;
        }
        vh::count("fault points");
    }
}

/// Many failures: most histories spend much time in the valueless state.
template <typename I>
void valueless(Rng& rng)
{
    W<I>      w(rng);
    const int n = static_cast<int>(rng.range(6, 40));
    for (int k = 0; k < n; ++k)
    {
        w.elem_k = rng.chance(1, 2) ? rng.range(1, 3) : 0;
        w.step();
    }
}

// ------------------------------------------------------------------------------------------------ comparisons
static VH_TLS bool        g_table[6][4][4];
static VH_TLS const char* g_last = "";
static VH_TLS int         g_lhs, g_rhs, g_calls, g_type;
static const char* const g_names[] = {"==", "!=", "<", "<=", ">", ">="};
static bool        ask(int op, int type, int a, int b)
{
    g_last = g_names[op];
    g_type = type;
    g_lhs  = a;
    g_rhs  = b;
    ++g_calls;
    return g_table[op][a & 3][b & 3];
}
struct Boom
{};
template <int Tag>
struct Ord
{
    int k;
    explicit Ord(int x)
        : k(x)
    {
#if VH_EXC
        if (x < 0)
        {
            throw Boom{};
        }
#endif
    }
    friend bool operator==(const Ord& a, const Ord& b) { return ask(0, Tag, a.k, b.k); }
    friend bool operator!=(const Ord& a, const Ord& b) { return ask(1, Tag, a.k, b.k); }
    friend bool operator<(const Ord& a, const Ord& b) { return ask(2, Tag, a.k, b.k); }
    friend bool operator<=(const Ord& a, const Ord& b) { return ask(3, Tag, a.k, b.k); }
    friend bool operator>(const Ord& a, const Ord& b) { return ask(4, Tag, a.k, b.k); }
    friend bool operator>=(const Ord& a, const Ord& b) { return ask(5, Tag, a.k, b.k); }
};
static bool judge(int op, std::size_t l, std::size_t r, bool of_values)
{
    // valueless sorts before everything
    const std::size_t a = l + 1, b = r + 1;
    if (a == b && a != 0)
    {
        return of_values;
    }
    switch (op)
    {
    case 0:
        return a == b;
    case 1:
        return a != b;
    case 2:
        return a < b;
    case 3:
        return a <= b;
    case 4:
        return a > b;
    default:
        return a >= b;
    }
}
template <typename X>
void six(const X& a, const X& b, bool (&r)[6])
{
    r[0] = a == b;
    r[1] = a != b;
    r[2] = a < b;
    r[3] = a <= b;
    r[4] = a > b;
    r[5] = a >= b;
}
template <typename I>
void compare(Rng& rng)
{
    for (auto& t : g_table)
    {
        for (auto& r : t)
        {
            for (bool& x : r)
            {
                x = rng.chance(1, 2);
            }
        }
    }
    using V = typename I::template V<Ord<0>, Ord<1>, Ord<2>>;
    const int         va = static_cast<int>(rng.below(4)), vb = static_cast<int>(rng.below(4));
    const std::size_t ia = VH_EXC && rng.chance(1, 5) ? NONE : rng.below(3), ib = rng.chance(1, 3) ? ia : VH_EXC && rng.chance(1, 5) ? NONE : rng.below(3);
    auto              make = [](std::size_t ix, int v) {
        V x(typename I::template Ix<0>{}, v);
        if (ix == NONE)
        {
#if VH_EXC
            try
            {
                x.template emplace<1>(-1);
            } catch (const Boom&)
            {
            }
#endif
        }
        else
        {
            with<3>(ix, [&](auto c) { x.template emplace<decltype(c)::value>(v); });
        }
        return x;
    };
    const V a = make(ia, va), b = make(ib, vb);
    // libstdc++ never loses a value of trivial type
    const std::size_t ja = a.index() == I::npos ? NONE : a.index(), jb = b.index() == I::npos ? NONE : b.index();
    vh::op("compare [%d] %d [%d] %d", int(ja), va, int(jb), vb);
    auto one = [&](int op, bool got) {
        const bool same = ja == jb && ja != NONE;
        const bool want = judge(op, ja, jb, g_table[op][va][vb]);
        VH_CHECK(got == want, "variant.compare", "operator %s of alternatives %d and %d gives %d", g_names[op], int(ja), int(jb), int(got));
        VH_CHECK(g_calls == (same ? 1 : 0), "variant.compare-calls", "%d comparisons of values", g_calls);
        if (same)
        {
            VH_CHECK(std::strcmp(g_last, g_names[op]) == 0, "variant.compare-operator", "%s used %s", g_names[op], g_last);
            VH_CHECK(g_lhs == va && g_rhs == vb && g_type == static_cast<int>(ja), "variant.compare-operands", "%s compared the wrong way round", g_names[op]);
        }
        g_calls = 0;
        vh::count("comparisons");
    };
    g_calls = 0;
    one(0, a == b);
    one(1, a != b);
    one(2, a < b);
    one(3, a <= b);
    one(4, a > b);
    one(5, a >= b);
    // partial orders and strings
    const double ds[] = {0.0, -0.0, 1.0, -1.0, std::strtod("nan", nullptr), std::strtod("inf", nullptr)};
    const double x = rng.pick(ds), y = rng.pick(ds);
    using D        = typename I::template V<double, std::string, cetl::pf17::monostate>;
    D          da(x), db(y);
    bool       got[6];
    const bool want[] = {x == y, x != y, x < y, x <= y, x > y, x >= y};
    six(da, db, got);
    for (int k = 0; k < 6; ++k)
    {
        VH_CHECK(got[k] == want[k], "variant.compare-partial", "%s of %g and %g", g_names[k], x, y);
    }
    const std::string ss[] = {"", "a", "ab", "b"};
    const std::string s = rng.pick(ss), t = rng.pick(ss);
    six(D(s), D(t), got);
    const bool wants[] = {s == t, s != t, s < t, s <= t, s > t, s >= t};
    bool       mono[6];
    six(D(cetl::pf17::monostate{}), D(cetl::pf17::monostate{}), mono);
    for (int k = 0; k < 6; ++k)
    {
        VH_CHECK(got[k] == wants[k], "variant.compare-string", "%s", g_names[k]);
        VH_CHECK(mono[k] == (k == 0 || k == 3 || k == 5), "variant.compare-monostate", "%s", g_names[k]);
    }
    vh::feel(static_cast<std::uint64_t>(va * 4 + vb) + (ja + 1) * 16 + (jb + 1) * 64);
    for (int k = 0; k < 6; ++k)
    {
        vh::feel(static_cast<std::uint64_t>(g_table[k][va][vb]));
    }
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ conversions
struct FromList
{
    std::vector<int> v;
    int              extra;
    FromList(std::initializer_list<int> il, int x)
        : v(il)
        , extra(x)
    {
    }
};
template <typename I>
void conversions(Rng& rng)
{
    const int n = static_cast<int>(rng.below(100));
    {
        using V = typename I::template V<int, double, std::string>;
        V a(n), b(n + 0.5), c("text"), d(std::string("more"));
        VH_CHECK(a.index() == 0 && I::template get<0>(a) == n, "variant.convert", "int");
        VH_CHECK(b.index() == 1 && I::template get<1>(b) == n + 0.5, "variant.convert", "double");
        VH_CHECK(c.index() == 2 && I::template get<2>(c) == "text", "variant.convert", "text");
        VH_CHECK(d.index() == 2 && I::template get<2>(d) == "more", "variant.convert", "string");
        a = "text";
        VH_CHECK(a.index() == 2 && a == c, "variant.convert", "assigned text");
        a = 'x';
        VH_CHECK(a.index() == 0 && I::template get<0>(a) == 'x', "variant.convert", "assigned character");
        a = 2.5F;
        VH_CHECK(a.index() == 1 && I::template get<1>(a) == 2.5, "variant.convert", "assigned float");
        const short s = static_cast<short>(n);
        a             = s;
        VH_CHECK(a.index() == 0 && I::template get<0>(a) == n, "variant.convert", "assigned short");
    }
    {
        using V = typename I::template V<std::string, bool>;
        V a("abc");
        VH_CHECK(a.index() == 0, "variant.convert", "text to string or bool");
        a = n % 2 == 0;
        VH_CHECK(a.index() == 1 && I::template get<1>(a) == (n % 2 == 0), "variant.convert", "bool");
        a = "def";
        VH_CHECK(a.index() == 0 && I::template get<0>(a) == "def", "variant.convert", "text to string or bool");
    }
    {
        using V = typename I::template V<float, long, std::unique_ptr<int>>;
        V a(n);
        VH_CHECK(a.index() == 1 && I::template get<1>(a) == n, "variant.convert", "int to float or long");
        a = std::unique_ptr<int>(new int(n));
        VH_CHECK(a.index() == 2 && *I::template get<2>(a) == n, "variant.convert", "pointer");
        V b(std::move(a));
        VH_CHECK(a.index() == 2 && I::template get<2>(a) == nullptr && *I::template get<2>(b) == n, "variant.move", "moved-from effects");
        a.swap(b);
        VH_CHECK(*I::template get<2>(a) == n && I::template get<2>(b) == nullptr, "variant.swap", "swapped pointers");
        b = 2L;
        a.swap(b);
        VH_CHECK(*I::template get<2>(b) == n && I::template get<1>(a) == 2, "variant.swap", "swapped alternatives");
    }
    {
        using V = typename I::template V<int, std::string, FromList>;
        V a(typename I::template Ty<std::string>{}, {'a', 'b'});
        V b(typename I::template Ix<2>{}, {1, 2, 3}, n);
        VH_CHECK(I::template get<1>(a) == "ab", "variant.list", "list by type");
        VH_CHECK(I::template get<2>(b).v.size() == 3 && I::template get<2>(b).extra == n, "variant.list", "list by index");
        std::string& s = b.template emplace<std::string>({'c', 'd'});
        VH_CHECK(b.index() == 1 && s == "cd" && &s == I::template get_if<1>(&b), "variant.list", "emplaced list by type");
        FromList& f = b.template emplace<2>({4, 5}, n);
        VH_CHECK(b.index() == 2 && f.v.size() == 2 && f.v[0] == 4 && f.extra == n && &f == I::template get_if<2>(&b), "variant.list", "emplaced list by index");
        FromList& g = a.template emplace<FromList>({6}, n + 1);
        VH_CHECK(a.index() == 2 && g.v.size() == 1 && g.extra == n + 1, "variant.list", "emplaced list by type");
        VH_CHECK(I::template get<1>(V(typename I::template Ix<1>{}, std::size_t(3), 'z')) == "zzz", "variant.in-place", "arguments");
    }
    vh::op("conversions %d", n);
    vh::feel(static_cast<std::uint64_t>(n));
    vh::nontrivial();
}
// ------------------------------------------------------------------------------------------------ value categories
/// Notes how it is called.
struct CalledAs
{
    char operator()(const vfwd::Arg&) & { return 'l'; }
    char operator()(const vfwd::Arg&) const& { return 'c'; }
    char operator()(const vfwd::Arg&) && { return 'r'; }
};
/// Notes the category of what it is called with and passes it on.
struct PassOn
{
    std::string* seen;
    template <typename... A>
    int operator()(A&&... a) const
    {
        const int dummy[] = {0, (note(std::forward<A>(a)), 0)...};
        (void) dummy;
        return static_cast<int>(sizeof...(A));
    }
    template <typename A>
    void note(A&& a) const
    {
        *seen += vfwd::cat(std::forward<A>(a));
    }
};
struct Refer
{
    template <typename A>
    A&& operator()(A&& a) const
    {
        return static_cast<A&&>(a);
    }
};
template <typename I, typename S, bool Nx>
void forwarding_of(Rng& rng)
{
    using V = typename I::template V<int, S, std::string>;
    using vfwd::expect;
    using Type      = typename I::template Ty<S>;
    using Index     = typename I::template Ix<1>;
    const int start = static_cast<int>(rng.below(3));
    auto fresh = [start] { return start == 0 ? V(typename I::template Ix<0>{}, 5) : start == 1 ? V(typename I::template Ix<1>{}) : V(typename I::template Ix<2>{}, "text"); };
    vfwd::pairs(rng, "in place by index", [](auto&& a, auto&& b, const std::string& c, int v) {
        const V x(Index{}, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
        expect(I::template get<1>(x), "in place by index", "2" + c, v);
    });
    vfwd::pairs(rng, "in place by type", [](auto&& a, auto&& b, const std::string& c, int v) {
        const V x(Type{}, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
        expect(I::template get<1>(x), "in place by type", "2" + c, v);
    });
    vfwd::pairs(rng, "emplace by index", [&](auto&& a, auto&& b, const std::string& c, int v) {
        V  x = fresh();
        S& s = x.template emplace<1>(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
        VH_CHECK(x.index() == 1 && &s == I::template get_if<1>(&x), "variant.emplace-result", "emplace by index");
        expect(s, "emplace by index", "2" + c, v);
    });
    vfwd::pairs(rng, "emplace by type", [&](auto&& a, auto&& b, const std::string& c, int v) {
        V  x = fresh();
        S& s = x.template emplace<S>(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
        VH_CHECK(x.index() == 1 && &s == I::template get_if<1>(&x), "variant.emplace-result", "emplace by type");
        expect(s, "emplace by type", "2" + c, v);
    });
    vfwd::lists(rng, "list in place by index", [](std::initializer_list<int> il, auto&& a, const std::string& c, int v) {
        const V x(Index{}, il, std::forward<decltype(a)>(a));
        expect(I::template get<1>(x), "list in place by index", "i" + c, v);
    });
    vfwd::lists(rng, "list in place by type", [](std::initializer_list<int> il, auto&& a, const std::string& c, int v) {
        const V x(Type{}, il, std::forward<decltype(a)>(a));
        expect(I::template get<1>(x), "list in place by type", "i" + c, v);
    });
    vfwd::lists(rng, "emplace list by index", [&](std::initializer_list<int> il, auto&& a, const std::string& c, int v) {
        V  x = fresh();
        S& s = x.template emplace<1>(il, std::forward<decltype(a)>(a));
        VH_CHECK(x.index() == 1 && &s == I::template get_if<1>(&x), "variant.emplace-result", "emplace list by index");
        expect(s, "emplace list by index", "i" + c, v);
    });
    vfwd::lists(rng, "emplace list by type", [&](std::initializer_list<int> il, auto&& a, const std::string& c, int v) {
        V  x = fresh();
        S& s = x.template emplace<S>(il, std::forward<decltype(a)>(a));
        VH_CHECK(x.index() == 1 && &s == I::template get_if<1>(&x), "variant.emplace-result", "emplace list by type");
        expect(s, "emplace list by type", "i" + c, v);
    });
    vfwd::singles(rng, "from a value", [](auto&& a, const std::string& c, int v) {
        const V x(std::forward<decltype(a)>(a));
        VH_CHECK(x.index() == 1, "variant.convert", "from a value");
        expect(I::template get<1>(x), "from a value", "1" + c, v);
    });
    vfwd::singles(rng, "assigned a value", [&](auto&& a, const std::string& c, int v) {
        V  x    = fresh();
        V& back = (x = std::forward<decltype(a)>(a));
        VH_CHECK(&back == &x && x.index() == 1, "variant.assign-result", "assigning a value");
        expect(I::template get<1>(x), "assigned a value", start == 1 ? "=" + c : Nx ? "M" : "1" + c, v);
    });
    const int n = static_cast<int>(rng.below(100));
    {
        V       o(Index{}, vfwd::Arg(n));
        const V copied(static_cast<const V&>(o));
        expect(I::template get<1>(copied), "copied", "C", n);
        V assigned = fresh();
        assigned   = static_cast<const V&>(o);
        expect(I::template get<1>(assigned), "copy assigned", start == 1 ? "=C" : Nx ? "M" : "C", n);
        expect(I::template get<1>(o), "source of copies", "1r", n);
        V target = fresh();
        target   = std::move(assigned);
        expect(I::template get<1>(target), "move assigned", start == 1 ? "=M" : "M", n);
        VH_CHECK(assigned.index() == 1 && I::template get<1>(assigned).sum == -1, "forwarding", "a move assignment leaves the value");
        V moved(std::move(o));
        expect(I::template get<1>(moved), "moved", "M", n);
        VH_CHECK(o.index() == 1 && I::template get<1>(o).sum == -1, "forwarding", "a move leaves the value");
        S s(I::template get<1>(std::move(moved)));
        expect(s, "taken by index", "M", n);
        S t(I::template get_type<S>(std::move(target)));
        expect(t, "taken by type", "M", n);
        V w = fresh();
        w   = std::move(s);
        expect(I::template get<1>(w), "move assigned from a value", start == 1 ? "=M" : "M", n);
        w = fresh();
        w = static_cast<const S&>(t);
        expect(I::template get<1>(w), "copy assigned from a value", start == 1 ? "=C" : Nx ? "M" : "C", n);
    }
    // visitors of every category, arguments of every category
    {
        using W = typename I::template V<vfwd::Arg>;
        W              a(typename I::template Ix<0>{}, n), b(typename I::template Ix<0>{}, n + 1);
        const W&       ca = a;
        CalledAs       f;
        const CalledAs cf{};
        VH_CHECK(I::visit(f, a) == 'l' && I::visit(cf, a) == 'c' && I::visit(CalledAs{}, a) == 'r', "variant.visitor-category", "one variant");
        std::string  seen;
        const PassOn p{&seen};
        VH_CHECK(I::visit(p, a) == 1 && I::visit(p, ca) == 1 && I::visit(p, std::move(a)) == 1 && I::visit(p, std::move(ca)) == 1 && seen == "lcrk", "variant.visit-category", "one variant: %s", seen.c_str());
        seen.clear();
        VH_CHECK(I::visit(p, a, ca) == 2 && I::visit(p, std::move(a), b) == 2 && I::visit(p, ca, std::move(b)) == 2 && I::visit(p, std::move(ca), std::move(b)) == 2 && seen == "lcrlcrkr",
                 "variant.visit-category",
                 "two variants: %s",
                 seen.c_str());
        seen.clear();
        VH_CHECK(I::visit(p, a, std::move(b), ca) == 3 && seen == "lrc", "variant.visit-category", "three variants: %s", seen.c_str());
        static_assert(std::is_same<decltype(I::visit(Refer{}, a)), vfwd::Arg&>::value, "");
        static_assert(std::is_same<decltype(I::visit(Refer{}, ca)), const vfwd::Arg&>::value, "");
        static_assert(std::is_same<decltype(I::visit(Refer{}, std::move(a))), vfwd::Arg&&>::value, "");
        VH_CHECK(&I::visit(Refer{}, a) == I::template get_if<0>(&a) && &I::visit(Refer{}, ca) == I::template get_if<0>(&a), "variant.visit-reference", "another object");
        VH_CHECK(!I::template get<0>(a).gone && !I::template get<0>(b).gone, "variant.visit-moved", "a visit moved from a value");
    }
    vh::op("forwarding %d %d", start, n);
    vh::feel(static_cast<std::uint64_t>(start * 128 + n));
}
template <typename I>
void forwarding(Rng& rng)
{
    forwarding_of<I, vfwd::Sink<vfwd::NoDtor>, false>(rng);
    forwarding_of<I, vfwd::Sink<vfwd::WithDtor>, false>(rng);
    forwarding_of<I, vfwd::Sink<vfwd::WithDtor, true>, true>(rng);
}

// ------------------------------------------------------------------------------------------------ what is offered, and with what guarantees
#define SAME(TRAIT, WANT)                                                                                              \
    VH_CHECK((TRAIT) == (WANT), "variant.offers", "%s is %d for %s", #TRAIT, int(TRAIT), __PRETTY_FUNCTION__)
template <typename I, typename T, bool Swaps = true>
void offers()
{
    using A = typename I::template V<T, int>;
    using B = typename I::template V<int, T>;
    constexpr bool cc = std::is_copy_constructible<T>::value, mc = std::is_move_constructible<T>::value;
    constexpr bool ca = std::is_copy_assignable<T>::value, ma = std::is_move_assignable<T>::value;
    SAME(std::is_default_constructible<A>::value, std::is_default_constructible<T>::value);
    SAME(std::is_default_constructible<B>::value, true);
    SAME(std::is_nothrow_default_constructible<A>::value, std::is_nothrow_default_constructible<T>::value);
    SAME(std::is_nothrow_default_constructible<B>::value, true);
    SAME(std::is_copy_constructible<A>::value, cc);
    SAME(std::is_copy_constructible<B>::value, cc);
    SAME(std::is_move_constructible<A>::value, mc);
    SAME(std::is_move_constructible<B>::value, mc);
    SAME(std::is_copy_assignable<A>::value, cc && ca);
    SAME(std::is_copy_assignable<B>::value, cc && ca);
    SAME(std::is_move_assignable<A>::value, (mc && ma) || (cc && ca));
    SAME(std::is_move_assignable<B>::value, (mc && ma) || (cc && ca));
    SAME(std::is_trivially_destructible<A>::value, std::is_trivially_destructible<T>::value);
    SAME(std::is_trivially_destructible<B>::value, std::is_trivially_destructible<T>::value);
    if (mc)
    {
        SAME(std::is_nothrow_move_constructible<A>::value, std::is_nothrow_move_constructible<T>::value);
        SAME(std::is_nothrow_move_constructible<B>::value, std::is_nothrow_move_constructible<T>::value);
    }
    if (mc && ma)
    {
        const bool nothrow = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;
        SAME(std::is_nothrow_move_assignable<A>::value, nothrow);
        SAME(std::is_nothrow_move_assignable<B>::value, nothrow);
    }
    vh::count("offers");
}
/// A failure reaches the caller when only the other operation promises not to fail.
template <typename I, typename T>
void mixed(Rng& rng)
{
#if VH_EXC
    using V          = typename I::template V<int, T>;
    const bool on    = rng.chance(1, 2), move = rng.chance(1, 2);
    const bool nxmc  = std::is_nothrow_move_constructible<T>::value;
    const bool fails = on ? (move ? !std::is_nothrow_move_assignable<T>::value : !std::is_nothrow_copy_assignable<T>::value)
                          : (move ? !nxmc : !std::is_nothrow_copy_constructible<T>::value);
    V to(8), from(typename I::template Ix<1>{}, 7);
    if (on)
    {
        to.template emplace<1>(3);
    }
    vfwd::explode_now() = fails;
    bool threw          = false;
    try
    {
        if (move)
        {
            to = std::move(from);
        }
        else
        {
            to = static_cast<const V&>(from);
        }
    } catch (int)
    {
        threw = true;
    }
    vfwd::explode_now() = false;
    VH_CHECK(threw == fails, "variant.failure-lost", "the failure did not reach the caller");
    if (!fails)
    {
        VH_CHECK(to.index() == 1 && I::template get<1>(to).v == 7, "variant.failure-state", "without a failure");
    }
    else if (on)
    {
        VH_CHECK(to.index() == 1 && I::template get<1>(to).v == 3, "variant.failure-state", "the alternative is lost");
    }
    else if (move || (!std::is_nothrow_copy_constructible<T>::value && !nxmc))
    {
        VH_CHECK(to.valueless_by_exception(), "variant.failure-state", "not valueless");
    }
    else
    {
        VH_CHECK(to.index() == 0 && I::template get<0>(to) == 8, "variant.failure-state", "the value is lost");
    }
    vh::feel(static_cast<std::uint64_t>(on * 4 + move * 2 + fails));
#else
    (void) rng;
#endif
}
template <typename I>
void traits(Rng& rng)
{
    offers<I, char>();
    offers<I, std::string>();
    offers<I, std::unique_ptr<int>>();
    offers<I, vfwd::Fixed>();
    offers<I, vfwd::MoveOnly>();
    offers<I, vfwd::NoAssign>();
    offers<I, vfwd::NoMoveAssign>();
    offers<I, vfwd::CopyAssignOnly>();
    offers<I, vfwd::MoveAssignOnly>();
    offers<I, vfwd::Arg>();
    offers<I, vfwd::Sink<vfwd::NoDtor>>();
    offers<I, vfwd::Special<1, 1, 1, 1>>();
    offers<I, vfwd::Special<2, 2, 2, 2>>();
    offers<I, vfwd::Special<1, 1, 2, 2>>();
    offers<I, vfwd::Special<2, 2, 1, 1>>();
    offers<I, vfwd::Special<1, 2, 1, 2>>();
    offers<I, vfwd::Special<1, 1, 1, 2>>();
    offers<I, vfwd::Special<1, 2, 1, 1>>();
    mixed<I, vfwd::Special<1, 1, 1, 1>>(rng);
    mixed<I, vfwd::Special<1, 1, 2, 2>>(rng);
    mixed<I, vfwd::Special<2, 2, 1, 1>>(rng);
    mixed<I, vfwd::Special<1, 2, 2, 1>>(rng);
    mixed<I, vfwd::Special<2, 1, 1, 2>>(rng);
    mixed<I, vfwd::Special<1, 2, 1, 2>>(rng);
    vh::op("traits");
    vh::nontrivial();
}
#undef SAME
template <typename I, int Op, typename F>
void one_operator(Rng& rng)
{
    using T = vfwd::OneOp<Op>;
    using V = typename I::template V<T, vfwd::OneOp<Op>>;
    const T           x{static_cast<int>(rng.below(3))}, y{static_cast<int>(rng.below(3))};
    const std::size_t i = rng.below(2), j = rng.below(2);
    const V           a = i ? V(typename I::template Ix<1>{}, x) : V(typename I::template Ix<0>{}, x);
    const V           b = j ? V(typename I::template Ix<1>{}, y) : V(typename I::template Ix<0>{}, y);
    const bool        want = i == j ? F{}(x.k, y.k) : F{}(i, j);
    VH_CHECK(F{}(a, b) == want, "variant.compare", "values with only one operator, %d", Op);
    vh::op("operator %d %zu %zu", Op, i, j);
    vh::feel(static_cast<std::uint64_t>(Op) * 64 + i * 32 + j * 16 + static_cast<std::uint64_t>(x.k * 4 + y.k));
}
template <typename I>
void operators(Rng& rng)
{
    one_operator<I, 0, vfwd::Eq>(rng);
    one_operator<I, 2, vfwd::Lt>(rng);
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ many alternatives
static VH_TLS std::int64_t wide_alive = 0;
template <std::size_t N>
struct Wide
{
    std::int64_t v;
    explicit Wide(std::int64_t x)
        : v(x)
    {
        ++wide_alive;
    }
    Wide(const Wide& o)
        : v(o.v)
    {
        ++wide_alive;
    }
    Wide& operator=(const Wide& o)
    {
        v = o.v;
        return *this;
    }
    ~Wide()
    {
        --wide_alive;
    }
    friend bool operator==(const Wide& a, const Wide& b)
    {
        return a.v == b.v;
    }
    friend bool operator<(const Wide& a, const Wide& b)
    {
        return a.v < b.v;
    }
    friend bool operator>(const Wide& a, const Wide& b)
    {
        return a.v > b.v;
    }
};
struct WideVisit
{
    template <std::size_t N>
    std::int64_t operator()(const Wide<N>& x) const
    {
        return static_cast<std::int64_t>(N) * 1000 + x.v;
    }
    template <std::size_t N, std::size_t M>
    std::int64_t operator()(const Wide<N>& x, const Wide<M>& y) const
    {
        return (*this)(x) * 100000 + (*this)(y);
    }
};
template <typename I, typename V, std::size_t K>
void wide_store(V& a, int how, std::int64_t v)
{
    switch (how)
    {
    case 0: a = V(typename I::template Ix<K>{}, v); break;
    case 1: a = Wide<K>(v); break;
    case 2: a.template emplace<K>(v); break;
    case 3: a.template emplace<Wide<K>>(v); break;
    default: a = V(typename I::template Ty<Wide<K>>{}, v); break;
    }
}
template <typename I, typename V, std::size_t K>
void wide_look(const V& a, std::size_t ix, std::int64_t v)
{
    const bool here = ix == K;
    const auto p    = I::template get_if<K>(&a);
    VH_CHECK((p != nullptr) == here && (p == nullptr || p->v == v), "wide.get_if", "alternative %zu of a variant holding %zu", K, ix);
    const auto q = I::template get_if_type<Wide<K>>(&a);
    VH_CHECK(static_cast<const void*>(q) == static_cast<const void*>(p), "wide.get_if", "by type, alternative %zu of a variant holding %zu", K, ix);
    VH_CHECK(I::template holds<Wide<K>>(a) == here, "wide.holds", "alternative %zu of a variant holding %zu", K, ix);
    if (here)
    {
        VH_CHECK(&I::template get<K>(a) == p && &I::template get_type<Wide<K>>(a) == p, "wide.get", "alternative %zu", K);
    }
}
template <typename I, std::size_t... K>
void wide_round(Rng& rng, std::index_sequence<K...>)
{
    using V                                               = typename I::template V<Wide<K>...>;
    constexpr std::size_t N                               = sizeof...(K);
    static void (*const store[])(V&, int, std::int64_t)   = {&wide_store<I, V, K>...};
    static void (*const look[])(const V&, std::size_t, std::int64_t) = {&wide_look<I, V, K>...};
    {
        V            x[2] = {V(typename I::template Ix<0>{}, 1), V(typename I::template Ix<N - 1>{}, 2)};
        std::size_t  ix[2] = {0, N - 1};
        std::int64_t v[2]  = {1, 2};
        for (int n = 0; n < 8; ++n)
        {
            const std::size_t i   = rng.below(2);
            const std::size_t op  = rng.below(8);
            const std::size_t k   = rng.chance(1, 3) ? ix[1 - i] : rng.below(N);
            const auto        val = static_cast<std::int64_t>(rng.below(900));
            vh::op("wide %zu: %zu -> %zu", op, ix[i], k);
            vh::feel(op * 4096 + ix[i] * 64 + k);
            if (op < 5)
            {
                store[k](x[i], static_cast<int>(op), val);
                ix[i] = k;
                v[i]  = val;
            }
            else if (op == 5)
            {
                x[i]  = x[1 - i];
                ix[i] = ix[1 - i];
                v[i]  = v[1 - i];
            }
            else if (op == 6)
            {
                x[0].swap(x[1]);
                std::swap(ix[0], ix[1]);
                std::swap(v[0], v[1]);
            }
            else
            {
                V t(std::move(x[i]));
                x[i] = std::move(t);
            }
            for (int j = 0; j < 2; ++j)
            {
                VH_CHECK(x[j].index() == ix[j] && !x[j].valueless_by_exception(), "wide.index", "%zu, expected %zu", x[j].index(), ix[j]);
                for (std::size_t m = 0; m < N; ++m)
                {
                    look[m](x[j], ix[j], v[j]);
                }
                VH_CHECK(I::visit(WideVisit{}, static_cast<const V&>(x[j])) == static_cast<std::int64_t>(ix[j]) * 1000 + v[j], "wide.visit", "alternative %zu", ix[j]);
            }
            const auto both = I::visit(WideVisit{}, static_cast<const V&>(x[0]), static_cast<const V&>(x[1]));
            VH_CHECK(both == (static_cast<std::int64_t>(ix[0]) * 1000 + v[0]) * 100000 + static_cast<std::int64_t>(ix[1]) * 1000 + v[1], "wide.visit", "alternatives %zu and %zu", ix[0], ix[1]);
            const auto l = std::make_pair(ix[0], v[0]), r = std::make_pair(ix[1], v[1]);
            VH_CHECK((x[0] == x[1]) == (l == r) && (x[0] < x[1]) == (l < r) && (x[0] > x[1]) == (l > r), "wide.compare", "alternatives %zu and %zu", ix[0], ix[1]);
            VH_CHECK(wide_alive == 2, "wide.alive", "%lld values alive in two variants", static_cast<long long>(wide_alive));
        }
    }
    VH_CHECK(wide_alive == 0, "wide.alive", "%lld values alive", static_cast<long long>(wide_alive));
}
template <typename I>
void wide(Rng& rng)
{
    wide_round<I>(rng, std::make_index_sequence<14>{});
    vh::nontrivial();
}

static_assert(cetl::pf17::variant_size<cetl::pf17::variant<int, char, int>>::value == 3, "");
static_assert(cetl::pf17::variant_size_v<const cetl::pf17::variant<int>> == 1, "");
static_assert(std::is_same<cetl::pf17::variant_alternative_t<1, cetl::pf17::variant<int, char, long>>, char>::value, "");
static_assert(std::is_same<cetl::pf17::variant_alternative_t<2, const cetl::pf17::variant<int, char, long>>, const long>::value, "");

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("history", 100, history<Pf>);
#if VH_EXC
    vh::suite("faults", 50, faults<Pf>);
    vh::suite("valueless", 50, valueless<Pf>);
#endif
    vh::suite("compare", 50, compare<Pf>);
    vh::suite("conversions", 5, conversions<Pf>);
    vh::suite("forwarding", 5, forwarding<Pf>);
    vh::suite("traits", 2, traits<Pf>);
    vh::suite("operators", 20, operators<Pf>);
#if CFG == 8
    vh::suite("wide", 50, wide<Pf>);
#endif
#if __cplusplus >= 201703L
    vh::suite("known.reference_history", 100, history<Std>);
#    if VH_EXC
    vh::suite("known.reference_faults", 100, faults<Std>);
    vh::suite("known.reference_valueless", 100, valueless<Std>);
#    endif
    vh::suite("known.reference_compare", 100, compare<Std>);
    vh::suite("known.reference_forwarding", 100, forwarding<Std>);
    vh::suite("known.reference_traits", 100, traits<Std>);
    vh::suite("known.reference_operators", 100, operators<Std>);
#    if CFG == 8
    vh::suite("known.reference_wide", 50, wide<Std>);
#    endif
    vh::suite("known.reference_conversions", 100, conversions<Std>);
#endif
    return vh::finish();
}

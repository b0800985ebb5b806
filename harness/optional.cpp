// Monitors for cetl::pf17::optional (O01, O02, O03). -DELEM selects the value type.
#include "vh.hpp"
#include "vh_fwd.hpp"
#include <cetl/pf17/optional.hpp>
#if __cplusplus >= 201703L
#    include <optional>
#endif

using vh::Rng;
#ifndef ELEM
#    define ELEM 0
#endif

// ------------------------------------------------------------------------------------------------ value types
/// Trivially copyable.
struct Triv
{
    std::int64_t v;
    Triv(std::int64_t x = 0)
        : v(x)
    {
    }
    Triv(std::int64_t x, int add)
        : v(x + add)
    {
    }
};
/// Trivially destructible, everything else by hand.
struct TrivDtor
{
    std::int64_t v;
    TrivDtor(std::int64_t x = 0)
        : v(x)
    {
        vh::elem_tick();
    }
    TrivDtor(std::int64_t x, int add)
        : TrivDtor(x + add)
    {
    }
    TrivDtor(const TrivDtor& o)
        : v(o.v)
    {
        vh::elem_tick();
    }
    TrivDtor(TrivDtor&& o)
        : v(o.v)
    {
        vh::elem_tick();
        o.v = vh::MOVED;
    }
    TrivDtor& operator=(const TrivDtor& o)
    {
        vh::elem_tick();
        v = o.v;
        return *this;
    }
    TrivDtor& operator=(TrivDtor&& o)
    {
        vh::elem_tick();
        const auto x = o.v;
        o.v          = vh::MOVED;
        v            = x;
        return *this;
    }
};
/// Copies by hand, trivial moves, trivial destructor.
struct TrivMove
{
    std::int64_t v;
    TrivMove(std::int64_t x = 0)
        : v(x)
    {
    }
    TrivMove(std::int64_t x, int add)
        : v(x + add)
    {
    }
    TrivMove(const TrivMove& o)
        : v(o.v)
    {
        vh::elem_tick();
    }
    TrivMove(TrivMove&&) = default;
    TrivMove& operator=(const TrivMove& o)
    {
        vh::elem_tick();
        v = o.v;
        return *this;
    }
    TrivMove& operator=(TrivMove&&) = default;
};
struct Str
{
    std::string v;
    Str(std::int64_t x = 0)
        : v("some longer text to make it allocate " + std::to_string(x))
    {
    }
    Str(std::int64_t x, int add)
        : Str(x + add)
    {
    }
};
/// Hides its address.
struct Amp : vh::Elem<15, 3>
{
    using Elem::Elem;
    Amp*       operator&() { return nullptr; }
    const Amp* operator&() const { return nullptr; }
};

#if ELEM == 0
using T = vh::Elem<15>;
#elif ELEM == 1
using T = vh::Elem<11>;
#elif ELEM == 2
using T = vh::Elem<14>;
#elif ELEM == 3
using T = vh::Elem<10>;
#elif ELEM == 4
using T = vh::Elem<9>;
#elif ELEM == 5
using T = vh::Elem<79>;
#elif ELEM == 6
using T = vh::Elem<7>;
#elif ELEM == 7
using T = Triv;
#elif ELEM == 8
using T = TrivDtor;
#elif ELEM == 9
using T = TrivMove;
#elif ELEM == 10
using T = Str;
#elif ELEM == 11
using T = Amp;
#elif ELEM == 12
using T = vh::Elem<75>;
#elif ELEM == 13
using T = std::int64_t;
#endif
constexpr bool CC = std::is_copy_constructible<T>::value, CA = CC && std::is_copy_assignable<T>::value;
constexpr bool MC = std::is_move_constructible<T>::value, MA = MC && std::is_move_assignable<T>::value;
constexpr bool TRACKED = ELEM <= 6 || ELEM == 11 || ELEM == 12;
constexpr bool MARKS   = ELEM == 0 || ELEM == 1 || ELEM == 2 || ELEM == 3 || ELEM == 5 || ELEM == 6 || ELEM == 8 || ELEM == 11 || ELEM == 12;
using CCt = std::integral_constant<bool, CC>;
using CAt = std::integral_constant<bool, CA>;
using MCt = std::integral_constant<bool, MC>;
using MAt = std::integral_constant<bool, MA>;
using BAt = std::integral_constant<bool, CA && MA>;

template <typename X>
auto get(const X& x, int) -> decltype(static_cast<std::int64_t>(x.value()))
{
    return x.value();
}
template <typename X>
auto get(const X& x, long) -> decltype(static_cast<std::int64_t>(x.v))
{
    return x.v;
}
inline std::int64_t get(const Str& x, int)
{
    return x.v.empty() ? vh::MOVED : std::strtoll(x.v.c_str() + 37, nullptr, 10);
}
inline std::int64_t get(std::int64_t x, int)
{
    return x;
}
template <typename X>
std::int64_t val(const X& x)
{
    return get(x, 0);
}
/// The value of an object after it was moved from.
inline std::int64_t moved(std::int64_t v)
{
    return MARKS || ELEM == 10 ? vh::MOVED : v;
}

/// Another type the values can be made from and assigned from.
struct Src
{
    std::int64_t v;
    explicit Src(std::int64_t x)
        : v(x)
    {
    }
    operator T() const&
    {
        return T(v);
    }
    operator T() &&
    {
        const auto x = v;
        T          t(x);
        v = vh::MOVED;
        return t;
    }
};

// ------------------------------------------------------------------------------------------------ the two implementations
struct Pf
{
    template <typename X>
    using O                       = cetl::pf17::optional<X>;
    using Bad                     =
#if VH_EXC
        cetl::pf17::bad_optional_access;
#else
        int;
#endif
    using InPlace                 = cetl::pf17::in_place_t;
    using Null                    = cetl::pf17::nullopt_t;
    static Null null()
    {
        return cetl::pf17::nullopt;
    }
    template <typename X, typename... A>
    static O<X> make(A&&... a)
    {
        return cetl::pf17::make_optional<X>(std::forward<A>(a)...);
    }
    template <typename X, typename... A>
    static O<X> make(std::initializer_list<int> il, A&&... a)
    {
        return cetl::pf17::make_optional<X>(il, std::forward<A>(a)...);
    }
    template <typename X>
    static auto makev(X&& x)
    {
        return cetl::pf17::make_optional(std::forward<X>(x));
    }
};
#if __cplusplus >= 201703L
struct Std
{
    template <typename X>
    using O       = std::optional<X>;
    using Bad     = std::bad_optional_access;
    using InPlace = std::in_place_t;
    using Null    = std::nullopt_t;
    static Null null()
    {
        return std::nullopt;
    }
    template <typename X, typename... A>
    static O<X> make(A&&... a)
    {
        return std::make_optional<X>(std::forward<A>(a)...);
    }
    template <typename X, typename... A>
    static O<X> make(std::initializer_list<int> il, A&&... a)
    {
        return std::make_optional<X>(il, std::forward<A>(a)...);
    }
    template <typename X>
    static auto makev(X&& x)
    {
        return std::make_optional(std::forward<X>(x));
    }
};
#endif

struct Model
{
    bool         on  = false;
    std::int64_t val = 0;
};

template <typename I>
struct World
{
    using O                = typename I::template O<T>;
    using OS               = typename I::template O<Src>;
    static constexpr int N = 3;

    alignas(O) unsigned char raw[N][sizeof(O)];
    bool                     alive[N] = {};
    Model                    m[N];
    Rng&                     rng;
    std::uint64_t            elem_k = 0;
    bool                     fired  = false;
    std::size_t              locals = 0;

    explicit World(Rng& r)
        : rng(r)
    {
        std::memset(raw, 0xCD, sizeof raw);
    }
    ~World()
    {
        for (int i = 0; i < N; ++i)
        {
            if (alive[i])
            {
                destroy(i);
            }
        }
        vh::check_no_live("the end of the case");
    }
    O& o(int i)
    {
        return *reinterpret_cast<O*>(raw[i]);
    }
    void destroy(int i)
    {
        o(i).~O();
        alive[i] = false;
        std::memset(raw[i], 0xCD, sizeof raw[i]);
        m[i] = Model{};
    }
    template <typename F>
    bool guarded(F&& f)  // true if it threw
    {
        vh::Fault& fl     = vh::fault();
        const auto before = fl.fired;
        fl.elem_countdown = elem_k;
        bool threw        = false;
#if VH_EXC
        try
        {
            f();
        } catch (const vh::Injected&)
        {
            threw = true;
        }
#else
        f();
#endif
        fl.disarm();
        elem_k = 0;
        fired  = fl.fired != before;
        VH_CHECK(!VH_EXC || threw == fired, "failure-not-reported", "fired %d, threw %d", int(fired), int(threw));
        if (fired)
        {
            vh::count("faults");
            vh::nontrivial();
        }
        return threw;
    }

    // ---------------------------------------------------------------------------------- observation
    void check(int i)
    {
        O&       x  = o(i);
        const O& cx = x;
        VH_CHECK(x.has_value() == m[i].on, "optional.engaged", "optional %d, expected %d", i, int(m[i].on));
        VH_CHECK(static_cast<bool>(cx) == m[i].on, "optional.engaged", "optional %d, expected %d", i, int(m[i].on));
        VH_CHECK((x == I::null()) == !m[i].on && (I::null() != x) == m[i].on, "optional.null", "optional %d", i);
        if (m[i].on)
        {
            const auto v = val(*cx);
            VH_CHECK(v == m[i].val, "optional.value", "optional %d has %lld instead of %lld", i, static_cast<long long>(v), static_cast<long long>(m[i].val));
            const T* const p = std::addressof(*cx);
            const auto     a = reinterpret_cast<std::uintptr_t>(p), lo = reinterpret_cast<std::uintptr_t>(raw[i]);
            VH_CHECK(a >= lo && a + sizeof(T) <= lo + sizeof(O), "optional.place", "the value is not inside");
            VH_CHECK(std::addressof(*x) == p && (ELEM == 11 || (x.operator->() == p && cx.operator->() == p)), "optional.address", "access to another object");
            VH_CHECK(std::addressof(x.value()) == p && std::addressof(cx.value()) == p, "optional.address", "access to another object");
            T&&       r0 = *std::move(x);
            T&&       r1 = std::move(x).value();
            const T&& r2 = *std::move(cx);
            const T&& r3 = std::move(cx).value();
            VH_CHECK(std::addressof(r0) == p && std::addressof(r1) == p && std::addressof(r2) == p && std::addressof(r3) == p, "optional.address", "access to another object");
        }
#if VH_EXC
        else
        {
            int bad = 0;
            try
            {
                (void) x.value();
            } catch (const typename I::Bad&)
            {
                ++bad;
            }
            try
            {
                (void) cx.value();
            } catch (const std::exception&)
            {
                ++bad;
            }
            try
            {
                (void) std::move(x).value();
            } catch (const typename I::Bad&)
            {
                ++bad;
            }
            try
            {
                (void) std::move(cx).value();
            } catch (const typename I::Bad&)
            {
                ++bad;
            }
            VH_CHECK(bad == 4, "optional.bad-access", "access to an empty optional");
        }
#else
        else if (rng.chance(1, 4000))
        {
            VH_CHECK(vh::terminates([&] { (void) x.value(); }) && vh::terminates([&] { (void) std::move(cx).value(); }), "optional.bad-access", "access to an empty optional");
        }
#endif
    }
    void check_all()
    {
        std::size_t live = locals;
        for (int i = 0; i < N; ++i)
        {
            if (alive[i])
            {
                check(i);
                live += m[i].on ? 1 : 0;
            }
        }
        if (TRACKED)
        {
            VH_CHECK(vh::registry().live.size() == live, "lifetime.count", "%zu objects alive, %zu expected", vh::registry().live.size(), live);
        }
    }

    // ---------------------------------------------------------------------------------- operations
    void local(int d)
    {
        locals += TRACKED ? static_cast<std::size_t>(d) : 0;
    }
    void build(int i, bool threw, bool on, std::int64_t v, const char* what)
    {
        if (threw)
        {
            std::memset(raw[i], 0xCD, sizeof raw[i]);
        }
        else
        {
            alive[i] = true;
            m[i].on  = on;
            m[i].val = v;
        }
        vh::op("%s o%d %lld%s", what, i, static_cast<long long>(on ? v : -1), threw ? " THREW" : "");
    }
    void value_construct(int i, std::int64_t v, std::true_type)
    {
        const bool rv = !CC || rng.chance(1, 2);
        T          x(v);
        local(1);
        const bool threw = guarded([&] { from_value(i, x, rv, CCt{}); });
        build(i, threw, true, v, rv ? "construct from rvalue" : "construct from lvalue");
        source(x, v, rv, threw, "construct");
        check_all();
        local(-1);
    }
    void value_construct(int, std::int64_t, std::false_type) {}
    void from_value(int i, T& x, bool rv, std::true_type)
    {
        if (rv)
        {
            new (raw[i]) O(std::move(x));
        }
        else
        {
            new (raw[i]) O(static_cast<const T&>(x));
        }
    }
    void from_value(int i, T& x, bool, std::false_type)
    {
        new (raw[i]) O(std::move(x));
    }
    void source(const T& x, std::int64_t v, bool rv, bool threw, const char* what)
    {
        const auto now = val(x);
        VH_CHECK(now == (rv && !threw ? moved(v) : v), "optional.source", "%s: the source has %lld", what, static_cast<long long>(now));
    }
    void construct(int i, int j)
    {
        const auto v = rng.range(1, 900);
        switch (rng.below(9))
        {
        case 0:
            if (rng.chance(1, 2))
            {
                new (raw[i]) O();
            }
            else
            {
                new (raw[i]) O(I::null());
            }
            build(i, false, false, 0, "construct empty");
            break;
        case 1: {
            const bool threw = guarded([&] { new (raw[i]) O(typename I::InPlace{}, v); });
            build(i, threw, true, v, "construct in place");
            break;
        }
        case 2: {
            const bool threw = guarded([&] { two(i, v, std::is_arithmetic<T>{}); });
            build(i, threw, true, v, "construct in place of two");
            break;
        }
        case 3:
            value_construct(i, v, MCt{});
            break;
        case 4: {
            // conversion of a value
            const bool threw = guarded([&] { new (raw[i]) O(v); });
            build(i, threw, true, v, "construct by conversion");
            break;
        }
        case 5:
            from_other(i, v, MCt{});
            break;
        case 6:
            if (alive[j])
            {
                copy_construct(i, j, CCt{});
            }
            break;
        case 7:
            if (alive[j])
            {
                move_construct(i, j, MCt{});
            }
            break;
        default:
            made(i, v, MCt{});
        }
    }
    void two(int i, std::int64_t v, std::false_type)
    {
        new (raw[i]) O(typename I::InPlace{}, v - 5, 5);
    }
    void two(int i, std::int64_t v, std::true_type)
    {
        new (raw[i]) O(typename I::InPlace{}, v);
    }
    void made(int i, std::int64_t v, std::true_type)
    {
        const bool threw = guarded([&] { new (raw[i]) O(I::template make<T>(v)); });
        build(i, threw, true, v, "make_optional");
    }
    void made(int, std::int64_t, std::false_type) {}
    // from an optional of another type
    void from_other(int i, std::int64_t v, std::true_type)
    {
        const bool on = rng.chance(2, 3), rv = rng.chance(1, 2);
        OS         s;
        if (on)
        {
            s.emplace(v);
        }
        const bool threw = guarded([&] {
            if (rv)
            {
                new (raw[i]) O(std::move(s));
            }
            else
            {
                new (raw[i]) O(static_cast<const OS&>(s));
            }
        });
        build(i, threw, on, v, rv ? "convert rvalue optional" : "convert lvalue optional");
        other_source(s, on, v, rv, threw);
    }
    void from_other(int, std::int64_t, std::false_type) {}
    void other_source(const OS& s, bool on, std::int64_t v, bool rv, bool threw)
    {
        VH_CHECK(s.has_value() == on, "optional.source", "the source optional changed its engagement");
        if (on && !threw)
        {
            VH_CHECK(s->v == (rv ? vh::MOVED : v), "optional.source", "the source optional has %lld", static_cast<long long>(s->v));
        }
        vh::nontrivial();
    }
    void copy_construct(int i, int j, std::true_type)
    {
        const bool threw = guarded([&] { new (raw[i]) O(static_cast<const O&>(o(j))); });
        build(i, threw, m[j].on, m[j].val, "copy construct");
        vh::nontrivial();
    }
    void copy_construct(int, int, std::false_type) {}
    void move_construct(int i, int j, std::true_type)
    {
        const bool threw = guarded([&] { new (raw[i]) O(std::move(o(j))); });
        build(i, threw, m[j].on, m[j].val, "move construct");
        if (!threw && m[j].on)
        {
            m[j].val = moved(m[j].val);
        }
        vh::nontrivial();
    }
    void move_construct(int, int, std::false_type) {}

    /// Outcome of assigning (on, v) to optional i.
    void assigned(int i, bool on, std::int64_t v, bool threw, const char* what)
    {
        vh::op("%s o%d (%d) %lld%s", what, i, int(m[i].on), static_cast<long long>(on ? v : -1), threw ? " THREW" : "");
        vh::feel((m[i].on ? 1 : 0) + (on ? 2 : 0) + (threw ? 4 : 0));
        if (!threw)
        {
            m[i].on  = on;
            m[i].val = on ? v : 0;
        }
    }
    void assign_value(int i, std::int64_t v, bool rv, std::true_type)
    {
        T x(v);
        local(1);
        const bool threw = guarded([&] { assign(i, x, rv, CAt{}); });
        assigned(i, true, v, threw, rv ? "assign rvalue" : "assign lvalue");
        source(x, v, rv, threw, "assign");
        check_all();
        local(-1);
    }
    void assign_value(int, std::int64_t, bool, std::false_type) {}
    void assign(int i, T& x, bool rv, std::true_type)
    {
        if (rv)
        {
            o(i) = std::move(x);
        }
        else
        {
            o(i) = static_cast<const T&>(x);
        }
    }
    void assign(int i, T& x, bool, std::false_type)
    {
        o(i) = std::move(x);
    }
    void copy_assign(int i, int j, std::true_type)
    {
        const Model src   = m[j];
        const bool  threw = guarded([&] { o(i) = static_cast<const O&>(o(j)); });
        assigned(i, src.on, src.val, threw, i == j ? "self copy assign" : "copy assign");
        vh::nontrivial();
    }
    void copy_assign(int, int, std::false_type) {}
    void move_assign(int i, int j, std::true_type)
    {
        const Model src   = m[j];
        const bool  threw = guarded([&] { o(i) = std::move(o(j)); });
        assigned(i, src.on, src.val, threw, i == j ? "self move assign" : "move assign");
        if (i != j && !threw && src.on)
        {
            m[j].val = moved(src.val);
        }
        else if (i == j && src.on)
        {
            m[i].val = val(*o(i));  // whatever the value type does
        }
        vh::nontrivial();
    }
    void move_assign(int, int, std::false_type) {}
    void assign_other(int i, std::int64_t v, std::true_type)
    {
        const bool on = rng.chance(2, 3), rv = rng.chance(1, 2);
        OS         s;
        if (on)
        {
            s.emplace(v);
        }
        const bool threw = guarded([&] {
            if (rv)
            {
                o(i) = std::move(s);
            }
            else
            {
                o(i) = static_cast<const OS&>(s);
            }
        });
        assigned(i, on, v, threw, rv ? "assign rvalue of another optional" : "assign another optional");
        other_source(s, on, v, rv, threw);
    }
    void assign_other(int, std::int64_t, std::false_type) {}
    void emplace(int i, std::int64_t v)
    {
        const bool two_args = rng.chance(1, 2);
        T*         p        = nullptr;
        const bool threw    = guarded([&] { p = std::addressof(place(i, v, two_args, std::is_arithmetic<T>{})); });
        vh::op("emplace o%d (%d) %lld%s", i, int(m[i].on), static_cast<long long>(v), threw ? " THREW" : "");
        m[i].on  = !threw;
        m[i].val = v;
        VH_CHECK(threw || p == std::addressof(*o(i)), "optional.emplace-result", "another address came back");
    }
    T& place(int i, std::int64_t v, bool two_args, std::false_type)
    {
        return two_args ? o(i).emplace(v - 3, 3) : o(i).emplace(v);
    }
    T& place(int i, std::int64_t v, bool, std::true_type)
    {
        return o(i).emplace(v);
    }
    void swap(int i, int j, std::true_type)
    {
        const Model a = m[i], b = m[j];
        const bool  free_fn = rng.chance(1, 3);
        const bool  threw   = guarded([&] {
            using std::swap;
            if (free_fn)
            {
                swap(o(i), o(j));
            }
            else
            {
                o(i).swap(o(j));
            }
        });
        if (threw || i == j)
        {
            // both engaged: whatever swapping the values left behind; otherwise nothing has happened
            VH_CHECK(free_fn || (o(i).has_value() == a.on && o(j).has_value() == b.on), "optional.swap", "a failed swap changed the engagement");
            m[i].on = o(i).has_value();
            m[j].on = o(j).has_value();
            if (!free_fn && a.on != b.on)
            {
                VH_CHECK(val(*o(a.on ? i : j)) == (a.on ? a.val : b.val), "optional.swap", "a failed swap lost the value");
            }
            for (const int k : {i, j})
            {
                if (m[k].on)
                {
                    m[k].val     = val(*o(k));
                    const bool k0 = m[k].val == a.val || m[k].val == b.val || m[k].val == vh::MOVED;
                    VH_CHECK(k0, "optional.swap", "a failed swap made up the value %lld", static_cast<long long>(m[k].val));
                }
            }
        }
        else
        {
            m[i] = b;
            m[j] = a;
        }
        vh::op("%s o%d (%d) o%d (%d)%s", free_fn ? "std::swap" : "swap", i, int(a.on), j, int(b.on), threw ? " THREW" : "");
        vh::nontrivial();
    }
    void swap(int, int, std::false_type) {}
    void value_or(int i, std::int64_t v, std::true_type)
    {
        const bool rv = rng.chance(1, 2);
        const auto was = m[i];
        std::int64_t got = 0;
        const bool   threw = guarded([&] {
            const T x(rv ? std::move(o(i)).value_or(v) : static_cast<const O&>(o(i)).value_or(v));
            got = val(x);
        });
        if (!threw)
        {
            VH_CHECK(got == (was.on ? was.val : v), "optional.value_or", "%lld came back", static_cast<long long>(got));
        }
        if (rv && was.on)
        {
            const auto now = val(*o(i));
            VH_CHECK(now == moved(was.val) || (threw && now == was.val), "optional.value_or", "%lld stays", static_cast<long long>(now));
            m[i].val = now;
        }
        vh::op("value_or o%d (%d)%s", i, int(was.on), threw ? " THREW" : "");
    }
    void value_or(int, std::int64_t, std::false_type) {}
    void take(int i, std::true_type)
    {
        if (!m[i].on)
        {
            return;
        }
        const auto   was = m[i].val;
        std::int64_t got = 0;
        const bool   threw = guarded([&] {
            T x(rng.chance(1, 2) ? *std::move(o(i)) : std::move(o(i)).value());
            got = val(x);
        });
        VH_CHECK(threw || got == was, "optional.take", "%lld came out", static_cast<long long>(got));
        m[i].val = threw ? was : moved(was);
        vh::op("take o%d%s", i, threw ? " THREW" : "");
    }
    void take(int, std::false_type) {}

    void step()
    {
        const int i = static_cast<int>(rng.below(N));
        int       j = static_cast<int>(rng.below(N));
        fired       = false;
        if (!alive[i])
        {
            construct(i, j);
        }
        else
        {
            if (!alive[j])
            {
                j = i;
            }
            const auto v = rng.range(1, 900);
            switch (rng.below(16))
            {
            case 0:
                vh::op("destroy o%d (%d)", i, int(m[i].on));
                destroy(i);
                break;
            case 1:
            case 2:
                assign_value(i, v, !CA || rng.chance(1, 2), MAt{});
                break;
            case 3:
            case 4:
                copy_assign(i, j, CAt{});
                break;
            case 5:
            case 6:
                move_assign(i, j, MAt{});
                break;
            case 7:
            case 8:
                assign_other(i, v, MAt{});
                break;
            case 9:
            case 10:
                emplace(i, v);
                break;
            case 11:
                if (rng.chance(1, 2))
                {
                    o(i) = I::null();
                }
                else
                {
                    o(i).reset();
                }
                vh::op("reset o%d (%d)", i, int(m[i].on));
                m[i] = Model{};
                break;
            case 12:
            case 13:
                swap(i, j, MAt{});
                break;
            case 14:
                value_or(i, v, CCt{});
                break;
            default:
                take(i, MCt{});
            }
        }
        elem_k = 0;
        check_all();
        vh::feel(static_cast<std::uint64_t>(i) * 16 + static_cast<std::uint64_t>(j) * 4 + (alive[i] ? 2 : 0) + (m[i].on ? 1 : 0));
    }
};
template <typename I>
void history(Rng& rng)
{
    World<I>  w(rng);
    const int n = static_cast<int>(rng.range(6, 40));
    for (int k = 0; k < n; ++k)
    {
        w.step();
    }
}
template <typename I>
void faults(Rng& rng)
{
    const std::uint64_t seed = rng.next();
    const int           n    = static_cast<int>(rng.range(1, 10));
    const int           tail = static_cast<int>(rng.range(1, 6));
    for (std::uint64_t k = 1; k < 12; ++k)
    {
        Rng      r(seed);
        World<I> w(r);
        for (int s = 0; s < n; ++s)
        {
            w.step();
        }
        w.elem_k = k;
        w.step();
        const bool hit = w.fired;
        for (int s = 0; s < tail; ++s)
        {
            w.step();
        }
        vh::feel(k);
        if (!hit)
        {
            break;
        }
        vh::count("fault points");
    }
}

// ------------------------------------------------------------------------------------------------ comparisons
/// Six operators that answer from tables, so that none follows from another.
static VH_TLS bool        g_table[6][2][4][4];
static VH_TLS const char* g_last = "";
static VH_TLS int         g_lhs, g_rhs, g_calls;
static bool        ask(int op, int side, int a, int b)
{
    static const char* const names[] = {"==", "!=", "<", "<=", ">", ">="};
    g_last                           = names[op];
    g_lhs                            = a;
    g_rhs                            = b;
    ++g_calls;
    return g_table[op][side][a & 3][b & 3];
}
struct Ql;
struct Pl
{
    int k;
};
struct Ql
{
    int k;
};
#define ORDER(A, B, SIDE)                                                                                              \
    inline bool operator==(const A& a, const B& b) { return ask(0, SIDE, a.k, b.k); }                                  \
    inline bool operator!=(const A& a, const B& b) { return ask(1, SIDE, a.k, b.k); }                                  \
    inline bool operator<(const A& a, const B& b) { return ask(2, SIDE, a.k, b.k); }                                   \
    inline bool operator<=(const A& a, const B& b) { return ask(3, SIDE, a.k, b.k); }                                  \
    inline bool operator>(const A& a, const B& b) { return ask(4, SIDE, a.k, b.k); }                                   \
    inline bool operator>=(const A& a, const B& b) { return ask(5, SIDE, a.k, b.k); }
ORDER(Pl, Pl, 0)
ORDER(Pl, Ql, 1)
ORDER(Ql, Pl, 0)
#undef ORDER

/// What the standard says, given engagement and the operator of the values.
static bool judge(int op, bool l, bool r, bool of_values)
{
    if (l && r)
    {
        return of_values;
    }
    switch (op)
    {
    case 0:
        return l == r;
    case 1:
        return l != r;
    case 2:
        return r && !l;
    case 3:
        return !l;
    case 4:
        return l && !r;
    default:
        return !r;
    }
}
static void expect(int op, bool l, bool r, int a, int b, bool got, int side, const char* what)
{
    const bool want = judge(op, l, r, g_table[op][side][a & 3][b & 3]);
    VH_CHECK(got == want, "optional.compare", "%s, operator %d, engaged %d %d, gives %d", what, op, int(l), int(r), int(got));
    VH_CHECK((l && r) || g_calls == 0, "optional.compare-empty", "%s looked at the value of an empty optional", what);
    static const char* const names[] = {"==", "!=", "<", "<=", ">", ">="};
    if (l && r)
    {
        VH_CHECK(g_calls == 1 && std::strcmp(g_last, names[op]) == 0, "optional.compare-operator", "%s, operator %d used %s", what, op, g_last);
        VH_CHECK(g_lhs == a && g_rhs == b, "optional.compare-operands", "%s, operator %d compared the wrong way round", what, op);
    }
    g_calls = 0;
    vh::count("comparisons");
}
#define SIX(L, R, l, r, a, b, side, what)                                                                              \
    do                                                                                                                 \
    {                                                                                                                  \
        g_calls = 0;                                                                                                   \
        expect(0, l, r, a, b, (L) == (R), side, what);                                                                 \
        expect(1, l, r, a, b, (L) != (R), side, what);                                                                 \
        expect(2, l, r, a, b, (L) < (R), side, what);                                                                  \
        expect(3, l, r, a, b, (L) <= (R), side, what);                                                                 \
        expect(4, l, r, a, b, (L) > (R), side, what);                                                                  \
        expect(5, l, r, a, b, (L) >= (R), side, what);                                                                 \
    } while (0)
template <typename I>
void compare(Rng& rng)
{
    for (auto& t : g_table)
    {
        for (auto& s : t)
        {
            for (auto& r : s)
            {
                for (bool& x : r)
                {
                    x = rng.chance(1, 2);
                }
            }
        }
    }
    using OP = typename I::template O<Pl>;
    using OQ = typename I::template O<Ql>;
    const Pl va{static_cast<int>(rng.below(4))};
    const Pl vb{static_cast<int>(rng.below(4))};
    const Ql vc{static_cast<int>(rng.below(4))};
    const bool ea = rng.chance(2, 3), eb = rng.chance(2, 3), ec = rng.chance(2, 3);
    OP         a, b;
    OQ         c;
    if (ea)
    {
        a = va;
    }
    if (eb)
    {
        b = vb;
    }
    if (ec)
    {
        c = vc;
    }
    vh::op("compare %d %d %d", int(ea), int(eb), int(ec));
    SIX(a, b, ea, eb, va.k, vb.k, 0, "optional and optional");
    SIX(a, c, ea, ec, va.k, vc.k, 1, "optional and optional of another type");
    SIX(a, vb, ea, true, va.k, vb.k, 0, "optional and value");
    SIX(a, vc, ea, true, va.k, vc.k, 1, "optional and value of another type");
    SIX(va, b, true, eb, va.k, vb.k, 0, "value and optional");
    SIX(va, c, true, ec, va.k, vc.k, 1, "value and optional of another type");
    SIX(a, I::null(), ea, false, 0, 0, 0, "optional and null");
    SIX(I::null(), a, false, ea, 0, 0, 0, "null and optional");
    // partial order of floating point numbers
    const double                       ds[] = {0.0, -0.0, 1.0, -1.0, std::strtod("nan", nullptr), std::strtod("inf", nullptr)};
    const double                       x = rng.pick(ds), y = rng.pick(ds);
    const typename I::template O<double> ox(x), oy(y), oe;
    const bool                         six[] = {ox == oy, ox != oy, ox < oy, ox <= oy, ox > oy, ox >= oy};
    const bool                         want[] = {x == y, x != y, x < y, x <= y, x > y, x >= y};
    const bool                         byval[] = {ox == y, ox != y, ox < y, ox <= y, ox > y, ox >= y};
    const bool                         valby[] = {x == oy, x != oy, x < oy, x <= oy, x > oy, x >= oy};
    for (int k = 0; k < 6; ++k)
    {
        VH_CHECK(six[k] == want[k] && byval[k] == want[k] && valby[k] == want[k], "optional.compare-partial", "operator %d of %g and %g", k, x, y);
    }
    vh::feel(static_cast<std::uint64_t>(ea) + 2 * static_cast<std::uint64_t>(eb) + 4 * static_cast<std::uint64_t>(ec) +
             static_cast<std::uint64_t>(va.k * 64 + vb.k * 16 + vc.k * 256));
    for (int k = 0; k < 6; ++k)
    {
        vh::feel(static_cast<std::uint64_t>(g_table[k][0][va.k][vb.k]) * 2 + static_cast<std::uint64_t>(g_table[k][1][va.k][vc.k]));
    }
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ conversions between types
struct FromInt
{
    int  v;
    bool explicitly;
    FromInt(int x)
        : v(x)
        , explicitly(false)
    {
    }
    explicit FromInt(double x)
        : v(static_cast<int>(x))
        , explicitly(true)
    {
    }
};
template <typename I>
void conversions(Rng& rng)
{
    using std::string;
    const int                       n  = static_cast<int>(rng.below(100));
    const bool                      on = rng.chance(2, 3);
    typename I::template O<int>     oi;
    typename I::template O<const char*> os;
    if (on)
    {
        oi = n;
        os = "text";
    }
    typename I::template O<long>    ol = oi;
    typename I::template O<FromInt> of = oi;
    typename I::template O<string>  ot = os;
    VH_CHECK(ol.has_value() == on && of.has_value() == on && ot.has_value() == on, "optional.convert", "engagement after conversion");
    if (on)
    {
        VH_CHECK(*ol == n && of->v == n && !of->explicitly && *ot == "text", "optional.convert", "value after conversion");
    }
    typename I::template O<double>  od;
    typename I::template O<FromInt> oe(on ? typename I::template O<double>(n + 0.5) : od);
    VH_CHECK(oe.has_value() == on && (!on || (oe->v == n && oe->explicitly)), "optional.convert", "explicit conversion");
    // optional of optional
    typename I::template O<typename I::template O<int>> oo(oi);
    VH_CHECK(oo.has_value() && oo->has_value() == on, "optional.nested", "an optional of an optional");
    oo = typename I::template O<int>{};
    VH_CHECK(oo.has_value() && !oo->has_value(), "optional.nested", "an optional of an empty optional");
    oo = I::null();
    VH_CHECK(!oo.has_value(), "optional.nested", "an empty optional of an optional");
    // assignment of braces empties, or not
    oi = {};
    VH_CHECK(!oi.has_value(), "optional.braces", "assignment of empty braces");
    ol = n;
    ol = oi;
    VH_CHECK(!ol.has_value(), "optional.convert", "assignment of an empty optional of another type");
    typename I::template O<string> il(typename I::InPlace{}, {'a', 'b', 'c'});
    VH_CHECK(il.has_value() && *il == "abc" && il->size() == 3, "optional.list", "construction from a list");
    string& ref = il.emplace({'x', 'y'});
    VH_CHECK(&ref == &*il && ref == "xy", "optional.list", "emplacement of a list");
    VH_CHECK(I::template make<string>(std::initializer_list<char>{'p', 'q'}).value() == "pq", "optional.list", "make_optional of a list");
    typename I::template O<bool> ob(n % 2 == 0);
    VH_CHECK(*ob == (n % 2 == 0), "optional.bool", "an optional bool");
    typename I::template O<std::unique_ptr<int>> ou(std::unique_ptr<int>(new int(n)));
    auto                                         ov(std::move(ou));
    VH_CHECK(ou.has_value() && *ou == nullptr && **ov == n, "optional.move", "moved-from effects");
    vh::op("conversions %d %d", n, int(on));
    vh::feel(static_cast<std::uint64_t>(n * 2 + on));
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ value categories
template <typename I, typename S>
void forwarding_of(Rng& rng)
{
    using O  = typename I::template O<S>;
    using OA = typename I::template O<vfwd::Arg>;
    using P  = typename I::InPlace;
    using vfwd::expect;
    const bool before = rng.chance(1, 2);
    vfwd::pairs(rng, "in place", [](auto&& a, auto&& b, const std::string& c, int v) {
        const O o(P{}, std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
        expect(o.value(), "in place", "2" + c, v);
    });
    vfwd::pairs(rng, "emplace", [before](auto&& a, auto&& b, const std::string& c, int v) {
        O o;
        if (before)
        {
            o.emplace();
        }
        S& s = o.emplace(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
        VH_CHECK(o.has_value() && &s == &*o, "optional.emplace-result", "emplace");
        expect(s, "emplace", "2" + c, v);
    });
    vfwd::pairs(rng, "make_optional", [](auto&& a, auto&& b, const std::string& c, int v) {
        const O o = I::template make<S>(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
        expect(*o, "make_optional", __cplusplus >= 201703L ? "2" + c : o->str(), v);
        if (__cplusplus < 201703L)
        {
            VH_CHECK(o->str() == "2" + c || o->str() == "M", "forwarding", "make_optional: made by %s", o->str().c_str());
        }
    });
    vfwd::lists(rng, "list in place", [](std::initializer_list<int> il, auto&& a, const std::string& c, int v) {
        const O o(P{}, il, std::forward<decltype(a)>(a));
        expect(o.value(), "list in place", "i" + c, v);
    });
    vfwd::lists(rng, "emplace list", [before](std::initializer_list<int> il, auto&& a, const std::string& c, int v) {
        O o;
        if (before)
        {
            o.emplace();
        }
        S& s = o.emplace(il, std::forward<decltype(a)>(a));
        VH_CHECK(o.has_value() && &s == &*o, "optional.emplace-result", "emplace a list");
        expect(s, "emplace list", "i" + c, v);
    });
    vfwd::lists(rng, "make_optional list", [](std::initializer_list<int> il, auto&& a, const std::string& c, int v) {
        const O o = I::template make<S>(il, std::forward<decltype(a)>(a));
        VH_CHECK(o->str() == "i" + c || (__cplusplus < 201703L && o->str() == "M"), "forwarding", "make_optional list: made by %s", o->str().c_str());
        VH_CHECK(o->sum == v, "forwarding-value", "make_optional list");
    });
    vfwd::singles(rng, "from a value", [](auto&& a, const std::string& c, int v) {
        const O o(std::forward<decltype(a)>(a));
        expect(o.value(), "from a value", "1" + c, v);
    });
    vfwd::singles(rng, "assigned a value", [before](auto&& a, const std::string& c, int v) {
        O o;
        if (before)
        {
            o.emplace();
        }
        O& back = (o = std::forward<decltype(a)>(a));
        VH_CHECK(&back == &o && o.has_value(), "optional.assign-result", "assigning a value");
        expect(*o, "assigned a value", (before ? "=" : "1") + c, v);
    });
    vfwd::singles(rng, "value_or", [before](auto&& a, const std::string& c, int v) {
        (void) before;
        const O o;
        const S s(o.value_or(std::forward<decltype(a)>(a)));
        VH_CHECK(s.str() == "1" + c || s.str() == "M", "forwarding", "value_or: made by %s", s.str().c_str());
        VH_CHECK(s.sum == v, "forwarding-value", "value_or");
    });
    // from optionals of another type
    const int n = static_cast<int>(rng.below(100));
    for (const bool on : {false, true})
    {
        for (const char k : {'l', 'c', 'r', 'k'})
        {
            for (const char to : {'n', 'e', 'v'})
            {
                OA x;
                if (on)
                {
                    x.emplace(n);
                }
                const OA& cx   = x;
                const char got = k == 'r' ? 'r' : 'c';  // a non-const or const rvalue of optional<U> is taken as const optional<U>& unless it can be moved from
                O          t;
                if (to == 'v')
                {
                    t.emplace();
                }
                if (to == 'n')
                {
                    const O o(k == 'l' ? O(x) : k == 'c' ? O(cx) : k == 'r' ? O(std::move(x)) : O(std::move(cx)));
                    VH_CHECK(o.has_value() == on, "optional.convert", "engagement");
                    if (on)
                    {
                        VH_CHECK((o->str() == std::string{'1', got} || o->str() == "M"), "forwarding", "from another optional: made by %s", o->str().c_str());
                        VH_CHECK(o->sum == n, "forwarding-value", "from another optional");
                    }
                }
                else
                {
                    switch (k)
                    {
                    case 'l':
                        t = x;
                        break;
                    case 'c':
                        t = cx;
                        break;
                    case 'r':
                        t = std::move(x);
                        break;
                    default:
                        t = std::move(cx);
                    }
                    VH_CHECK(t.has_value() == on, "optional.convert", "engagement");
                    if (on)
                    {
                        expect(*t, "assigned another optional", std::string{to == 'v' ? '=' : '1', got}, n);
                    }
                }
                VH_CHECK(x.has_value() == on, "optional.convert", "the source lost its engagement");
                if (on)
                {
                    vfwd::intact(*x, got, "another optional");
                }
                vh::feel(static_cast<std::uint64_t>(on) + static_cast<std::uint64_t>(k) * 2 + static_cast<std::uint64_t>(to) * 512);
            }
        }
    }
    // copies and moves of whole values
    {
        O    o(P{}, vfwd::Arg(n));
        O    copied(static_cast<const O&>(o));
        expect(*copied, "copied", "C", n);
        O assigned;
        assigned = static_cast<const O&>(o);
        expect(*assigned, "assigned to an empty one", "C", n);
        assigned = static_cast<const O&>(o);
        expect(*assigned, "assigned", "=C", n);
        expect(*o, "source of copies", "1r", n);
        S    plain((vfwd::Arg(n)));
        auto made = I::makev(static_cast<const S&>(plain));
        static_assert(std::is_same<decltype(made), O>::value, "");
        VH_CHECK(made->sum == n && plain.sum == n, "forwarding-value", "make_optional of an lvalue");
        auto made2 = I::makev(std::move(plain));
        VH_CHECK(made2->sum == n && plain.sum == -1 && made2->str() == "M", "forwarding", "make_optional of an rvalue: made by %s", made2->str().c_str());
        expect(static_cast<const O&>(o).value_or(vfwd::Arg(1)), "value_or", "C", n);
        const S taken(std::move(o).value_or(vfwd::Arg(1)));
        expect(taken, "value_or of an rvalue", "M", n);
        VH_CHECK(o->sum == -1, "forwarding", "value_or of an rvalue leaves the value");
        O moved(std::move(copied));
        expect(*moved, "moved", "M", n);
        VH_CHECK(copied.has_value() && copied->sum == -1, "forwarding", "move leaves the value");
        O target;
        target = std::move(moved);
        expect(*target, "move assigned to an empty one", "M", n);
        target = std::move(assigned);
        expect(*target, "move assigned", "=M", n);
        S direct(*std::move(target));
        expect(direct, "taken", "M", n);
    }
    vh::op("forwarding %d %d", int(before), n);
}
template <typename I>
void forwarding(Rng& rng)
{
    forwarding_of<I, vfwd::Sink<vfwd::NoDtor>>(rng);
    forwarding_of<I, vfwd::Sink<vfwd::WithDtor>>(rng);
}

// ------------------------------------------------------------------------------------------------ what is offered, and with what guarantees
#define SAME(TRAIT, WANT)                                                                                              \
    VH_CHECK((TRAIT) == (WANT), "optional.offers", "%s is %d for %s", #TRAIT, int(TRAIT), __PRETTY_FUNCTION__)
template <typename I, typename T>
void offers()
{
    using O = typename I::template O<T>;
    constexpr bool cc = std::is_copy_constructible<T>::value, mc = std::is_move_constructible<T>::value;
    constexpr bool ca = std::is_copy_assignable<T>::value, ma = std::is_move_assignable<T>::value;
    SAME(std::is_default_constructible<O>::value, true);
    SAME(std::is_copy_constructible<O>::value, cc);
    SAME(std::is_move_constructible<O>::value, mc);
    SAME(std::is_copy_assignable<O>::value, cc && ca);
    SAME(std::is_move_assignable<O>::value, (mc && ma) || (cc && ca));
    SAME(std::is_trivially_destructible<O>::value, std::is_trivially_destructible<T>::value);
    SAME(std::is_nothrow_default_constructible<O>::value, true);
    if (mc)
    {
        SAME(std::is_nothrow_move_constructible<O>::value, std::is_nothrow_move_constructible<T>::value);
    }
    if (mc && ma)
    {
        const bool nothrow = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;
        SAME(std::is_nothrow_move_assignable<O>::value, nothrow);
    }
    vh::count("offers");
}
template <typename I, typename T, typename U>
void converts()
{
    using O  = typename I::template O<T>;
    using OU = typename I::template O<U>;
    constexpr bool c = std::is_constructible<T, const U&>::value, r = std::is_constructible<T, U&&>::value;
    constexpr bool ic = std::is_convertible<const U&, T>::value, ir = std::is_convertible<U&&, T>::value;
    SAME((std::is_constructible<O, const U&>::value), c);
    SAME((std::is_constructible<O, U&&>::value), r);
    SAME((std::is_convertible<const U&, O>::value), ic);
    SAME((std::is_convertible<U&&, O>::value), ir);
    SAME((std::is_constructible<O, const OU&>::value), c);
    SAME((std::is_constructible<O, OU&&>::value), r || c);
    SAME((std::is_convertible<const OU&, O>::value), ic);
    SAME((std::is_convertible<OU&&, O>::value), (r && c) ? ir : ir || ic);
    constexpr bool ac = c && std::is_assignable<T&, const U&>::value;
    SAME((std::is_assignable<O&, const U&>::value), ac || ic);
    SAME((std::is_assignable<O&, const OU&>::value), ac || ic);
    vh::count("conversions");
}
template <typename F, typename A, typename B>
void apply(const A& a, const B& b, bool want, std::true_type)
{
    VH_CHECK(F{}(a, b) == want, "optional.compare", "a value with only one operator");
}
template <typename F, typename A, typename B>
void apply(const A&, const B&, bool, std::false_type)
{
    vh::fail("optional.no-compare", "an operator of the value is not offered: %s", __PRETTY_FUNCTION__);
}
template <typename I, int Op, typename F>
void one_operator(Rng& rng)
{
    using T = vfwd::OneOp<Op>;
    using O = typename I::template O<T>;
    const T    x{static_cast<int>(rng.below(3))}, y{static_cast<int>(rng.below(3))};
    const bool l = rng.chance(2, 3), r = rng.chance(2, 3);
    O          a, b;
    if (l)
    {
        a.emplace(x);
    }
    if (r)
    {
        b.emplace(y);
    }
    const bool both = F{}(x.k, y.k);
    apply<F>(a, b, judge(Op, l, r, both), vfwd::Applies<F, O, O>{});
    apply<F>(a, y, judge(Op, l, true, both), vfwd::Applies<F, O, T>{});
    apply<F>(x, b, judge(Op, true, r, both), vfwd::Applies<F, T, O>{});
    vh::op("operator %d %d %d", Op, int(l), int(r));
    vh::feel(static_cast<std::uint64_t>(Op * 64 + l * 32 + r * 16 + x.k * 4 + y.k));
}
template <typename I>
void operators(Rng& rng)
{
    one_operator<I, 0, vfwd::Eq>(rng);
    one_operator<I, 1, vfwd::Ne>(rng);
    one_operator<I, 2, vfwd::Lt>(rng);
    one_operator<I, 3, vfwd::Le>(rng);
    one_operator<I, 4, vfwd::Gt>(rng);
    one_operator<I, 5, vfwd::Ge>(rng);
    vh::nontrivial();
}
/// A failure reaches the caller when only the other operation promises not to fail.
template <typename I, typename T>
void mixed(Rng& rng)
{
#if VH_EXC
    using O          = typename I::template O<T>;
    const bool on    = rng.chance(1, 2), move = rng.chance(1, 2);
    const bool fails = on ? (move ? !std::is_nothrow_move_assignable<T>::value : !std::is_nothrow_copy_assignable<T>::value)
                          : (move ? !std::is_nothrow_move_constructible<T>::value : !std::is_nothrow_copy_constructible<T>::value);
    O to, from(typename I::InPlace{}, 7);
    if (on)
    {
        to.emplace(3);
    }
    vfwd::explode_now() = fails;
    bool threw          = false;
    try
    {
        if (move)
        {
            to = std::move(from);
        }
        else
        {
            to = static_cast<const O&>(from);
        }
    } catch (int)
    {
        threw = true;
    }
    vfwd::explode_now() = false;
    VH_CHECK(threw == fails, "optional.failure-lost", "the failure did not reach the caller");
    VH_CHECK(to.has_value() == (on || !fails) && (!to.has_value() || to->v == (fails ? 3 : 7)), "optional.failure-state", "after the failure");
    vh::feel(static_cast<std::uint64_t>(on * 4 + move * 2 + fails));
#else
    (void) rng;
#endif
}
template <typename I>
void traits(Rng& rng)
{
    offers<I, int>();
    offers<I, std::string>();
    offers<I, std::unique_ptr<int>>();
    offers<I, vfwd::Fixed>();
    offers<I, vfwd::MoveOnly>();
    offers<I, vfwd::NoAssign>();
    offers<I, vfwd::NoMoveAssign>();
    offers<I, vfwd::CopyAssignOnly>();
    offers<I, vfwd::MoveAssignOnly>();
    offers<I, vfwd::Special<1, 1, 1, 1>>();
    offers<I, vfwd::Special<2, 2, 2, 2>>();
    offers<I, vfwd::Special<1, 1, 2, 2>>();
    offers<I, vfwd::Special<2, 2, 1, 1>>();
    offers<I, vfwd::Special<1, 2, 1, 2>>();
    offers<I, vfwd::Special<1, 1, 1, 2>>();
    offers<I, vfwd::Special<1, 2, 1, 1>>();
    offers<I, vh::Elem<15, 9>>();
    offers<I, vh::Elem<11, 9>>();
    offers<I, const char*>();
    converts<I, long, int>();
    converts<I, FromInt, int>();
    converts<I, FromInt, double>();
    converts<I, std::string, const char*>();
    converts<I, int, std::string>();
    converts<I, std::unique_ptr<const int>, std::unique_ptr<int>>();
    converts<I, std::vector<int>, std::size_t>();
    converts<I, vfwd::Sink<vfwd::NoDtor>, vfwd::Arg>();
    converts<I, vfwd::Arg, int>();
    mixed<I, vfwd::Special<1, 1, 2, 2>>(rng);
    mixed<I, vfwd::Special<2, 2, 1, 1>>(rng);
    mixed<I, vfwd::Special<1, 2, 2, 1>>(rng);
    mixed<I, vfwd::Special<2, 1, 1, 2>>(rng);
    vh::op("traits");
    vh::nontrivial();
}
#undef SAME

/// The arrow of an optional whose value overloads the address operator.
static void hidden_address(Rng&)
{
    vh::nontrivial();
    {
        cetl::pf17::optional<Amp> x(cetl::pf17::in_place_t{}, 7);
        VH_CHECK(x.operator->() == std::addressof(*x), "optional.arrow-overloaded-address", "the arrow does not lead to the value");
    }
    vh::check_no_live("the end of the case");
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("history", 100, history<Pf>);
#if VH_EXC
    vh::suite("faults", 50, faults<Pf>);
#endif
    vh::suite("compare", 50, compare<Pf>);
    vh::suite("conversions", 5, conversions<Pf>);
    vh::suite("forwarding", 5, forwarding<Pf>);
    vh::suite("traits", 2, traits<Pf>);
    vh::suite("operators", 20, operators<Pf>);
    vh::suite("known.hidden_address", 1, hidden_address);
#if __cplusplus >= 201703L
    vh::suite("known.reference_history", 100, history<Std>);
#    if VH_EXC
    vh::suite("known.reference_faults", 100, faults<Std>);
#    endif
    vh::suite("known.reference_compare", 100, compare<Std>);
    vh::suite("known.reference_forwarding", 100, forwarding<Std>);
    vh::suite("known.reference_traits", 100, traits<Std>);
    vh::suite("known.reference_operators", 100, operators<Std>);
    vh::suite("known.reference_conversions", 100, conversions<Std>);
#endif
    return vh::finish();
}

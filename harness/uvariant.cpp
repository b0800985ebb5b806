// Monitors for cetl::unbounded_variant (U01, U02, U03): histories over four variants of one configuration.
// -DCFG=0: in-place storage, 1: dynamic memory only, 2: both (with a resource that reports failure by null).
#include "vh.hpp"
#include "vh_fwd.hpp"
#include "vh_mr.hpp"
#include <cetl/unbounded_variant.hpp>
#include <initializer_list>

#ifndef CFG
#    define CFG 0
#endif

using vh::Rng;

// ------------------------------------------------------------------------------------------------ value types
/// N bytes without any padding, registered while alive.
template <int N>
class Blob
{
public:
    explicit Blob(std::int64_t v)
    {
        vh::elem_tick();
        birth(static_cast<unsigned char>(v));
    }
    Blob(std::int64_t v, int add)
        : Blob(v + add)
    {
    }
    Blob(const Blob& o)
    {
        vh::elem_tick();
        birth(o.get());
    }
    Blob(Blob&& o) noexcept
    {
        birth(o.get());
        o.put(238);
    }
    Blob& operator=(const Blob& o)
    {
        vh::elem_tick();
        put(o.get());
        return *this;
    }
    Blob& operator=(Blob&& o) noexcept
    {
        const auto v = o.get();
        o.put(238);
        put(v);
        return *this;
    }
    ~Blob()
    {
        (void) get();
        vh::registry().live.erase(this);
        std::memset(b, 0xDD, N);
    }
    std::int64_t value() const
    {
        return get();
    }
    void set(std::int64_t v)
    {
        (void) get();
        put(static_cast<unsigned char>(v));
    }

private:
    void birth(unsigned char v)
    {
        if (!vh::registry().live.insert({this, 100000 + N}).second)
        {
            vh::fail("lifetime.double-construct", "object constructed over a live object");
        }
        ++vh::registry().born;
        put(v);
    }
    void put(unsigned char v)
    {
        std::memset(b, v, N);
    }
    unsigned char get() const
    {
        const auto it = vh::registry().live.find(this);
        if (it == vh::registry().live.end() || it->second != 100000 + N)
        {
            vh::fail("lifetime.dead-object", "use of an object of %d bytes that is not alive", N);
        }
        for (int i = 1; i < N; ++i)
        {
            if (b[i] != b[0])
            {
                vh::fail("lifetime.corrupt-object", "object of %d bytes overwritten at byte %d", N, i);
            }
        }
        return b[0];
    }
    unsigned char b[N];
};
/// Built from a list.
class Lst : public vh::Elem<15, 9>
{
public:
    using Elem::Elem;
    Lst(std::initializer_list<int> l, int x)
        : Elem(sum(l) + x)
    {
    }
    Lst(std::initializer_list<int> l)
        : Elem(sum(l))
    {
    }

private:
    static std::int64_t sum(std::initializer_list<int> l)
    {
        std::int64_t s = 0;
        for (int i : l)
        {
            s += i;
        }
        return s;
    }
};

// Type identifiers that differ in single bytes only.
#define TYPE_ID(T, ...)                                                                                                \
    namespace cetl                                                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    constexpr type_id type_id_getter<T>() noexcept                                                                     \
    {                                                                                                                  \
        return {{__VA_ARGS__}};                                                                                        \
    }                                                                                                                  \
    }
using Snk = vfwd::Sink<vfwd::WithDtor, true>;
using E15 = vh::Elem<15, 1>;
using E79 = vh::Elem<79, 2>;
using E47 = vh::Elem<47, 3>;
using E14 = vh::Elem<14, 4>;
using E11 = vh::Elem<11, 5>;
using E9  = vh::Elem<9, 6>;
using E31 = vh::Elem<31, 7>;
using E7  = vh::Elem<7, 8>;
TYPE_ID(std::int64_t, 1)
TYPE_ID(char, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1)
TYPE_ID(E15, 1, 1)
TYPE_ID(E79, 1, 2)
TYPE_ID(E47, 2, 1)
TYPE_ID(E14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2)
TYPE_ID(E11, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1)
TYPE_ID(E9, 0, 0, 0, 0, 0, 0, 0, 1)
TYPE_ID(E31, 0, 0, 0, 0, 0, 0, 0, 0, 1)
TYPE_ID(E7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1)
TYPE_ID(Blob<1>, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255)
TYPE_ID(Blob<15>, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254)
TYPE_ID(Blob<16>, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255)
TYPE_ID(Blob<17>, 255, 255, 255, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255)
TYPE_ID(Blob<32>, 255, 255, 255, 255, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255)
TYPE_ID(Blob<33>, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255)
TYPE_ID(Lst, 7)
TYPE_ID(Snk, 9, 9, 9)

template <typename T>
struct Tag
{
    using type = T;
};
template <typename T, typename = void>
struct Access
{
    static std::int64_t get(const T& t)
    {
        return t.value();
    }
    static void set(T& t, std::int64_t v)
    {
        t.set(v);
    }
    static std::int64_t moved(std::int64_t)
    {
        return vh::MOVED;
    }
};
template <int N>
struct Access<Blob<N>>
{
    static std::int64_t get(const Blob<N>& t)
    {
        return t.value();
    }
    static void set(Blob<N>& t, std::int64_t v)
    {
        t.set(v);
    }
    static std::int64_t moved(std::int64_t)
    {
        return 238;
    }
};
template <>
struct Access<E9>
{
    static std::int64_t get(const E9& t)
    {
        return t.value();
    }
    static void set(E9& t, std::int64_t v)
    {
        t.set(v);
    }
    static std::int64_t moved(std::int64_t v)
    {
        return v;
    }
};
template <typename T>
struct Access<T, std::enable_if_t<std::is_arithmetic<T>::value>>
{
    static std::int64_t get(const T& t)
    {
        return static_cast<std::int64_t>(static_cast<unsigned char>(t));
    }
    static void set(T& t, std::int64_t v)
    {
        t = static_cast<T>(v);
    }
    static std::int64_t moved(std::int64_t v)
    {
        return v;
    }
};
template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
T fresh(std::int64_t v)
{
    return static_cast<T>(v);
}

template <typename... Ts>
struct List
{};
using All = List<std::int64_t, char, E15, E79, E47, E14, E11, E9, E31, E7, Blob<1>, Blob<15>, Blob<16>, Blob<17>, Blob<32>,
                 Blob<33>, Lst>;
constexpr int NT = 17;

// ------------------------------------------------------------------------------------------------ configurations
/// A resource which reports failure by a null pointer in every build.
class NullRes
{
public:
    vh::Heap heap;
    void*    allocate(std::size_t n, std::size_t a)
    {
        return heap.get(n, a);
    }
    void deallocate(void* p, std::size_t n, std::size_t a)
    {
        heap.put(p, n, a);
    }
};

template <std::size_t F, bool C, bool M, std::size_t A, typename P>
struct Cfg
{
    using V                         = cetl::unbounded_variant<F, C, M, A, P>;
    using Pmr                       = P;
    static constexpr std::size_t FP = F;
    static constexpr std::size_t AL = A;
    static constexpr bool        CP = C;
    static constexpr bool        MV = M;
    static constexpr bool        PM = !std::is_void<P>::value;
};
template <typename C, typename T>
struct Enabled
    : std::integral_constant<bool,
                             (!C::CP || std::is_copy_constructible<T>::value) && (!C::MV || std::is_move_constructible<T>::value) &&
                                 alignof(T) <= C::AL && (C::PM || sizeof(T) <= C::FP)>
{};

struct Res
{
    using type = vh::MemRes;
    static void* base(vh::MemRes& r)
    {
        return &r;
    }
};

enum State
{
    EMPTY,
    HELD,
    VALUELESS,
};
struct Model
{
    State        st   = EMPTY;
    int          type = -1;
    std::int64_t val  = 0;
    int          res  = 0;
};

template <typename P>
struct Pool  // resources of a PMR-enabled configuration
{
    using R = std::conditional_t<std::is_same<P, NullRes>::value, NullRes, vh::MemRes>;
    R    r[3];
    P*   get(int i)
    {
        return &r[i];
    }
    vh::Heap& heap(int i)
    {
        return r[i].heap;
    }
};
template <>
struct Pool<void>
{
    vh::Heap h;
    vh::Heap& heap(int)
    {
        return h;
    }
};

template <typename C>
struct World
{
    using V               = typename C::V;
    static constexpr int N = 4;
    Pool<typename C::Pmr>                          pool;
    alignas(V) unsigned char                       raw[N][sizeof(V)];
    bool                                           alive[N] = {};
    Model                                          m[N];
    Rng&                                           rng;
    // fault to inject in the next guarded operation
    std::uint64_t elem_k = 0, alloc_k = 0;
    bool          sticky = false;
    bool          fired  = false;  // the guarded operation failed (injected, or out of memory)
    bool          deep   = false;
    std::size_t   locals = 0;

    explicit World(Rng& r)
        : rng(r)
    {
        std::memset(raw, 0xCD, sizeof raw);
        for (int i = 0; i < 3; ++i)
        {
            pool.heap(i).id = i;
        }
    }
    ~World()
    {
        for (int i = 0; i < N; ++i)
        {
            if (alive[i])
            {
                destroy(i);
            }
        }
        for (int i = 0; i < 3; ++i)
        {
            pool.heap(i).check_empty("the end of the case");
        }
        vh::check_no_live("the end of the case");
    }
    V& v(int i)
    {
        return *reinterpret_cast<V*>(raw[i]);
    }

    // ---------------------------------------------------------------------------------- guarded execution
    /// Runs `f` with the pending fault; 0 if it came back, 1 if an element failed, 2 if memory failed.
    template <typename F>
    int guarded(bool elem_ok, F&& f)
    {
        vh::Fault& fl         = vh::fault();
        const auto before     = fl.fired;
        std::uint64_t failed0 = 0;
        for (int i = 0; i < 3; ++i)
        {
            failed0 += pool.heap(i).n_failed;
        }
        fl.elem_countdown  = elem_ok ? elem_k : 0;
        fl.alloc_countdown = alloc_k;
        fl.sticky_alloc    = sticky;
        int r              = 0;
#if VH_EXC
        try
        {
            f();
        } catch (const vh::Injected&)
        {
            r = 1;
        } catch (const std::bad_alloc&)
        {
            r = 2;
        }
#else
        f();
#endif
        fl.disarm();
        elem_k = alloc_k        = 0;
        std::uint64_t failed1   = 0;
        for (int i = 0; i < 3; ++i)
        {
            failed1 += pool.heap(i).n_failed;
        }
        fired = fl.fired != before || failed1 != failed0;
#if VH_EXC
        VH_CHECK((r != 0) == fired, "failure-not-reported", "fired %d but the operation ended with %d", int(fired), r);
#endif
        if (fired)
        {
            vh::count("faults");
            vh::nontrivial();
        }
        return r;
    }

    // ---------------------------------------------------------------------------------- type dispatch
    template <typename F>
    bool dispatch(int, int, F&, List<>)
    {
        return false;
    }
    template <typename F, typename T, typename... Ts>
    bool dispatch(int i, int at, F& f, List<T, Ts...>)
    {
        if (i == at)
        {
            return apply(f, Tag<T>{}, Enabled<C, T>{});
        }
        return dispatch(i, at + 1, f, List<Ts...>{});
    }
    template <typename F, typename T>
    bool apply(F& f, Tag<T> t, std::true_type)
    {
        f(t);
        return true;
    }
    template <typename F, typename T>
    bool apply(F&, Tag<T>, std::false_type)
    {
        return false;
    }
    /// Calls f(Tag<T>) for the type of this number if the configuration can hold it.
    template <typename F>
    bool with(int type, F&& f)
    {
        return dispatch(type, 0, f, All{});
    }

    // ---------------------------------------------------------------------------------- observation
    int res_of(std::true_type, int i)
    {
        auto* const p = v(i).get_memory_resource();
        for (int k = 0; k < 3; ++k)
        {
            if (pool.get(k) == p)
            {
                return k;
            }
        }
        vh::fail("variant.resource", "variant %d names an unknown memory resource", i);
    }
    int res_of(std::false_type, int)
    {
        return 0;
    }
    int res_of(int i)
    {
        return res_of(std::integral_constant<bool, C::PM>{}, i);
    }
    struct PeekValue
    {
        const V*      v;
        std::int64_t* out;
        bool*         ok;
        template <typename T>
        void operator()(Tag<T>)
        {
            const T* const p = cetl::get_if<T>(v);
            *ok              = p != nullptr;
            if (p != nullptr)
            {
                *out = Access<T>::get(*p);
            }
        }
    };
    bool matches(int i, const Model& x)
    {
        if (v(i).has_value() != (x.st == HELD) || v(i).valueless_by_exception() != (x.st == VALUELESS) || res_of(i) != x.res)
        {
            return false;
        }
        if (x.st != HELD)
        {
            return true;
        }
        std::int64_t val = 0;
        bool         ok  = false;
        with(x.type, PeekValue{&v(i), &val, &ok});
        return ok && val == x.val;
    }
    /// The variant must be in one of these states; the model follows.
    void settle(int i, const std::vector<Model>& candidates, const char* key)
    {
        for (const Model& c : candidates)
        {
            if (matches(i, c))
            {
                m[i] = c;
                return;
            }
        }
        vh::fail(key,
                 "variant %d is in none of the %zu permitted states (has_value %d, valueless %d, size %zu)",
                 i,
                 candidates.size(),
                 int(v(i).has_value()),
                 int(v(i).valueless_by_exception()),
                 v(i).type_size());
    }

    struct CheckType
    {
        World* w;
        int    i;
        int    type;
        template <typename T>
        void operator()(Tag<T>)
        {
            V&           v    = w->v(i);
            const V&     cv   = v;
            const Model& m    = w->m[i];
            const bool   want = m.st == HELD && m.type == type;
            T* const     p    = cetl::get_if<T>(&v);
            VH_CHECK((p != nullptr) == want, "variant.get_if", "variant %d, type %d", i, type);
            const T* const q = cetl::get_if<T>(&cv);
            VH_CHECK(q == p, "variant.get_if-const", "variant %d, type %d", i, type);
            VH_CHECK(cetl::get_if<const T>(&v) == p && cetl::get_if<const T>(&cv) == p, "variant.get_if-const", "variant %d", i);
            VH_CHECK(cetl::get_if<T>(static_cast<V*>(nullptr)) == nullptr, "variant.get_if-null", "type %d", type);
            VH_CHECK(cetl::get_if<T>(static_cast<const V*>(nullptr)) == nullptr, "variant.get_if-null", "type %d", type);
            if (want)
            {
                VH_CHECK(v.type_size() == sizeof(T), "variant.type_size", "%zu instead of %zu", v.type_size(), sizeof(T));
                VH_CHECK(v.type_id() == cetl::type_id_value<T>, "variant.type_id", "variant %d", i);
                VH_CHECK(std::addressof(cetl::get<T&>(v)) == p, "variant.get", "variant %d", i);
                VH_CHECK(std::addressof(cetl::get<const T&>(v)) == p, "variant.get", "variant %d", i);
                VH_CHECK(std::addressof(cetl::get<const T&>(cv)) == p, "variant.get", "variant %d", i);
                T&& rr = cetl::get<T&&>(std::move(v));
                VH_CHECK(std::addressof(rr) == p, "variant.get", "variant %d", i);
                VH_CHECK(Access<T>::get(*p) == m.val,
                         "variant.value",
                         "variant %d holds %lld instead of %lld",
                         i,
                         static_cast<long long>(Access<T>::get(*p)),
                         static_cast<long long>(m.val));
                const auto a = reinterpret_cast<std::uintptr_t>(p);
                VH_CHECK(a % C::AL == 0, "variant.alignment", "value at %p, alignment %zu", static_cast<void*>(p), C::AL);
                const auto lo       = reinterpret_cast<std::uintptr_t>(&v);
                const bool in_place = a >= lo && a + sizeof(T) <= lo + sizeof(V);
                if (sizeof(T) <= C::FP)
                {
                    VH_CHECK(in_place, "variant.not-in-place", "a value of %zu bytes is not in place", sizeof(T));
                }
                else
                {
                    VH_CHECK(w->pool.heap(m.res).owns(p), "variant.place", "value of %zu bytes is not in its resource", sizeof(T));
                    VH_CHECK(w->pool.heap(m.res).owns(reinterpret_cast<char*>(p) + sizeof(T) - 1),
                             "variant.place",
                             "value of %zu bytes is not inside its block",
                             sizeof(T));
                }
            }
#if VH_EXC
            else if (w->deep)
            {
                int bad = 0;
                try
                {
                    (void) cetl::get<T&>(v);
                } catch (const cetl::bad_unbounded_variant_access&)
                {
                    ++bad;
                }
                try
                {
                    (void) cetl::get<const T&>(cv);
                } catch (const cetl::bad_unbounded_variant_access&)
                {
                    ++bad;
                }
                try
                {
                    (void) cetl::get<T&&>(std::move(v));
                } catch (const cetl::bad_unbounded_variant_access&)
                {
                    ++bad;
                }
                VH_CHECK(bad == 3, "variant.bad-access", "access to type %d in state %d did not fail", type, int(m.st));
            }
#endif
        }
    };
    void check(int i)
    {
        if (!alive[i])
        {
            return;
        }
        VH_CHECK(v(i).has_value() == (m[i].st == HELD), "variant.has_value", "variant %d, expected state %d", i, int(m[i].st));
        VH_CHECK(v(i).valueless_by_exception() == (m[i].st == VALUELESS),
                 "variant.valueless",
                 "variant %d, expected state %d",
                 i,
                 int(m[i].st));
        VH_CHECK(res_of(i) == m[i].res, "variant.resource", "variant %d uses resource %d, expected %d", i, res_of(i), m[i].res);
        if (m[i].st != HELD)
        {
            VH_CHECK(v(i).type_size() == 0, "variant.type_size", "%zu without a value", v(i).type_size());
            VH_CHECK(v(i).type_id() == cetl::type_id_value<void>, "variant.type_id", "variant %d has no value", i);
        }
        for (int t = 0; t < NT; ++t)
        {
            with(t, CheckType{this, i, t});
        }
    }
    struct Facts
    {
        bool* tracked;
        bool* dynamic;
        template <typename T>
        void operator()(Tag<T>)
        {
            *tracked = !std::is_arithmetic<T>::value;
            *dynamic = sizeof(T) > C::FP;
        }
    };
    void check_all()
    {
        std::size_t live = locals, blocks[3] = {}, spare[3] = {};
        for (int i = 0; i < N; ++i)
        {
            check(i);
            if (!alive[i])
            {
                continue;
            }
            if (m[i].st == HELD)
            {
                bool tracked = false, dynamic = false;
                with(m[i].type, Facts{&tracked, &dynamic});
                live += tracked ? 1 : 0;
                blocks[m[i].res] += dynamic ? 1 : 0;
            }
            else if (m[i].st == VALUELESS)
            {
                ++spare[m[i].res];
            }
        }
        VH_CHECK(vh::registry().live.size() == live,
                 "lifetime.count",
                 "%zu objects alive, %zu expected",
                 vh::registry().live.size(),
                 live);
        for (int r = 0; r < (C::PM ? 3 : 1); ++r)
        {
            const std::size_t n = pool.heap(r).blocks.size();
            VH_CHECK(n >= blocks[r] && n <= blocks[r] + spare[r],
                     "alloc.count",
                     "resource %d has %zu blocks, %zu values and %zu valueless variants",
                     r,
                     n,
                     blocks[r],
                     spare[r]);
        }
    }

    // ---------------------------------------------------------------------------------- operations
    void destroy(int i)
    {
        v(i).~V();
        alive[i] = false;
        std::memset(raw[i], 0xCD, sizeof raw[i]);
        m[i] = Model{};
    }
    int pick_type()
    {
        for (;;)
        {
            const int t = static_cast<int>(rng.below(NT));
            if (with(t, [](auto) {}))
            {
                return t;
            }
        }
    }
    /// Outcome of storing (type, val) in variant i.
    void stored(int i, int type, std::int64_t val, const char* what)
    {
        if (!fired)
        {
            m[i].st   = HELD;
            m[i].type = type;
            m[i].val  = val;
        }
        else
        {
            Model none;
            none.st  = VALUELESS;
            none.res = m[i].res;
            settle(i, {none, m[i]}, "variant.failed-store");
        }
        vh::op("%s -> v%d type %d val %lld%s", what, i, type, static_cast<long long>(val), fired ? " FAILED" : "");
        vh::feel(static_cast<std::uint64_t>(type) * 8 + static_cast<std::uint64_t>(m[i].st) + (fired ? 4 : 0));
    }
    /// Outcome of constructing variant i from (type, val).
    void built(int i, int r, int type, std::int64_t val, int res, const char* what)
    {
        m[i]     = Model{};
        m[i].res = res;
        if (r != 0)
        {
            alive[i] = false;
            std::memset(raw[i], 0xCD, sizeof raw[i]);
            vh::op("%s v%d type %d THREW", what, i, type);
            vh::feel(77);
            return;
        }
        alive[i] = true;
        stored(i, type, val, what);
    }

    template <typename T>
    struct StoreArgs
    {
        World*       w;
        int          i;
        int          type;
        std::int64_t val;
    };
    // how: 0 lvalue, 1 const lvalue, 2 rvalue
    struct Store
    {
        World*       w;
        int          i, type, how;
        std::int64_t val;
        template <typename T>
        void operator()(Tag<T>)
        {
            run<T>(std::integral_constant<bool, std::is_copy_constructible<T>::value>{});
        }
        template <typename T>
        void run(std::true_type)
        {
            if (how == 2)
            {
                return run<T>(std::false_type{});
            }
            T x(static_cast<T>(val));
            w->locals += std::is_arithmetic<T>::value ? 0 : 1;
            const T& cx = x;
            w->guarded(true, [&] {
                if (how == 0)
                {
                    w->v(i) = x;
                }
                else
                {
                    w->v(i) = cx;
                }
            });
            VH_CHECK(Access<T>::get(x) == val, "variant.source", "assigned lvalue changed");
            w->stored(i, type, val, how == 0 ? "assign lvalue" : "assign const lvalue");
            w->check(i);
            if (!w->fired)
            {
                Access<T>::set(x, 231);  // the stored value is independent
                w->check(i);
            }
            w->locals -= std::is_arithmetic<T>::value ? 0 : 1;
        }
        template <typename T>
        void run(std::false_type)
        {
            T x(static_cast<T>(val));
            w->locals += std::is_arithmetic<T>::value ? 0 : 1;
            w->guarded(true, [&] { w->v(i) = std::move(x); });
            const auto now = Access<T>::get(x);
            if (w->fired)
            {
                VH_CHECK(now == val, "variant.source-lost", "the source of a failed store changed to %lld", static_cast<long long>(now));
            }
            else
            {
                VH_CHECK(now == val || now == Access<T>::moved(val), "variant.source", "moved source has value %lld", static_cast<long long>(now));
            }
            w->stored(i, type, val, "assign rvalue");
            w->check(i);
            w->locals -= std::is_arithmetic<T>::value ? 0 : 1;
        }
    };
    struct Emplace
    {
        World*       w;
        int          i, type;
        std::int64_t val;
        template <typename T>
        void operator()(Tag<T>)
        {
            T* p = nullptr;
            w->guarded(true, [&] { p = build<T>(std::is_arithmetic<T>{}); });
            finish(p);
        }
        void operator()(Tag<Lst>)
        {
            Lst* p = nullptr;
            const int how = static_cast<int>(w->rng.below(3));
            w->guarded(true, [&] {
                p = how == 0 ? w->v(i).template emplace<Lst>({1, 2, static_cast<int>(val) - 3})
                    : how == 1 ? w->v(i).template emplace<Lst>({static_cast<int>(val) - 5}, 5)
                               : w->v(i).template emplace<Lst>(val);
            });
            finish(p);
        }
        template <typename T>
        T* build(std::true_type)
        {
            return w->v(i).template emplace<T>(static_cast<T>(val));
        }
        template <typename T>
        T* build(std::false_type)
        {
            return w->rng.chance(1, 2) ? w->v(i).template emplace<T>(val) : w->v(i).template emplace<const T>(val - 7, 7);
        }
        template <typename T>
        void finish(T* p)
        {
            w->stored(i, type, val, "emplace");
            if (!w->fired)
            {
                VH_CHECK(p != nullptr && p == cetl::get_if<T>(&w->v(i)), "variant.emplace-result", "emplace returned another address");
            }
            else
            {
                VH_CHECK(p == nullptr, "variant.emplace-result", "a failed emplace returned an address");
            }
        }
    };
    // Construction of a new variant holding a value.
    struct Build
    {
        World*       w;
        int          i, type, how, res;
        std::int64_t val;
        template <typename T>
        void operator()(Tag<T>)
        {
            T x(static_cast<T>(val));
            w->locals += std::is_arithmetic<T>::value ? 0 : 1;
            int r = 0;
            if (how == 0)
            {
                r = w->guarded(true, [&] { in_place<T>(std::integral_constant<bool, C::PM>{}); });
                w->built(i, r, type, val, res, "construct in place");
            }
            else
            {
                r = w->guarded(true, [&] { forward(std::integral_constant<bool, C::PM>{}, std::move(x)); });
                w->built(i, r, type, val, res, "construct from rvalue");
                if (r != 0)
                {
                    VH_CHECK(Access<T>::get(x) == val, "variant.source-lost", "the source of a failed construction changed");
                }
            }
            w->check(i);
            w->locals -= std::is_arithmetic<T>::value ? 0 : 1;
        }
        void operator()(Tag<Lst>)
        {
            const int r = w->guarded(true, [&] { in_place_list(std::integral_constant<bool, C::PM>{}); });
            w->built(i, r, type, val, res, "construct from list");
            w->check(i);
        }
        template <typename T>
        void in_place(std::true_type)
        {
            new (w->raw[i]) V(w->pool.get(res), typename V::template in_place_type_t<T>{}, static_cast<T>(val));
        }
        template <typename T>
        void in_place(std::false_type)
        {
            new (w->raw[i]) V(typename V::template in_place_type_t<T>{}, static_cast<T>(val));
        }
        void in_place_list(std::true_type)
        {
            new (w->raw[i]) V(w->pool.get(res), typename V::template in_place_type_t<Lst>{}, {1, static_cast<int>(val) - 3}, 2);
        }
        void in_place_list(std::false_type)
        {
            new (w->raw[i]) V(typename V::template in_place_type_t<Lst>{}, {1, static_cast<int>(val) - 3}, 2);
        }
        template <typename T>
        void forward(std::true_type, T&& x)
        {
            new (w->raw[i]) V(w->pool.get(res), std::forward<T>(x));
        }
        template <typename T>
        void forward(std::false_type, T&& x)
        {
            new (w->raw[i]) V(std::forward<T>(x));
        }
    };
    void build_empty(std::true_type, int i, int res)
    {
        new (raw[i]) V(pool.get(res));
    }
    void build_empty(std::false_type, int i, int)
    {
        new (raw[i]) V();
    }
    Model none(State st, int res)
    {
        Model x;
        x.st  = st;
        x.res = res;
        return x;
    }

    // copies
    void copy_construct(int i, int j, std::true_type)
    {
        const Model src = m[j];
        const int   r   = guarded(true, [&] { new (raw[i]) V(static_cast<const V&>(v(j))); });
        m[i]            = Model{};
        if (r != 0)
        {
            std::memset(raw[i], 0xCD, sizeof raw[i]);
        }
        else
        {
            alive[i] = true;
            copied(i, src, src);
        }
        vh::op("copy construct v%d from v%d%s", i, j, fired ? " FAILED" : "");
        vh::nontrivial();
    }
    void copied(int i, const Model& src, const Model& old)
    {
        if (fired)
        {
            settle(i, {none(VALUELESS, src.res), none(VALUELESS, old.res), old}, "variant.failed-copy");
        }
        else if (src.st == HELD)
        {
            m[i] = src;
        }
        else if (src.st == EMPTY)
        {
            m[i] = none(EMPTY, src.res);
        }
        else
        {
            settle(i, {none(VALUELESS, src.res), none(EMPTY, src.res)}, "variant.copy-of-valueless");
            vh::count("valueless sources");
        }
    }
    void copy_assign(int i, int j, std::true_type)
    {
        const Model src = m[j], old = m[i];
        guarded(true, [&] { v(i) = static_cast<const V&>(v(j)); });
        if (i != j)
        {
            copied(i, src, old);
        }
        vh::op("copy assign v%d from v%d (states %d %d)%s", i, j, int(old.st), int(src.st), fired ? " FAILED" : "");
        vh::nontrivial();
    }
    void copy_construct(int, int, std::false_type) {}
    void copy_assign(int, int, std::false_type) {}
    // moves
    void moved(int i, int j, const Model& src)
    {
        if (src.st == VALUELESS)
        {
            settle(i, {none(VALUELESS, src.res), none(EMPTY, src.res)}, "variant.move-of-valueless");
            settle(j, {none(VALUELESS, src.res), none(EMPTY, src.res)}, "variant.move-of-valueless");
            vh::count("valueless sources");
        }
        else
        {
            m[i] = src;
            m[j] = none(EMPTY, src.res);
        }
    }
    void move_construct(int i, int j, std::true_type)
    {
        const Model src = m[j];
        alloc_k         = 0;
        guarded(false, [&] { new (raw[i]) V(std::move(v(j))); });
        VH_CHECK(!fired, "variant.move-allocates", "a move failed");
        alive[i] = true;
        moved(i, j, src);
        vh::op("move construct v%d from v%d", i, j);
        vh::nontrivial();
    }
    void move_assign(int i, int j, std::true_type)
    {
        const Model src = m[j];
        alloc_k         = 0;
        const State old = m[i].st;
        guarded(false, [&] { v(i) = std::move(v(j)); });
        VH_CHECK(!fired, "variant.move-allocates", "a move failed");
        if (i != j)
        {
            moved(i, j, src);
        }
        vh::op("move assign v%d from v%d (states %d %d)", i, j, int(old), int(src.st));
        vh::nontrivial();
    }
    void move_construct(int, int, std::false_type) {}
    void move_assign(int, int, std::false_type) {}

    void swap(int i, int j, std::true_type)
    {
        const Model a = m[i], b = m[j];
        const bool  free_fn = C::MV && rng.chance(1, 3);
        if (C::MV)
        {
            alloc_k = 0;
        }
        guarded(!C::MV, [&] {
            if (free_fn)
            {
                std_swap(v(i), v(j), std::integral_constant<bool, C::MV>{});
            }
            else
            {
                v(i).swap(v(j));
            }
        });
        if (fired && i != j)
        {
            const std::vector<Model> any = {a, b, none(EMPTY, a.res), none(EMPTY, b.res), none(VALUELESS, a.res), none(VALUELESS, b.res)};
            settle(i, any, "variant.failed-swap");
            settle(j, any, "variant.failed-swap");
        }
        else if (i != j)
        {
            std::vector<Model> ca = {b}, cb = {a};
            if (b.st == VALUELESS)
            {
                ca.push_back(none(EMPTY, b.res));
            }
            if (a.st == VALUELESS)
            {
                cb.push_back(none(EMPTY, a.res));
            }
            settle(i, ca, "variant.swap");
            settle(j, cb, "variant.swap");
        }
        vh::op("%s v%d v%d (states %d %d)%s", free_fn ? "std::swap" : "swap", i, j, int(a.st), int(b.st), fired ? " FAILED" : "");
        vh::nontrivial();
    }
    void swap(int, int, std::false_type) {}
    static void std_swap(V& a, V& b, std::true_type)
    {
        using std::swap;
        swap(a, b);
    }
    static void std_swap(V& a, V& b, std::false_type)
    {
        a.swap(b);
    }

    void reset_res(int i, int res, std::true_type)
    {
        v(i).reset(pool.get(res));
        m[i] = none(EMPTY, res);
        vh::op("reset v%d to resource %d", i, res);
    }
    void reset_res(int, int, std::false_type) {}

    struct Mutate
    {
        World*       w;
        int          i;
        std::int64_t val;
        template <typename T>
        void operator()(Tag<T>)
        {
            if (w->rng.chance(1, 3) && std::is_move_constructible<T>::value)
            {
                take<T>(std::integral_constant<bool, std::is_move_constructible<T>::value>{});
                return;
            }
            Access<T>::set(w->rng.chance(1, 2) ? cetl::get<T&>(w->v(i)) : *cetl::get_if<T>(&w->v(i)), val);
            w->m[i].val = val;
            vh::op("write v%d val %lld", i, static_cast<long long>(val));
        }
        template <typename T>
        void take(std::true_type)
        {
            // the value is moved out, the variant keeps the moved-from object
            std::int64_t got = 0;
            const auto   was = w->m[i].val;
            w->guarded(false, [&] {
                T x(cetl::get<T>(std::move(w->v(i))));
                got = Access<T>::get(x);
            });
            VH_CHECK(got == was, "variant.take", "took %lld instead of %lld", static_cast<long long>(got), static_cast<long long>(was));
            std::vector<Model> c(2, w->m[i]);
            c[1].val = Access<T>::moved(was);
            w->settle(i, c, "variant.take");
            vh::op("take the value of v%d", i);
        }
        template <typename T>
        void take(std::false_type)
        {
        }
    };
    struct CopyOut
    {
        World* w;
        int    i;
        template <typename T>
        void operator()(Tag<T>)
        {
            run<T>(std::integral_constant<bool, std::is_copy_constructible<T>::value>{});
        }
        template <typename T>
        void run(std::true_type)
        {
            std::int64_t got  = w->m[i].val;
            const bool   cst  = w->rng.chance(1, 2);
            const int    r    = w->guarded(true, [&] {
                T x(cst ? cetl::get<T>(static_cast<const V&>(w->v(i))) : cetl::get<T>(w->v(i)));
                got = Access<T>::get(x);
                Access<T>::set(x, 231);
            });
            VH_CHECK(r != 0 || got == w->m[i].val, "variant.copy-out", "copied %lld", static_cast<long long>(got));
            vh::op("copy the value out of v%d", i);
        }
        template <typename T>
        void run(std::false_type)
        {
        }
    };

    std::int64_t value()
    {
        return rng.range(10, 200);
    }
    void step()
    {
        using CopyT = std::integral_constant<bool, C::CP>;
        using MoveT = std::integral_constant<bool, C::MV>;
        using PmrT  = std::integral_constant<bool, C::PM>;
        const int i = static_cast<int>(rng.below(N));
        int       j = static_cast<int>(rng.below(N));
        fired       = false;
        deep        = rng.chance(1, 8);
        if (!alive[i])
        {
            const int res = C::PM ? static_cast<int>(rng.below(3)) : 0;
            switch (rng.below(6))
            {
            case 0:
                build_empty(PmrT{}, i, res);
                alive[i] = true;
                m[i]     = none(EMPTY, res);
                vh::op("construct v%d empty", i);
                break;
            case 1:
                if (alive[j])
                {
                    copy_construct(i, j, CopyT{});
                }
                break;
            case 2:
                if (alive[j])
                {
                    move_construct(i, j, MoveT{});
                }
                break;
            default: {
                const int t = pick_type();
                with(t, Build{this, i, t, static_cast<int>(rng.below(2)), res, value()});
            }
            }
        }
        else
        {
            if (!alive[j])
            {
                j = i;
            }
            switch (rng.below(16))
            {
            case 0:
            case 1:
            case 2: {
                const int t = m[i].st == HELD && rng.chance(1, 4) ? m[i].type : pick_type();
                with(t, Store{this, i, t, static_cast<int>(rng.below(3)), value()});
                break;
            }
            case 3:
            case 4:
            case 5: {
                const int t = m[i].st == HELD && rng.chance(1, 4) ? m[i].type : pick_type();
                with(t, Emplace{this, i, t, value()});
                break;
            }
            case 6:
            case 7:
                copy_assign(i, j, CopyT{});
                break;
            case 8:
            case 9:
                move_assign(i, j, MoveT{});
                break;
            case 10:
            case 11:
                swap(i, j, std::integral_constant<bool, C::CP || C::MV>{});
                break;
            case 12:
                if (rng.chance(1, 3))
                {
                    reset_res(i, static_cast<int>(rng.below(3)), PmrT{});
                }
                else
                {
                    v(i).reset();
                    m[i] = none(EMPTY, m[i].res);
                    vh::op("reset v%d", i);
                }
                break;
            case 13:
                vh::op("destroy v%d in state %d", i, int(m[i].st));
                destroy(i);
                break;
            case 14:
                if (m[i].st == HELD)
                {
                    with(m[i].type, Mutate{this, i, value()});
                }
                break;
            default:
                if (m[i].st == HELD)
                {
                    with(m[i].type, CopyOut{this, i});
                }
                break;
            }
        }
        elem_k = alloc_k = 0;
        check_all();
        vh::feel(static_cast<std::uint64_t>(i) * 64 + static_cast<std::uint64_t>(j) * 16 + static_cast<std::uint64_t>(m[i].st));
    }
};

template <typename C>
void history(Rng& rng)
{
    World<C>  w(rng);
    const int n = static_cast<int>(rng.range(6, 40));
    for (int k = 0; k < n; ++k)
    {
        w.step();
    }
}
/// Heaps that run out, and random injected failures.
template <typename C>
void starved(Rng& rng)
{
    World<C> w(rng);
    for (int r = 0; r < 3; ++r)
    {
        w.pool.heap(r).limit = rng.chance(1, 3) ? rng.below(80) : rng.below(700);
    }
    const int n = static_cast<int>(rng.range(6, 40));
    for (int k = 0; k < n; ++k)
    {
        if (rng.chance(1, 4))
        {
            w.alloc_k = 1 + rng.below(3);
            w.sticky  = rng.chance(1, 2);
        }
#if VH_EXC
        if (rng.chance(1, 4))
        {
            w.elem_k = 1 + rng.below(4);
        }
#endif
        w.step();
    }
}
/// One operation after a random prefix fails at its first, second ... step, and the world is used further.
template <typename C>
void faults(Rng& rng)
{
    const std::uint64_t seed = rng.next();
    const int           n    = static_cast<int>(rng.range(2, 12));
    const int           tail = static_cast<int>(rng.range(1, 8));
    const bool          sticky = rng.chance(1, 3);
    for (int kind = VH_EXC ? 0 : 1; kind < 2; ++kind)
    {
        for (std::uint64_t k = 1; k < 12; ++k)
        {
            Rng      r(seed);
            World<C> w(r);
            for (int s = 0; s < n; ++s)
            {
                w.step();
            }
            (kind == 0 ? w.elem_k : w.alloc_k) = k;
            w.sticky                           = sticky;
            w.step();
            const bool hit = w.fired;
            vh::feel(k * 2 + static_cast<std::uint64_t>(kind));
            for (int s = 0; s < tail; ++s)
            {
                w.step();
            }
            if (!hit)
            {
                break;
            }
            vh::count("fault points");
        }
    }
}

#if CFG == 0
using C0 = Cfg<32, true, true, alignof(std::max_align_t), void>;
using C1 = Cfg<33, true, false, 8, void>;
using C2 = Cfg<64, false, true, 64, void>;
using C3 = Cfg<256, false, false, alignof(std::max_align_t), void>;
using C4 = Cfg<16, true, true, 1, void>;
#elif CFG == 1
using MR = cetl::pf17::pmr::memory_resource;
using C0 = Cfg<0, true, true, alignof(std::max_align_t), MR>;
using C1 = Cfg<0, true, false, 64, MR>;
using C2 = Cfg<0, false, true, 8, MR>;
using C3 = Cfg<0, false, false, alignof(std::max_align_t), MR>;
using C4 = Cfg<0, true, true, 128, NullRes>;
#else
using MR = cetl::pf17::pmr::memory_resource;
using C0 = Cfg<24, true, true, alignof(std::max_align_t), NullRes>;
using C1 = Cfg<32, true, false, 8, NullRes>;
using C2 = Cfg<16, false, true, 64, MR>;
using C3 = Cfg<16, false, false, alignof(std::max_align_t), NullRes>;
using C4 = Cfg<1, true, true, 32, MR>;
#endif

/// Assigning its own value to a variant.
void own_value(Rng& rng)
{
    World<C0> w(rng);
    const auto val = w.value();
    w.build_empty(std::integral_constant<bool, C0::PM>{}, 0, 0);
    w.alive[0] = true;
    w.m[0]     = w.none(EMPTY, 0);
    w.with(2, World<C0>::Emplace{&w, 0, 2, val});
    vh::op("assign the held value of v0 to v0");
    w.v(0) = cetl::get<E15&>(w.v(0));
    w.check_all();
}

// ------------------------------------------------------------------------------------------------ value categories
/// Builds a variant with or without a resource.
template <typename C, bool Pmr = C::PM>
struct Builder
{
    using V = typename C::V;
    vh::Heap* heap() { return nullptr; }
    template <typename F, typename... A>
    void with(F f, A&&... a)
    {
        V v(std::forward<A>(a)...);
        f(v);
    }
    V empty() { return V(); }
    template <typename... A>
    V make(A&&... a)
    {
        return cetl::make_unbounded_variant<Snk, V>(std::forward<A>(a)...);
    }
    template <typename... A>
    V make_list(std::initializer_list<int> il, A&&... a)
    {
        return cetl::make_unbounded_variant<Snk, V>(il, std::forward<A>(a)...);
    }
};
template <typename P>
struct ResourceOf
{
    using type = vh::MemRes;
};
template <>
struct ResourceOf<NullRes>
{
    using type = NullRes;
};
template <typename C>
struct Builder<C, true>
{
    using V = typename C::V;
    typename ResourceOf<typename C::Pmr>::type res;
    template <typename F, typename... A>
    void with(F f, A&&... a)
    {
        V v(&res, std::forward<A>(a)...);
        f(v);
    }
    V empty() { return V(&res); }
    template <typename... A>
    V make(A&&... a)
    {
        return cetl::make_unbounded_variant<Snk, V>(&res, std::forward<A>(a)...);
    }
    template <typename... A>
    V make_list(std::initializer_list<int> il, A&&... a)
    {
        return cetl::make_unbounded_variant<Snk, V>(&res, {il.begin()[0], il.begin()[1]}, std::forward<A>(a)...);
    }
};
template <typename C>
void forwarding_of(Rng& rng)
{
    using V = typename C::V;
    using T = typename V::template in_place_type_t<Snk>;
    using vfwd::expect;
    Builder<C> b;
    const bool before = rng.chance(1, 2);
    auto       fill   = [before](V& v) {
        if (before)
        {
            v.template emplace<Snk>();
        }
    };
    auto held = [](const V& v) -> const Snk& {
        VH_CHECK(v.has_value() && cetl::get_if<Snk>(&v) != nullptr, "variant.lost", "no value");
        return *cetl::get_if<Snk>(&v);
    };
    vfwd::pairs(rng, "in place", [&](auto&& x, auto&& y, const std::string& c, int n) {
        b.with([&](V& v) { expect(held(v), "in place", "2" + c, n); }, T{}, std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
    });
    vfwd::pairs(rng, "make", [&](auto&& x, auto&& y, const std::string& c, int n) {
        const V v(b.make(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)));
        expect(held(v), "make", "2" + c, n);
    });
    vfwd::pairs(rng, "emplace", [&](auto&& x, auto&& y, const std::string& c, int n) {
        V v(b.empty());
        fill(v);
        Snk* const p = v.template emplace<Snk>(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
        VH_CHECK(p == &held(v), "variant.emplace-result", "another object");
        expect(*p, "emplace", "2" + c, n);
    });
    vfwd::lists(rng, "list in place", [&](std::initializer_list<int> il, auto&& x, const std::string& c, int n) {
        b.with([&](V& v) { expect(held(v), "list in place", "i" + c, n); }, T{}, il, std::forward<decltype(x)>(x));
    });
    vfwd::lists(rng, "make list", [&](std::initializer_list<int> il, auto&& x, const std::string& c, int n) {
        const V v(b.make_list(il, std::forward<decltype(x)>(x)));
        expect(held(v), "make list", "i" + c, n);
    });
    vfwd::lists(rng, "emplace list", [&](std::initializer_list<int> il, auto&& x, const std::string& c, int n) {
        V v(b.empty());
        fill(v);
        Snk* const p = v.template emplace<Snk>(il, std::forward<decltype(x)>(x));
        VH_CHECK(p == &held(v), "variant.emplace-result", "another object");
        expect(*p, "emplace list", "i" + c, n);
    });
    const int n = static_cast<int>(rng.below(100));
    {
        Snk s((vfwd::Arg(n)));
        b.with([&](V& v) { expect(held(v), "from an lvalue", "C", n); }, s);
        b.with([&](V& v) { expect(held(v), "from a const lvalue", "C", n); }, static_cast<const Snk&>(s));
        expect(s, "source", "1r", n);
        b.with(
            [&](V& v) {
                expect(held(v), "from an rvalue", "M", n);
                VH_CHECK(s.sum == -1, "forwarding", "the source still has its value");
                Snk t(cetl::get<Snk>(static_cast<const V&>(v)));
                VH_CHECK(t.sum == n && held(v).sum == n, "forwarding", "a copy taken");
                Snk& r = cetl::get<Snk&>(v);
                VH_CHECK(&r == &held(v), "variant.get-reference", "another object");
                Snk u(cetl::get<Snk>(v));
                VH_CHECK(u.sum == n && held(v).sum == n, "forwarding", "a copy taken");
                Snk w(cetl::get<Snk>(std::move(v)));
                VH_CHECK(w.sum == n && held(v).sum == -1, "forwarding", "taken from an rvalue");
            },
            std::move(s));
        Snk a((vfwd::Arg(n)));
        V   v(b.empty());
        fill(v);
        V& back = (v = static_cast<const Snk&>(a));
        VH_CHECK(&back == &v, "variant.assign-result", "another variant");
        expect(held(v), "assigned an lvalue", "C", n);
        expect(a, "source", "1r", n);
        v = a;
        expect(held(v), "assigned a non-const lvalue", "C", n);
        v = std::move(a);
        expect(held(v), "assigned an rvalue", "M", n);
        VH_CHECK(a.sum == -1, "forwarding", "the source still has its value");
    }
    vh::op("forwarding %d %d", int(before), n);
    vh::feel(static_cast<std::uint64_t>(before * 128 + n));
}
#if CFG == 0
using F0 = Cfg<64, true, true, alignof(std::max_align_t), void>;
using F1 = Cfg<64, true, true, alignof(std::max_align_t), void>;
#else
using F0 = Cfg<CFG == 1 ? 0 : 64, true, true, alignof(std::max_align_t), MR>;
using F1 = Cfg<CFG == 1 ? 0 : 16, true, true, alignof(std::max_align_t), NullRes>;
#endif
void forwarding(Rng& rng)
{
    forwarding_of<F0>(rng);
    forwarding_of<F1>(rng);
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("history", 100, [](Rng& r) {
        switch (r.below(5))
        {
        case 0:
            return history<C0>(r);
        case 1:
            return history<C1>(r);
        case 2:
            return history<C2>(r);
        case 3:
            return history<C3>(r);
        default:
            return history<C4>(r);
        }
    });
    vh::suite("starved", 100, [](Rng& r) {
        switch (r.below(5))
        {
        case 0:
            return starved<C0>(r);
        case 1:
            return starved<C1>(r);
        case 2:
            return starved<C2>(r);
        case 3:
            return starved<C3>(r);
        default:
            return starved<C4>(r);
        }
    });
    vh::suite("faults", 50, [](Rng& r) {
        switch (r.below(5))
        {
        case 0:
            return faults<C0>(r);
        case 1:
            return faults<C1>(r);
        case 2:
            return faults<C2>(r);
        case 3:
            return faults<C3>(r);
        default:
            return faults<C4>(r);
        }
    });
    vh::suite("forwarding", 5, forwarding);
    vh::suite("known.own_value", 1, own_value);
    return vh::finish();
}

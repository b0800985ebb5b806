// Values of which each operation separately promises, or does not promise, not to throw. A failure must reach the caller
// whatever the other operations promise, and must leave behind what the standard prescribes for that very combination.
#include "vh.hpp"
#include <cetl/pf17/optional.hpp>
#include <cetl/pf17/variant.hpp>
#include <cetl/variable_length_array.hpp>
#include <memory>
#include <cstring>
#if __cplusplus >= 201703L
#    include <optional>
#    include <variant>
#endif
using vh::Rng;

struct Boom
{};
static int  g_fuse  = 0;
static bool g_fired = false;
static int  g_alive = 0;
/// The fuse burns in operations which may throw only.
template <bool Never, std::enable_if_t<Never, int> = 0>
void burn() noexcept
{
}
template <bool Never, std::enable_if_t<!Never, int> = 0>
void burn()
{
    if (g_fuse > 0 && --g_fuse == 0)
    {
        g_fired = true;
        throw Boom{};
    }
}
constexpr unsigned parity(unsigned x)
{
    return x == 0 ? 0U : (x & 1U) ^ parity(x >> 1U);
}
constexpr int GONE = -7;
struct Src
{
    int v;
};
struct Quiet
{};
struct Counted
{
    Counted() noexcept
    {
        ++g_alive;
    }
    Counted(const Counted&) noexcept
    {
        ++g_alive;
    }
    Counted& operator=(const Counted&) = default;
    ~Counted()
    {
        --g_alive;
    }
};
/// All combinations of the first five promises; the others are spread over them.
template <unsigned N>
struct Val : std::conditional_t<parity(N & 0xEU) == 0, Counted, Quiet>
{
    using Base = std::conditional_t<parity(N & 0xEU) == 0, Counted, Quiet>;
    static constexpr bool cc = (N & 1U) != 0, mc = (N & 2U) != 0, ca = (N & 4U) != 0, ma = (N & 8U) != 0;
    static constexpr bool uc = (N & 16U) != 0, ua = parity(N) != 0, sw = parity(N & 0x15U) != 0;
    static constexpr bool counted = parity(N & 0xEU) == 0;

    int v;
    Val(const Src& s) noexcept(uc)
        : v(s.v)
    {
        burn<uc>();
    }
    Val(const Val& o) noexcept(cc)
        : Base()
        , v(o.v)
    {
        burn<cc>();
    }
    Val(Val&& o) noexcept(mc)
        : Base()
        , v(o.v)
    {
        burn<mc>();
        o.v = GONE;
    }
    Val& operator=(const Val& o) noexcept(ca)
    {
        burn<ca>();
        v = o.v;
        return *this;
    }
    Val& operator=(Val&& o) noexcept(ma)
    {
        burn<ma>();
        v   = o.v;
        o.v = GONE;
        return *this;
    }
    Val& operator=(const Src& s) noexcept(ua)
    {
        burn<ua>();
        v = s.v;
        return *this;
    }
    friend void swap(Val& a, Val& b) noexcept(sw)
    {
        burn<sw>();
        const int t = a.v;
        a.v         = b.v;
        b.v         = t;
    }
};

struct Pf
{
    template <typename... T>
    using V = cetl::pf17::variant<T...>;
    template <typename T>
    using O = cetl::pf17::optional<T>;
    template <std::size_t N, typename X>
    static auto get_if(X* x)
    {
        return cetl::pf17::get_if<N>(x);
    }
};
#if __cplusplus >= 201703L
struct Std
{
    template <typename... T>
    using V = std::variant<T...>;
    template <typename T>
    using O = std::optional<T>;
    template <std::size_t N, typename X>
    static auto get_if(X* x)
    {
        return std::get_if<N>(x);
    }
};
#endif

/// Runs f with the fuse set; true if it threw, which it must exactly if a failure occurred.
template <typename F>
bool attempt(int fuse, const char* what, unsigned n, const F& f)
{
    vh::op("%s, promises %02x, fuse %d", what, n, fuse);
    g_fuse     = fuse;
    g_fired    = false;
    bool threw = false;
    try
    {
        f();
    } catch (const Boom&)
    {
        threw = true;
    }
    g_fuse = 0;
    VH_CHECK(threw == g_fired, "mixed.failure-lost", "the failure did not reach the caller");
    vh::feel((static_cast<std::uint64_t>(what[0] * 256 + what[std::strlen(what) - 3]) * 64 + n) * 8 + static_cast<std::uint64_t>(fuse * 2 + threw));
    if (threw)
    {
        vh::count("failures");
    }
    return threw;
}

// ------------------------------------------------------------------------------------------------ variant
struct State
{
    int ix;  // -1 without a value
    int v;
};
template <typename I, unsigned N, typename X>
State look(const X& x)
{
    if (x.valueless_by_exception())
    {
        return {-1, 0};
    }
    if (x.index() == 0)
    {
        return {0, static_cast<int>(*I::template get_if<0>(&x))};
    }
    return {1, I::template get_if<1>(&x)->v};
}
template <typename I, unsigned N>
void expect(const typename I::template V<long, Val<N>>& x, State want, const char* what)
{
    const State s = look<I, N>(x);
    VH_CHECK(s.ix == want.ix && (s.ix < 0 || s.v == want.v), "mixed.state", "%s: alternative %d value %d instead of %d %d", what,
             s.ix, s.v, want.ix, want.v);
}
template <typename I, unsigned N>
void variant_case(Rng& rng)
{
    using T = Val<N>;
    using V = typename I::template V<long, T>;
    const int  op = static_cast<int>(rng.below(9)), fuse = static_cast<int>(rng.below(4));
    const int  before = g_alive;
    const bool a_on = rng.chance(1, 2), b_on = rng.chance(2, 3);
    {
        V a(5L), b(6L);
        if (a_on)
        {
            a.template emplace<1>(Src{3});
        }
        if (b_on)
        {
            b.template emplace<1>(Src{7});
        }
        const State a0 = look<I, N>(a), b0 = look<I, N>(b);
        const State lost{-1, 0}, gone{1, GONE};
        vh::feel(static_cast<std::uint64_t>(a_on * 2 + b_on));
        switch (op)
        {
        case 0: {
            const bool t = attempt(fuse, "copy assignment", N, [&] { a = static_cast<const V&>(b); });
            expect<I, N>(b, b0, "source");
            expect<I, N>(a, !t ? b0 : a_on ? a0 : (T::cc || !T::mc) ? lost : a0, "target");
            break;
        }
        case 1: {
            const bool t = attempt(fuse, "move assignment", N, [&] { a = std::move(b); });
            expect<I, N>(b, t || !b_on ? b0 : gone, "source");
            expect<I, N>(a, !t ? b0 : a_on ? a0 : lost, "target");
            break;
        }
        case 2: {
            const Src  s{9};
            const bool t = attempt(fuse, "converting assignment", N, [&] { a = s; });
            // Of a conversion by way of a temporary only the conversion can fail.
            expect<I, N>(a, !t ? State{1, 9} : a_on ? a0 : (T::uc || !T::mc) ? lost : a0, "target");
            break;
        }
        case 3: {
            const bool t = attempt(fuse, "emplacement", N, [&] { (void) a.template emplace<1>(Src{9}); });
            expect<I, N>(a, !t ? State{1, 9} : lost, "target");
            break;
        }
        case 4: {
            const bool t = attempt(fuse, "swap", N, [&] { a.swap(b); });
            if (!t)
            {
                expect<I, N>(a, b0, "left");
                expect<I, N>(b, a0, "right");
            }
            else if (a_on == b_on)
            {
                expect<I, N>(a, a0, "left");
                expect<I, N>(b, b0, "right");
            }
            break;
        }
        case 5: {
            const bool t = attempt(fuse, "copy construction", N, [&] {
                const V c(static_cast<const V&>(b));
                expect<I, N>(c, b0, "copy");
            });
            (void) t;
            expect<I, N>(b, b0, "source");
            break;
        }
        case 6: {
            const bool t = attempt(fuse, "move construction", N, [&] {
                const V c(std::move(b));
                expect<I, N>(c, b0, "new one");
            });
            expect<I, N>(b, t || !b_on ? b0 : gone, "source");
            break;
        }
        case 7: {
            const Src s{9};
            (void) attempt(fuse, "converting construction", N, [&] {
                const V c(s);
                expect<I, N>(c, State{1, 9}, "new one");
            });
            break;
        }
        default: {
            // Assignment of the alternative itself.
            if (b_on)
            {
                T&         x = *I::template get_if<1>(&b);
                const bool m = rng.chance(1, 2);
                const bool t = m ? attempt(fuse, "assignment of a moved value", N, [&] { a = std::move(x); })
                                 : attempt(fuse, "assignment of a value", N, [&] { a = static_cast<const T&>(x); });
                const bool direct = (m ? T::mc : T::cc) || !T::mc;
                expect<I, N>(a, !t ? b0 : a_on ? a0 : direct ? lost : a0, "target");
            }
            break;
        }
        }
        // Whatever happened, both take a new value.
        a = V(11L);
        b = V(12L);
        expect<I, N>(a, State{0, 11}, "afterwards");
        expect<I, N>(b, State{0, 12}, "afterwards");
    }
    VH_CHECK(g_alive == before, "mixed.alive", "%d values alive", g_alive - before);
}

// ------------------------------------------------------------------------------------------------ optional
template <typename X>
void expect_opt(const X& x, bool on, int v, const char* what)
{
    VH_CHECK(x.has_value() == on && (!on || x->v == v), "mixed.state", "%s: engaged %d value %d instead of %d %d", what,
             int(x.has_value()), x.has_value() ? int(x->v) : 0, int(on), v);
}
template <typename I, unsigned N>
void optional_case(Rng& rng)
{
    using T = Val<N>;
    using O = typename I::template O<T>;
    using U = typename I::template O<Src>;
    const int  op = static_cast<int>(rng.below(9)), fuse = static_cast<int>(rng.below(4));
    const int  before = g_alive;
    const bool a_on = rng.chance(1, 2), b_on = rng.chance(2, 3);
    {
        O a, b;
        if (a_on)
        {
            (void) a.emplace(Src{3});
        }
        if (b_on)
        {
            (void) b.emplace(Src{7});
        }
        vh::feel(static_cast<std::uint64_t>(a_on * 2 + b_on));
        switch (op)
        {
        case 0: {
            const bool t = attempt(fuse, "copy assignment", N, [&] { a = static_cast<const O&>(b); });
            expect_opt(b, b_on, 7, "source");
            expect_opt(a, t ? a_on : b_on, t ? 3 : 7, "target");
            break;
        }
        case 1: {
            const bool t = attempt(fuse, "move assignment", N, [&] { a = std::move(b); });
            expect_opt(b, b_on, t ? 7 : GONE, "source");
            expect_opt(a, t ? a_on : b_on, t ? 3 : 7, "target");
            break;
        }
        case 2: {
            const Src  s{9};
            const bool t = attempt(fuse, "converting assignment", N, [&] { a = s; });
            expect_opt(a, t ? a_on : true, t ? 3 : 9, "target");
            break;
        }
        case 3: {
            const bool t = attempt(fuse, "emplacement", N, [&] { (void) a.emplace(Src{9}); });
            expect_opt(a, !t, 9, "target");
            break;
        }
        case 4: {
            const bool t = attempt(fuse, "swap", N, [&] { a.swap(b); });
            expect_opt(a, t ? a_on : b_on, t ? 3 : 7, "left");
            expect_opt(b, t ? b_on : a_on, t ? 7 : 3, "right");
            break;
        }
        case 5: {
            (void) attempt(fuse, "copy construction", N, [&] {
                const O c(static_cast<const O&>(b));
                expect_opt(c, b_on, 7, "copy");
            });
            expect_opt(b, b_on, 7, "source");
            break;
        }
        case 6: {
            const bool t = attempt(fuse, "move construction", N, [&] {
                const O c(std::move(b));
                expect_opt(c, b_on, 7, "new one");
            });
            expect_opt(b, b_on, t ? 7 : GONE, "source");
            break;
        }
        case 7: {
            const bool on = rng.chance(2, 3);
            const U    u  = on ? U(Src{9}) : U();
            if (rng.chance(1, 2))
            {
                (void) attempt(fuse, "construction from another optional", N, [&] {
                    const O c(u);
                    expect_opt(c, on, 9, "new one");
                });
            }
            else
            {
                const bool t = attempt(fuse, "assignment of another optional", N, [&] { a = u; });
                expect_opt(a, t ? a_on : on, t ? 3 : 9, "target");
            }
            break;
        }
        default: {
            if (b_on)
            {
                const bool m = rng.chance(1, 2);
                const bool t = m ? attempt(fuse, "assignment of a moved value", N, [&] { a = std::move(*b); })
                                 : attempt(fuse, "assignment of a value", N, [&] { a = static_cast<const T&>(*b); });
                expect_opt(a, t ? a_on : true, t ? 3 : 7, "target");
                expect_opt(b, true, t || !m ? 7 : GONE, "source");
            }
            break;
        }
        }
        a.reset();
        b.reset();
        (void) a.emplace(Src{11});
        expect_opt(a, true, 11, "afterwards");
    }
    VH_CHECK(g_alive == before, "mixed.alive", "%d values alive", g_alive - before);
}

// ------------------------------------------------------------------------------------------------ arrays
/// Stays with its array; all combinations of equal and unequal allocators.
template <typename T>
struct Stay
{
    using value_type                             = T;
    using is_always_equal                        = std::false_type;
    using propagate_on_container_copy_assignment = std::false_type;
    using propagate_on_container_move_assignment = std::false_type;
    using propagate_on_container_swap            = std::false_type;
    int id;
    explicit Stay(int i) noexcept
        : id(i)
    {
    }
    template <typename U>
    Stay(const Stay<U>& o) noexcept
        : id(o.id)
    {
    }
    T* allocate(std::size_t n)
    {
        return std::allocator<T>().allocate(n);
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        std::allocator<T>().deallocate(p, n);
    }
    template <typename U>
    bool operator==(const Stay<U>& o) const noexcept
    {
        return id == o.id;
    }
    template <typename U>
    bool operator!=(const Stay<U>& o) const noexcept
    {
        return id != o.id;
    }
};
template <typename A>
void contents(const A& a, const std::vector<int>& want, const char* what)
{
    VH_CHECK(a.size() == want.size(), "mixed.size", "%s: %zu elements instead of %zu", what, a.size(), want.size());
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        VH_CHECK(a[i].v == want[i], "mixed.element", "%s: element %zu is %d instead of %d", what, i, a[i].v, want[i]);
    }
}
template <typename I, unsigned N>
void array_case(Rng& rng)
{
    using T = Val<N>;
    using A = cetl::VariableLengthArray<T, Stay<T>>;
    const int op = static_cast<int>(rng.below(12)), fuse = static_cast<int>(rng.below(5));
    const int before = g_alive;
    {
        A                a{Stay<T>(1)}, b{Stay<T>(static_cast<int>(rng.range(1, 2)))};
        std::vector<int> am, bm;
        a.reserve(rng.below(8));
        for (std::size_t k = rng.below(6); k > 0; --k)
        {
            am.push_back(10 + static_cast<int>(k));
            a.emplace_back(Src{am.back()});
        }
        for (std::size_t k = rng.below(6); k > 0; --k)
        {
            bm.push_back(20 + static_cast<int>(k));
            b.emplace_back(Src{bm.back()});
        }
        vh::feel(am.size() * 64 + bm.size() * 8 + a.capacity());
        const T                one(Src{9});
        T                      two(Src{8});
        const std::vector<int> am0 = am;
        const std::size_t      n   = rng.below(8);
        bool                   t   = false;
        switch (op)
        {
        case 0:
            t = attempt(fuse, "copy assignment", N, [&] { a = static_cast<const A&>(b); });
            am = bm;
            contents(b, bm, "source");
            break;
        case 1:
            t = attempt(fuse, "move assignment", N, [&] { a = std::move(b); });
            am = bm;
            break;
        case 2:
            t = attempt(fuse, "appending a copy", N, [&] { a.push_back(one); });
            am.push_back(9);
            break;
        case 3:
            t = attempt(fuse, "appending a moved one", N, [&] { a.push_back(std::move(two)); });
            am.push_back(8);
            break;
        case 4:
            t = attempt(fuse, "appending a new one", N, [&] { a.emplace_back(Src{7}); });
            am.push_back(7);
            break;
        case 5:
            t = attempt(fuse, "reservation", N, [&] { a.reserve(n); });
            break;
        case 6:
            t = attempt(fuse, "shrinking", N, [&] { a.shrink_to_fit(); });
            break;
        case 7:
            t = attempt(fuse, "resizing", N, [&] { a.resize(n, one); });
            am.resize(n, 9);
            break;
        case 8:
            t = attempt(fuse, "assigning", N, [&] { a.assign(n, one); });
            am.assign(n, 9);
            break;
        case 9:
            t = attempt(fuse, "copying to a new one", N, [&] {
                const A c(static_cast<const A&>(b));
                contents(c, bm, "copy");
            });
            contents(b, bm, "source");
            break;
        case 10:
            t = attempt(fuse, "copying with another allocator", N, [&] {
                const A c(static_cast<const A&>(b), Stay<T>(3));
                contents(c, bm, "copy");
            });
            contents(b, bm, "source");
            break;
        default:
            t = attempt(fuse, "moving to another allocator", N, [&] {
                const A c(std::move(b), Stay<T>(3));
                contents(c, bm, "new one");
            });
            break;
        }
        if (!t)
        {
            contents(a, am, "target");
        }
        else if ((op >= 2 && op <= 4) || op == 5 || op == 6 || op >= 9)
        {
            VH_CHECK(a.size() == am0.size(), "mixed.size", "%zu elements instead of %zu after the failure", a.size(), am0.size());
            if (T::cc || T::mc)
            {
                contents(a, am0, "target after the failure");
            }
        }
        VH_CHECK(!T::counted || g_alive == before + static_cast<int>(a.size() + b.size()) + 2, "mixed.alive",
                 "%d values alive, %zu elements", g_alive - before - 2, a.size() + b.size());
        a.resize(0, one);
        a.emplace_back(Src{11});
        contents(a, {11}, "afterwards");
    }
    VH_CHECK(g_alive == before, "mixed.alive", "%d values alive", g_alive - before);
}

template <typename I, unsigned... N>
void all(Rng& rng, std::integer_sequence<unsigned, N...>)
{
    const unsigned n = static_cast<unsigned>(rng.below(sizeof...(N)));
    for (int k = 0; k < 6; ++k)
    {
#if MIXED == 0
        const int done[] = {(n == N ? variant_case<I, N>(rng) : void(), 0)...};
#elif MIXED == 2
        const int done[] = {(n == N ? array_case<I, N>(rng) : void(), 0)...};
#else
        const int done[] = {(n == N ? optional_case<I, N>(rng) : void(), 0)...};
#endif
        (void) done;
    }
    vh::nontrivial();
}
template <typename I>
void mixed(Rng& rng)
{
    all<I>(rng, std::make_integer_sequence<unsigned, 32>{});
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("mixed", 100, mixed<Pf>);
#ifdef REFERENCE
    vh::suite("known.reference_mixed", 100, mixed<Std>);
#endif
    return vh::finish();
}

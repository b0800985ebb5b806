// Polymorphic allocators: what they ask of their resource and how they construct objects and pairs.
#include "vh_mr.hpp"
#include <list>
#include <tuple>
using vh::Rng;
namespace pmr = cetl::pf17::pmr;
template <typename T>
using PA = pmr::polymorphic_allocator<T>;

/// A resource recording requests and answering from a heap shared by its group.
struct Res : pmr::memory_resource
{
    int         group = 0;
    vh::Heap*   heap  = nullptr;
    std::size_t max   = static_cast<std::size_t>(-1);
    bool        grows = false;
    struct Call
    {
        int         kind;
        std::size_t a, b, align;
        const void* p;
    };
    std::vector<Call> calls;

private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        calls.push_back({0, n, 0, a, nullptr});
        void* p = n > max ? nullptr : heap->get(n, a);
#if VH_EXC
        if (p == nullptr)
        {
            throw std::bad_alloc();
        }
#endif
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        calls.push_back({1, n, 0, a, p});
        heap->put(p, n, a);
    }
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override
    {
        return static_cast<const Res&>(o).group == group;
    }
    std::size_t do_max_size() const noexcept override
    {
        return max;
    }
    void* do_reallocate(void* p, std::size_t n, std::size_t m, std::size_t a) override
    {
        calls.push_back({2, n, m, a, p});
        return grows ? heap->regrow(p, n, m, a, true) : nullptr;
    }
};
struct World
{
    vh::Heap heap[3];
    Res      res[5];  // groups 0 0 1 1 2
    World()
    {
        for (int i = 0; i < 5; ++i)
        {
            res[i].group = i / 2;
            res[i].heap  = &heap[i / 2];
            heap[i / 2].id    = i / 2;
            heap[i / 2].slack = 64;
        }
    }
    void check_empty()
    {
        for (auto& h : heap)
        {
            h.check_empty("the end");
        }
        vh::check_no_live("the end");
    }
};

// ------------------------------------------------------------------------------------------------ requests
template <typename T>
void requests_of(Rng& g, World& w)
{
    struct Live
    {
        T*          p;
        std::size_t n;
        int         group;
        std::uint64_t fill;
    };
    std::vector<Live> live;
    auto stamp = [](const Live& l) {
        unsigned char* c = reinterpret_cast<unsigned char*>(l.p);
        for (std::size_t i = 0; i < l.n * sizeof(T); ++i)
        {
            c[i] = static_cast<unsigned char>(l.fill + i);
        }
    };
    auto intact = [](const Live& l, std::size_t n) {
        const unsigned char* c = reinterpret_cast<const unsigned char*>(l.p);
        for (std::size_t i = 0; i < n * sizeof(T); ++i)
        {
            VH_CHECK(c[i] == static_cast<unsigned char>(l.fill + i), "palloc.content", "byte %zu changed", i);
        }
    };
    for (int i = 0; i < 5; ++i)
    {
        w.res[i].grows = g.chance(1, 2);
        w.res[i].max   = g.chance(1, 3) ? static_cast<std::size_t>(g.below(600)) : static_cast<std::size_t>(-1);
    }
    const int n = static_cast<int>(g.range(5, 30));
    for (int s = 0; s < n; ++s)
    {
        const int ri = static_cast<int>(g.below(5));
        Res&      r  = w.res[ri];
        // The allocator reaches us along some chain of copies.
        PA<T> a0(&r);
        PA<T> a1(a0);
        PA<char> ac(a1);
        PA<T> a2(ac);
        PA<T> a3 = a2.select_on_container_copy_construction();
        typename std::allocator_traits<PA<int>>::template rebind_alloc<T> a4{PA<int>(&r)};
        PA<T>* const chain[] = {&a0, &a1, &a2, &a3, &a4};
        for (auto* x : chain)
        {
            VH_CHECK(x->resource() == &r, "palloc.resource", "copy names another resource");
        }
        VH_CHECK(ac.resource() == &r, "palloc.resource", "rebound copy names another resource");
        PA<T>&      a = *chain[g.below(5)];
        r.calls.clear();
        switch (g.below(6))
        {
        case 0:
        case 1: {
            std::size_t count = static_cast<std::size_t>(g.below(12));
            const int   kind  = static_cast<int>(g.below(8));
            if (kind == 0)
            {
                const std::size_t lim = static_cast<std::size_t>(-1) / sizeof(T);
                const std::size_t c[] = {lim, lim + 1, lim - 1, static_cast<std::size_t>(-1), lim + 2, (static_cast<std::size_t>(-1) >> 1) + 1};
                count                 = g.pick(c);
            }
            const bool too_many = count > static_cast<std::size_t>(-1) / sizeof(T);
            const bool use_traits = g.chance(1, 2);
            vh::op("allocate %zu of %zu bytes from %d", count, sizeof(T), ri);
            T*  p   = nullptr;
            int how = 0;
#if VH_EXC
            try
            {
                p = use_traits ? std::allocator_traits<PA<T>>::allocate(a, count) : a.allocate(count);
            } catch (const std::bad_array_new_length&)
            {
                how = 2;
            } catch (const std::bad_alloc&)
            {
                how = 1;
            }
#else
            p   = use_traits ? std::allocator_traits<PA<T>>::allocate(a, count) : a.allocate(count);
            how = p == nullptr ? 1 : 0;
#endif
            if (too_many)
            {
                VH_CHECK(p == nullptr && r.calls.empty(), "palloc.overflow", "count %zu reached the resource", count);
#if VH_EXC
                VH_CHECK(how == 2, "palloc.overflow", "outcome %d", how);
#endif
                vh::nontrivial();
                vh::feel(1);
                break;
            }
            VH_CHECK(r.calls.size() == 1 && r.calls[0].kind == 0 && r.calls[0].a == count * sizeof(T) && r.calls[0].align == alignof(T), "palloc.request",
                     "asked for %zu bytes aligned %zu", r.calls.empty() ? 0 : r.calls[0].a, r.calls.empty() ? 0 : r.calls[0].align);
            VH_CHECK(how != 2, "palloc.overflow", "count %zu refused", count);
            vh::feel(2 + static_cast<std::uint64_t>(how) * 3 + count * 7);
            if (how == 0)
            {
                VH_CHECK(w.heap[r.group].owns(p), "palloc.result", "not the block of the resource");
                Live l{p, count, r.group, g.next()};
                stamp(l);
                live.push_back(l);
            }
            break;
        }
        case 2:
        case 3: {
            if (live.empty())
            {
                break;
            }
            const std::size_t k = static_cast<std::size_t>(g.below(live.size()));
            Live&             l = live[k];
            if (l.group != r.group)
            {
                break;  // not equal
            }
            intact(l, l.n);
            vh::op("deallocate %zu to %d", l.n, ri);
            if (g.chance(1, 2))
            {
                a.deallocate(l.p, l.n);
            }
            else
            {
                std::allocator_traits<PA<T>>::deallocate(a, l.p, l.n);
            }
            VH_CHECK(r.calls.size() == 1 && r.calls[0].kind == 1 && r.calls[0].p == l.p && r.calls[0].a == l.n * sizeof(T) && r.calls[0].align == alignof(T),
                     "palloc.give-back", "not forwarded as it was asked for");
            live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
            vh::nontrivial();
            vh::feel(5);
            break;
        }
        case 4: {
            if (live.empty())
            {
                break;
            }
            Live& l = live[static_cast<std::size_t>(g.below(live.size()))];
            if (l.group != r.group)
            {
                break;
            }
            const std::size_t m = static_cast<std::size_t>(g.range(1, 14));
            vh::op("reallocate %zu to %zu on %d", l.n, m, ri);
            T* const p = a.reallocate(l.p, l.n, m);
            VH_CHECK(r.calls.size() == 1 && r.calls[0].kind == 2 && r.calls[0].a == l.n * sizeof(T) && r.calls[0].b == m * sizeof(T) &&
                         r.calls[0].align == alignof(T), "palloc.reallocate", "not forwarded as asked for");
            if (p != nullptr)
            {
                VH_CHECK(r.grows, "palloc.reallocate", "a result the resource did not give");
                const Live before = l;
                l.p               = p;
                intact(l, std::min(before.n, m));
                l.n = m;
                stamp(l);
                vh::nontrivial();
            }
            else
            {
                intact(l, l.n);
            }
            vh::feel(7 + m * 2 + (p ? 1 : 0));
            break;
        }
        default: {
            const int rj = static_cast<int>(g.below(5));
            PA<T>     b(&w.res[rj]);
            PA<short> c(&w.res[rj]);
            const bool eq = w.res[rj].group == r.group;
            vh::op("compare %d with %d", ri, rj);
            VH_CHECK((a == b) == eq && (b == a) == eq && (a != b) == !eq && (b != a) == !eq, "palloc.equal", "same type: expected %d", eq);
            VH_CHECK((a == c) == eq && (c == a) == eq && (a != c) == !eq && (c != a) == !eq, "palloc.equal", "rebound: expected %d", eq);
            VH_CHECK(a.max_size() == r.max / sizeof(T), "palloc.max", "%zu for a resource of %zu", a.max_size(), r.max);
            VH_CHECK(std::allocator_traits<PA<T>>::max_size(a) == r.max / sizeof(T), "palloc.max", "%zu for a resource of %zu", a.max_size(), r.max);
            VH_CHECK(std::allocator_traits<PA<T>>::select_on_container_copy_construction(a).resource() == &r, "palloc.select", "another resource");
            vh::feel(11 + (eq ? 1 : 0));
            break;
        }
        }
    }
    for (const Live& l : live)
    {
        intact(l, l.n);
        PA<T>(&w.res[l.group * 2]).deallocate(l.p, l.n);
    }
}
struct alignas(32) Wide
{
    char c[96];
};
struct Three
{
    char c[3];
};
static void requests(Rng& g)
{
    World w;
    switch (g.below(5))
    {
    case 0:
        requests_of<char>(g, w);
        break;
    case 1:
        requests_of<int>(g, w);
        break;
    case 2:
        requests_of<Three>(g, w);
        break;
    case 3:
        requests_of<Wide>(g, w);
        break;
    default:
        requests_of<std::string>(g, w);
        break;
    }
    w.check_empty();
}

// ------------------------------------------------------------------------------------------------ construction
/// An argument which remembers how it arrived.
struct Tok
{
    int id;
    int how = 0;  // 1 copied, 2 moved
    explicit Tok(int i)
        : id(i)
    {
    }
    Tok(const Tok& o)
        : id(o.id)
        , how(1)
    {
    }
    Tok(Tok&& o) noexcept
        : id(o.id)
        , how(2)
    {
        o.id = -1;
    }
    Tok& operator=(const Tok&) = default;
};
template <typename A>
using IsTok = std::is_same<typename std::decay<A>::type, Tok>;

/// What an object was constructed with.
struct Made
{
    std::vector<Tok>      args;
    pmr::memory_resource* mr    = nullptr;
    int                   place = 0;  // 0 no allocator, 1 leading, 2 trailing
    void take() {}
    template <typename A, typename... R>
    void take(A&& a, R&&... r)
    {
        args.emplace_back(std::forward<A>(a));
        // emplace_back may have moved earlier ones while growing: only the way of the own arrival counts
        hows.push_back(args.back().how);
        take(std::forward<R>(r)...);
    }
    std::vector<int> hows;
};
template <int K>
struct Base : vh::ElemCore<K, 40>, Made
{
    Base()
    {
        vh::elem_tick();
        this->birth(0);
    }
    Base(const Base&)            = delete;
    Base& operator=(const Base&) = delete;
    ~Base()
    {
        this->death();
    }
};
struct Plain : Base<1>
{
    enum
    {
        PLACE = 0
    };
    Plain() {}
    template <typename A, typename = std::enable_if_t<IsTok<A>::value>>
    explicit Plain(A&& a)
    {
        take(std::forward<A>(a));
    }
    template <typename A, typename B, typename = std::enable_if_t<IsTok<A>::value && IsTok<B>::value>>
    Plain(A&& a, B&& b)
    {
        take(std::forward<A>(a), std::forward<B>(b));
    }
};
struct Lead : Base<2>
{
    enum
    {
        PLACE = 1
    };
    using allocator_type = PA<char>;
    Lead(std::allocator_arg_t, const allocator_type& al)
    {
        mr    = al.resource();
        place = 1;
    }
    template <typename A, typename = std::enable_if_t<IsTok<A>::value>>
    Lead(std::allocator_arg_t, const allocator_type& al, A&& a)
    {
        mr    = al.resource();
        place = 1;
        take(std::forward<A>(a));
    }
    template <typename A, typename B, typename = std::enable_if_t<IsTok<A>::value && IsTok<B>::value>>
    Lead(std::allocator_arg_t, const allocator_type& al, A&& a, B&& b)
    {
        mr    = al.resource();
        place = 1;
        take(std::forward<A>(a), std::forward<B>(b));
    }
};
struct Trail : Base<3>
{
    enum
    {
        PLACE = 2
    };
    using allocator_type = PA<int>;
    explicit Trail(const allocator_type& al)
    {
        mr    = al.resource();
        place = 2;
    }
    template <typename A, typename = std::enable_if_t<IsTok<A>::value>>
    Trail(A&& a, const allocator_type& al)
    {
        mr    = al.resource();
        place = 2;
        take(std::forward<A>(a));
    }
    template <typename A, typename B, typename = std::enable_if_t<IsTok<A>::value && IsTok<B>::value>>
    Trail(A&& a, B&& b, const allocator_type& al)
    {
        mr    = al.resource();
        place = 2;
        take(std::forward<A>(a), std::forward<B>(b));
    }
};
/// Offers both; the leading position has precedence.
struct Both : Base<4>
{
    enum
    {
        PLACE = 1
    };
    using allocator_type = PA<Both>;
    Both() {}
    explicit Both(const allocator_type& al)
    {
        mr    = al.resource();
        place = 2;
    }
    Both(std::allocator_arg_t, const allocator_type& al)
    {
        mr    = al.resource();
        place = 1;
    }
    template <typename A, typename = std::enable_if_t<IsTok<A>::value>>
    explicit Both(A&& a)
    {
        take(std::forward<A>(a));
    }
    template <typename A, typename = std::enable_if_t<IsTok<A>::value>>
    Both(A&& a, const allocator_type& al)
    {
        mr    = al.resource();
        place = 2;
        take(std::forward<A>(a));
    }
    template <typename A, typename = std::enable_if_t<IsTok<A>::value>>
    Both(std::allocator_arg_t, const allocator_type& al, A&& a)
    {
        mr    = al.resource();
        place = 1;
        take(std::forward<A>(a));
    }
    template <typename A, typename B, typename = std::enable_if_t<IsTok<A>::value && IsTok<B>::value>>
    Both(std::allocator_arg_t, const allocator_type& al, A&& a, B&& b)
    {
        mr    = al.resource();
        place = 1;
        take(std::forward<A>(a), std::forward<B>(b));
    }
};

struct Want
{
    std::vector<int> ids, hows;
};
template <typename U>
void expect(const U& u, const Res& r, const Want& w, const char* what)
{
    VH_CHECK(u.place == U::PLACE, "construct.position", "%s: allocator at %d, expected %d", what, u.place, static_cast<int>(U::PLACE));
    VH_CHECK(U::PLACE == 0 || u.mr == &r, "construct.resource", "%s: another resource", what);
    VH_CHECK(u.args.size() == w.ids.size(), "construct.arguments", "%s: %zu arguments instead of %zu", what, u.args.size(), w.ids.size());
    for (std::size_t i = 0; i < w.ids.size(); ++i)
    {
        VH_CHECK(u.args[i].id == w.ids[i], "construct.arguments", "%s: argument %zu is %d instead of %d", what, i, u.args[i].id, w.ids[i]);
        VH_CHECK(u.hows[i] == w.hows[i], "construct.category", "%s: argument %zu arrived as %d instead of %d", what, i, u.hows[i], w.hows[i]);
    }
}
template <typename U>
struct Slot
{
    typename std::aligned_storage<sizeof(U), alignof(U)>::type mem;
    U* p()
    {
        return reinterpret_cast<U*>(&mem);
    }
};

/// Runs `make`, possibly with an element constructor that throws. True if the object exists.
template <typename F>
bool guarded(Rng& g, F&& make)
{
#if VH_EXC
    const auto alive = vh::registry().live.size();
    if (g.chance(1, 5))
    {
        vh::fault().elem_countdown = static_cast<std::uint64_t>(g.range(1, 2));
    }
    const auto fired = vh::fault().fired;
    bool       ok    = true;
    try
    {
        make();
    } catch (const vh::Injected&)
    {
        ok = false;
    }
    vh::fault().disarm();
    VH_CHECK(ok == (vh::fault().fired == fired), "construct.exception", "a failure was swallowed");
    VH_CHECK(ok || vh::registry().live.size() == alive, "construct.leak", "half an object is left");
    if (!ok)
    {
        vh::nontrivial();
        vh::count("throwing_constructions");
    }
    return ok;
#else
    (void) g;
    make();
    return true;
#endif
}

template <typename U, typename Al>
void single(Rng& g, Res& r)
{
    Al        al(&r);
    Slot<U>   s;
    Tok       a(1000), b(2000);
    const int form = static_cast<int>(g.below(7));
    vh::op("construct kind %d form %d", static_cast<int>(U::PLACE), form);
    Want w;
    auto mk = [&] {
        const bool tr = g.chance(1, 2);
        using AT      = std::allocator_traits<Al>;
        switch (form)
        {
        case 0:
            w = Want{};
            tr ? AT::construct(al, s.p()) : al.construct(s.p());
            break;
        case 1:
            w = Want{{1000}, {1}};
            tr ? AT::construct(al, s.p(), a) : al.construct(s.p(), a);
            break;
        case 2:
            w = Want{{1000}, {2}};
            tr ? AT::construct(al, s.p(), std::move(a)) : al.construct(s.p(), std::move(a));
            break;
        case 3:
            w = Want{{1000, 2000}, {1, 2}};
            tr ? AT::construct(al, s.p(), a, std::move(b)) : al.construct(s.p(), a, std::move(b));
            break;
        case 4:
            w = Want{{1000, 2000}, {2, 1}};
            tr ? AT::construct(al, s.p(), std::move(a), b) : al.construct(s.p(), std::move(a), b);
            break;
        case 5:
            w = Want{{1000}, {1}};
            tr ? AT::construct(al, s.p(), static_cast<const Tok&>(a)) : al.construct(s.p(), static_cast<const Tok&>(a));
            break;
        default:
            w = Want{{2000, 1000}, {1, 1}};
            tr ? AT::construct(al, s.p(), b, a) : al.construct(s.p(), b, a);
            break;
        }
    };
    vh::feel(static_cast<std::uint64_t>(form) * 5 + static_cast<std::uint64_t>(U::PLACE));
    if (!guarded(g, mk))
    {
        return;
    }
    expect(*s.p(), r, w, "object");
    VH_CHECK((form == 2 || form == 4) == (a.id == -1), "construct.category", "first argument left as %d", a.id);
    VH_CHECK((form == 3) == (b.id == -1), "construct.category", "second argument left as %d", b.id);
    if (g.chance(1, 2))
    {
        al.destroy(s.p());
    }
    else
    {
        std::allocator_traits<Al>::destroy(al, s.p());
    }
}

template <typename F, typename S, typename Al>
void pair(Rng& g, Res& r)
{
    using P = std::pair<F, S>;
    Al        al(&r);
    Slot<P>   s;
    Tok       a(1000), b(2000), c(3000), d(4000);
    std::pair<Tok, Tok> src{Tok(7000), Tok(8000)};
    const int form = static_cast<int>(g.below(14));
    vh::op("construct pair of kinds %d %d form %d", static_cast<int>(F::PLACE), static_cast<int>(S::PLACE), form);
    vh::feel(1000 + static_cast<std::uint64_t>(form) * 25 + static_cast<std::uint64_t>(F::PLACE) * 5 + static_cast<std::uint64_t>(S::PLACE));
    Want x, y;
    auto mk = [&] {
        switch (form)
        {
        case 0:
            al.construct(s.p());
            break;
        case 1:
            x = Want{{1000}, {1}};
            y = Want{{2000}, {2}};
            al.construct(s.p(), a, std::move(b));
            break;
        case 2:
            x = Want{{1000}, {2}};
            y = Want{{2000}, {1}};
            al.construct(s.p(), std::move(a), b);
            break;
        case 3:
            x = Want{{7000}, {1}};
            y = Want{{8000}, {1}};
            al.construct(s.p(), static_cast<const std::pair<Tok, Tok>&>(src));
            break;
        case 4:
            x = Want{{7000}, {2}};
            y = Want{{8000}, {2}};
            al.construct(s.p(), std::move(src));
            break;
        case 5:
            x = Want{{1000, 2000}, {1, 2}};
            y = Want{{3000, 4000}, {2, 1}};
            al.construct(s.p(), std::piecewise_construct, std::forward_as_tuple(a, std::move(b)), std::forward_as_tuple(std::move(c), d));
            break;
        case 6:
            x = Want{{}, {}};
            y = Want{{3000, 4000}, {1, 1}};
            al.construct(s.p(), std::piecewise_construct, std::forward_as_tuple(), std::forward_as_tuple(c, d));
            break;
        case 7:
            x = Want{{1000}, {2}};
            y = Want{{}, {}};
            al.construct(s.p(), std::piecewise_construct, std::make_tuple(a), std::make_tuple());
            break;
        case 8:
            x = Want{{1000, 2000}, {2, 2}};
            y = Want{{3000, 4000}, {2, 2}};
            al.construct(s.p(), std::piecewise_construct, std::make_tuple(a, std::move(b)), std::make_tuple(std::move(c), d));
            break;
        case 9: {
            std::tuple<Tok>      t1(a);
            std::tuple<Tok, Tok> t2(c, d);
            x = Want{{1000}, {2}};
            y = Want{{3000, 4000}, {2, 2}};
            al.construct(s.p(), std::piecewise_construct, t1, t2);
            VH_CHECK(std::get<0>(t1).id == 1000 && std::get<0>(t2).id == 3000, "construct.category", "tuples passed by value were moved from");
            break;
        }
        case 10: {
            std::tuple<Tok&, Tok>  t1(a, b);
            std::tuple<const Tok&> t2(c);
            x = Want{{1000, 2000}, {1, 2}};
            y = Want{{3000}, {1}};
            al.construct(s.p(), std::piecewise_construct, t1, t2);
            break;
        }
        case 11: {
            std::pair<Tok&, Tok&> refs(a, b);
            x = Want{{1000}, {1}};
            y = Want{{2000}, {1}};
            al.construct(s.p(), std::move(refs));
            break;
        }
        case 12: {
            std::pair<Tok&&, Tok&> refs(std::move(a), b);
            x = Want{{1000}, {2}};
            y = Want{{2000}, {1}};
            al.construct(s.p(), std::move(refs));
            break;
        }
        default:
            x = Want{{7000}, {1}};
            y = Want{{8000}, {1}};
            al.construct(s.p(), src);
            break;
        }
    };
    if (!guarded(g, mk))
    {
        return;
    }
    vh::nontrivial();
    expect(s.p()->first, r, x, "first");
    expect(s.p()->second, r, y, "second");
    VH_CHECK((form == 4) == (src.first.id == -1) && (form == 4) == (src.second.id == -1), "construct.category", "source pair left as %d %d", src.first.id, src.second.id);
    al.destroy(s.p());
}
template <typename F, typename S>
void pair_any(Rng& g, Res& r)
{
    if (g.chance(1, 2))
    {
        pair<F, S, PA<std::pair<F, S>>>(g, r);
    }
    else
    {
        pair<F, S, PA<int>>(g, r);
    }
}
template <typename F>
void pair_first(Rng& g, Res& r)
{
    switch (g.below(4))
    {
    case 0:
        return pair_any<F, Plain>(g, r);
    case 1:
        return pair_any<F, Lead>(g, r);
    case 2:
        return pair_any<F, Trail>(g, r);
    default:
        return pair_any<F, Both>(g, r);
    }
}
template <typename U>
void single_any(Rng& g, Res& r)
{
    if (g.chance(1, 2))
    {
        single<U, PA<U>>(g, r);
    }
    else
    {
        single<U, PA<double>>(g, r);
    }
}
static void construct(Rng& g)
{
    World w;
    for (int i = 0; i < 8; ++i)
    {
        Res& r = w.res[g.below(5)];
        switch (g.below(8))
        {
        case 0:
            single_any<Plain>(g, r);
            break;
        case 1:
            single_any<Lead>(g, r);
            break;
        case 2:
            single_any<Trail>(g, r);
            break;
        case 3:
            single_any<Both>(g, r);
            break;
        case 4:
            pair_first<Plain>(g, r);
            break;
        case 5:
            pair_first<Lead>(g, r);
            break;
        case 6:
            pair_first<Trail>(g, r);
            break;
        default:
            pair_first<Both>(g, r);
            break;
        }
        VH_CHECK(r.calls.empty(), "construct.memory", "construction allocated");
        vh::check_no_live("the end of a construction");
    }
}

// ------------------------------------------------------------------------------------------------ containers
#if VH_EXC
static void containers(Rng& g)
{
    using Inner = std::vector<std::int64_t, PA<std::int64_t>>;
    using Map   = std::map<int, Inner, std::less<int>, PA<std::pair<const int, Inner>>>;
    using List  = std::list<Inner, PA<Inner>>;
    World w;
    {
        Res& r0 = w.res[0];
        Res& r1 = w.res[g.chance(1, 2) ? 2 : 1];
        Map  m0{std::less<int>(), &r0};
        Map  m1{std::less<int>(), &r1};
        List l{&r1};
        std::map<int, std::vector<std::int64_t>> e0, e1;
        std::vector<std::vector<std::int64_t>>   el;
        const int n = static_cast<int>(g.range(5, 30));
        for (int s = 0; s < n; ++s)
        {
            const int    k  = static_cast<int>(g.below(6));
            const auto   v  = static_cast<std::int64_t>(g.next());
            const bool   z  = g.chance(1, 2);
            Map&         m  = z ? m0 : m1;
            auto&        e  = z ? e0 : e1;
            const int    o  = static_cast<int>(g.below(9));
            vh::op("container op %d key %d", o, k);
            vh::feel(static_cast<std::uint64_t>(o * 64 + k * 2 + z));
            switch (o)
            {
            case 0:
            case 1:
                m[k].push_back(v);
                e[k].push_back(v);
                break;
            case 2: {
                Inner in(3, v, z ? &r1 : &r0);
                if (m.emplace(k, in).second)
                {
                    e[k] = {v, v, v};
                }
                break;
            }
            case 3: {
                Inner in(2, v, z ? &r1 : &r0);
                if (m.insert(std::make_pair(k, std::move(in))).second)
                {
                    e[k] = {v, v};
                }
                break;
            }
            case 4:
                m.erase(k);
                e.erase(k);
                break;
            case 5: {
                Inner in(2, v, &r0);
                l.push_back(in);
                el.push_back({v, v});
                break;
            }
            case 6: {
                l.emplace_back(4, v);
                el.push_back({v, v, v, v});
                break;
            }
            case 7: {
                Map copy(m);
                VH_CHECK(copy.get_allocator().resource() == m.get_allocator().resource(), "container.select", "a copy uses another resource");
                VH_CHECK(copy == m, "container.copy", "a copy differs");
                break;
            }
            default: {
                m.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(2, v));
                e.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(2, v));
                break;
            }
            }
            for (int which = 0; which < 2; ++which)
            {
                Map&  mm = which ? m0 : m1;
                auto& ee = which ? e0 : e1;
                Res&  rr = which ? r0 : r1;
                VH_CHECK(mm.size() == ee.size(), "container.content", "size");
                for (auto& kv : mm)
                {
                    VH_CHECK(kv.second.get_allocator().resource() == &rr, "container.resource", "element %d uses another resource", kv.first);
                    const auto it = ee.find(kv.first);
                    VH_CHECK(it != ee.end() && std::vector<std::int64_t>(kv.second.begin(), kv.second.end()) == it->second, "container.content", "element %d differs", kv.first);
                }
            }
            auto q = el.begin();
            VH_CHECK(l.size() == el.size(), "container.content", "list size");
            for (auto& x : l)
            {
                VH_CHECK(x.get_allocator().resource() == &r1, "container.resource", "list element uses another resource");
                VH_CHECK(std::vector<std::int64_t>(x.begin(), x.end()) == *q, "container.content", "list element differs");
                ++q;
            }
        }
        vh::nontrivial();
    }
    w.check_empty();
}
#endif

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("requests", 100, requests);
    vh::suite("construct", 200, construct);
#if VH_EXC
    vh::suite("containers", 30, containers);
#endif
    return vh::finish();
}

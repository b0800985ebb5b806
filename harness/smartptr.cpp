// Owning smart pointers: factories, deleters and interface pointers over recorded resources.
#include "vh_mr.hpp"
#include <cetl/pmr/interface_ptr.hpp>
#include <cetl/pmr/memory.hpp>
using vh::Rng;
template <typename T>
using PA = cetl::pf17::pmr::polymorphic_allocator<T>;

/// Like a polymorphic allocator, but assignable.
template <typename T>
struct FreeAlloc
{
    using value_type = T;
    vh::MemRes* r;
    explicit FreeAlloc(vh::MemRes* m)
        : r(m)
    {
    }
    template <typename U>
    FreeAlloc(const FreeAlloc<U>& o)
        : r(o.r)
    {
    }
    T* allocate(std::size_t n)
    {
        return static_cast<T*>(r->allocate(n * sizeof(T), alignof(T)));
    }
    void deallocate(T* p, std::size_t n)
    {
        r->deallocate(p, n * sizeof(T), alignof(T));
    }
    template <typename U, typename... A>
    void construct(U* p, A&&... a)
    {
        new (p) U(std::forward<A>(a)...);
    }
};

// ------------------------------------------------------------------------------------------------ objects
struct Pad
{
    char pad[24] = {};
};
struct IA
{
    virtual std::int64_t id() const = 0;
    virtual std::int64_t a() const
    {
        return id() * 2;
    }

protected:
    ~IA() = default;  // the deleter knows the concrete type
};
struct IB
{
    virtual std::int64_t id() const = 0;
    std::int64_t         b = 0;
    virtual ~IB()          = default;
};
struct IC  // no virtual functions at all
{
    std::int64_t c = 0;
};
struct ID : IB
{
    std::int64_t d = 0;
};
/// Arguments: how each arrived.
struct Arg
{
    std::int64_t v;
    bool         moved = false;
    explicit Arg(std::int64_t x)
        : v(x)
    {
    }
    Arg(const Arg&) = default;
    Arg(Arg&& o) noexcept
        : v(o.v)
        , moved(true)
    {
        o.v = -1;
    }
};
struct C1 : Pad, IA, IB, IC, vh::ElemCore<1, 50>
{
    enum
    {
        KIND = 1
    };
    Arg arg;
    template <typename A>
    explicit C1(std::int64_t v, A&& x)
        : arg(std::forward<A>(x))
    {
        vh::elem_tick();
        this->birth(v);
        b = v + 1;
        c = v + 2;
    }
    ~C1()
    {
        this->death();
    }
    std::int64_t id() const override
    {
        return value();
    }
};
struct alignas(64) C2 : IC, Pad, ID, IA, vh::ElemCore<2, 50>
{
    enum
    {
        KIND = 2
    };
    Arg  arg;
    char big[300];
    template <typename A>
    explicit C2(std::int64_t v, A&& x)
        : arg(std::forward<A>(x))
    {
        vh::elem_tick();
        this->birth(v);
        b = v + 1;
        c = v + 2;
        d = v + 3;
    }
    ~C2()
    {
        this->death();
    }
    std::int64_t id() const override
    {
        return value();
    }
};
struct C3 final : ID, vh::ElemCore<3, 50>
{
    enum
    {
        KIND = 3
    };
    Arg arg;
    template <typename A>
    explicit C3(std::int64_t v, A&& x)
        : arg(std::forward<A>(x))
    {
        vh::elem_tick();
        this->birth(v);
        b = v + 1;
        d = v + 3;
    }
    ~C3() override
    {
        this->death();
    }
    std::int64_t id() const override
    {
        return value();
    }
};
static std::int64_t ident(const IA* p)
{
    VH_CHECK(p->a() == p->id() * 2, "ptr.subobject", "wrong subobject");
    return p->id();
}
static std::int64_t ident(const IB* p)
{
    VH_CHECK(p->b == p->id() + 1, "ptr.subobject", "wrong subobject");
    return p->id();
}
static std::int64_t ident(const ID* p)
{
    VH_CHECK(p->d == p->id() + 3, "ptr.subobject", "wrong subobject");
    return p->id();
}
static std::int64_t ident(const IC* p)
{
    return p->c - 2;
}
static std::int64_t ident(const C1* p)
{
    return p->value();
}
static std::int64_t ident(const C2* p)
{
    return p->value();
}
static std::int64_t ident(const C3* p)
{
    return p->value();
}

// ------------------------------------------------------------------------------------------------ world
struct World
{
    vh::MemRes                  r[2];
    std::int64_t                next = 100;
    std::map<std::int64_t, int> owned;  // object -> resource it came from
    World()
    {
        r[0].heap.id = 0;
        r[1].heap.id = 1;
    }
    void check(std::size_t raw0, std::size_t raw1)
    {
        std::size_t n[2] = {raw0, raw1};
        for (auto& kv : owned)
        {
            ++n[kv.second];
        }
        VH_CHECK(vh::registry().live.size() == owned.size(), vh::registry().live.size() > owned.size() ? "ptr.leak" : "ptr.destroyed-early", "%zu objects alive, %zu owned",
                 vh::registry().live.size(), owned.size());
        for (int i = 0; i < 2; ++i)
        {
            VH_CHECK(r[i].heap.blocks.size() == n[i], r[i].heap.blocks.size() > n[i] ? "ptr.block-leak" : "ptr.block-early", "heap %d has %zu blocks instead of %zu", i, r[i].heap.blocks.size(), n[i]);
        }
    }
};
enum Outcome
{
    MADE,
    NO_MEMORY,
    THREW
};
/// Creates one object with make(resource index, value); possibly failing. Returns the value or 0.
template <typename Ptr, typename Make>
std::int64_t create(Rng& g, World& w, Ptr& out, Make&& make)
{
    const int          ri   = static_cast<int>(g.below(2));
    const std::int64_t v    = ++w.next;
    const int          trip = static_cast<int>(g.below(6));
    const bool         lv   = g.chance(1, 2);
    Arg                arg(v + 5000);
    if (trip == 0)
    {
        vh::fault().alloc_countdown = 1;
    }
#if VH_EXC
    else if (trip == 1)
    {
        vh::fault().elem_countdown = 1;
    }
#endif
    vh::op("make %lld from %d%s", static_cast<long long>(v), ri, trip == 0 ? " (no memory)" : trip == 1 ? " (throws)" : "");
    const auto fired = vh::fault().fired;
    Outcome    o     = MADE;
#if VH_EXC
    try
    {
        make(out, w.r[ri], v, arg, lv);
    } catch (const std::bad_alloc&)
    {
        o = NO_MEMORY;
    } catch (const vh::Injected&)
    {
        o = THREW;
    }
#else
    make(out, w.r[ri], v, arg, lv);
    o = out == nullptr ? NO_MEMORY : MADE;
#endif
    vh::fault().disarm();
    const bool hit = vh::fault().fired != fired;
    VH_CHECK(hit == (o != MADE), "factory.outcome", "outcome %d", o);
    VH_CHECK(!hit || (trip == 0) == (o == NO_MEMORY), "factory.outcome", "outcome %d", o);
    vh::feel(static_cast<std::uint64_t>(o) * 2 + static_cast<std::uint64_t>(ri));
    if (o != MADE)
    {
        vh::nontrivial();
        vh::count("failed_makes");
        return 0;
    }
    VH_CHECK(lv ? arg.v == v + 5000 : arg.v == -1, "factory.arguments", "argument left as %lld", static_cast<long long>(arg.v));
    VH_CHECK(out != nullptr, "factory.null", "no object");
    VH_CHECK(ident(out.get()) == v, "factory.object", "another object");
    w.owned[v] = ri;
    return v;
}

/// Deleters over allocators that cannot be assigned do not allow assignment of pointers.
template <bool Assignable>
struct Transfer
{
    template <typename P>
    static bool move(P& x, P& y)
    {
        x = std::move(y);
        return true;
    }
    template <typename P>
    static bool swap(P& x, P& y)
    {
        using std::swap;
        swap(x, y);
        return true;
    }
};
template <>
struct Transfer<false>
{
    template <typename P>
    static bool move(P&, P&)
    {
        return false;
    }
    template <typename P>
    static bool swap(P&, P&)
    {
        return false;
    }
};

/// Slots of one pointer type put through random transfers.
template <typename Ptr, bool Assignable, typename Make>
void pointers(Rng& g, World& w, Make make)
{
    using Elem = typename Ptr::element_type;
    struct Slot
    {
        std::unique_ptr<Ptr>  p;
        std::shared_ptr<Elem> s;
        std::int64_t          id = 0;
    };
    std::vector<Slot> slots;
    auto              holds = [](const Slot& s) -> const Elem* { return s.p ? s.p->get() : s.s.get(); };
    const int         n     = static_cast<int>(g.range(5, 30));
    for (int step = 0; step < n; ++step)
    {
        Slot*     a = slots.empty() ? nullptr : &slots[static_cast<std::size_t>(g.below(slots.size()))];
        Slot*     b = slots.empty() ? nullptr : &slots[static_cast<std::size_t>(g.below(slots.size()))];
        const int o = static_cast<int>(g.below(12));
        vh::feel(100 + static_cast<std::uint64_t>(o));
        switch (o)
        {
        case 0:
        case 1:
        case 2: {
            Slot s;
            // `make` sets the pointer by construction.
            struct Out
            {
                std::unique_ptr<Ptr>* h;
                Elem*                 get() const
                {
                    return *h ? (*h)->get() : nullptr;
                }
                bool operator!=(std::nullptr_t) const
                {
                    return get() != nullptr;
                }
                bool operator==(std::nullptr_t) const
                {
                    return get() == nullptr;
                }
            } out{&s.p};
            const std::int64_t id = create(g, w, out, make);
            s.id                  = id;
            if (s.p && slots.size() < 6)
            {
                slots.push_back(std::move(s));
            }
            else if (id != 0)
            {
                s.p.reset();
                w.owned.erase(id);
            }
            break;
        }
        case 3:  // move construction
            if (a && a->p && *a->p)
            {
                vh::op("move construct %lld", static_cast<long long>(a->id));
                std::unique_ptr<Ptr> t(new Ptr(std::move(*a->p)));
                VH_CHECK(a->p->get() == nullptr, "ptr.moved-from", "still owns");
                a->p = std::move(t);
                vh::nontrivial();
            }
            break;
        case 4:
        case 5:  // move assignment, also onto itself
            if (a && b && a->p && b->p && *b->p)
            {
                vh::op("move assign %lld to %lld", static_cast<long long>(b->id), static_cast<long long>(a->id));
                if (a != b)
                {
                    w.owned.erase(a->id);
                }
                const bool done = Transfer<Assignable>::move(*a->p, *b->p);
                if (!done)
                {
                    if (a != b && a->id != 0)
                    {
                        a->p.reset();
                        a->id = 0;
                    }
                }
                else if (a != b)
                {
                    VH_CHECK(b->p->get() == nullptr, "ptr.moved-from", "still owns");
                    a->id = b->id;
                    b->id = 0;
                }
                vh::nontrivial();
            }
            break;
        case 6:  // swap
            if (a && b && a->p && b->p && (a == b || (*a->p && *b->p)))
            {
                vh::op("swap %lld and %lld", static_cast<long long>(a->id), static_cast<long long>(b->id));
                if (*a->p && Transfer<Assignable>::swap(*a->p, *b->p))
                {
                    std::swap(a->id, b->id);
                    vh::nontrivial();
                }
            }
            break;
        case 7:  // reset
            if (a)
            {
                vh::op("reset %lld", static_cast<long long>(a->id));
                if (a->p)
                {
                    a->p->reset();
                }
                a->s.reset();
                w.owned.erase(a->id);
                a->id = 0;
            }
            break;
        case 8:  // release and give back by hand, through the deleter
            if (a && a->p && *a->p)
            {
                vh::op("release %lld", static_cast<long long>(a->id));
                auto* const raw = a->p->release();
                VH_CHECK(a->p->get() == nullptr && ident(raw) == a->id, "ptr.release", "wrong object");
                if (g.chance(1, 2))
                {
                    a->p->get_deleter()(raw);
                    w.owned.erase(a->id);
                    a->id = 0;
                }
                else
                {
                    a->p->reset(raw);
                }
                vh::nontrivial();
            }
            break;
        case 9:  // shared ownership
            if (a && a->p && *a->p)
            {
                vh::op("share %lld", static_cast<long long>(a->id));
                a->s = std::move(*a->p);
                VH_CHECK(a->p->get() == nullptr, "ptr.moved-from", "still owns");
                a->p.reset();
                vh::nontrivial();
            }
            break;
        case 10:  // share among slots
            if (a && a->s && b && !b->p && a != b)
            {
                vh::op("hand the share %lld over", static_cast<long long>(a->id));
                w.owned.erase(b->id);
                b->s  = a->s;
                b->id = a->id;
                a->s.reset();
                a->id = 0;
            }
            break;
        default:  // end of a slot
            if (a)
            {
                vh::op("destroy %lld", static_cast<long long>(a->id));
                w.owned.erase(a->id);
                slots.erase(slots.begin() + (a - slots.data()));
            }
            break;
        }
        for (const Slot& s : slots)
        {
            VH_CHECK((holds(s) != nullptr) == (s.id != 0), "ptr.ownership", "slot of %lld %s", static_cast<long long>(s.id), holds(s) ? "holds something" : "is empty");
            if (s.id != 0)
            {
                VH_CHECK(ident(holds(s)) == s.id, "ptr.object", "slot of %lld holds another object", static_cast<long long>(s.id));
            }
        }
        w.check(0, 0);
    }
    slots.clear();
    w.owned.clear();
    w.check(0, 0);
}

template <typename C, typename A>
void plain(Rng& g, World& w, std::true_type /* assignable */)
{
    using Ptr = cetl::pmr::Factory::unique_ptr_t<A>;
    pointers<Ptr, true>(g, w, [](auto& out, vh::MemRes& r, std::int64_t v, Arg& x, bool lv) {
        A al(&r);
        out.h->reset(new Ptr(lv ? cetl::pmr::Factory::make_unique(al, v, x) : cetl::pmr::Factory::make_unique(al, v, std::move(x))));
    });
}
template <typename C, typename A>
void plain(Rng& g, World& w, std::false_type)
{
    using Ptr = cetl::pmr::Factory::unique_ptr_t<A>;
    pointers<Ptr, false>(g, w, [](auto& out, vh::MemRes& r, std::int64_t v, Arg& x, bool lv) {
        A al(&r);
        out.h->reset(new Ptr(lv ? cetl::pmr::Factory::make_unique(al, v, x) : cetl::pmr::Factory::make_unique(al, v, std::move(x))));
    });
}
template <typename C>
void plain_any(Rng& g)
{
    World w;
    if (g.chance(1, 3))
    {
        plain<C, PA<C>>(g, w, std::false_type());
    }
    else
    {
        plain<C, FreeAlloc<C>>(g, w, std::true_type());
    }
}
static void factory(Rng& g)
{
    switch (g.below(3))
    {
    case 0:
        plain_any<C1>(g);
        break;
    case 1:
        plain_any<C2>(g);
        break;
    default:
        plain_any<C3>(g);
        break;
    }
}

// ------------------------------------------------------------------------------------------------ interface pointers
template <typename I, typename C, bool = std::is_base_of<I, C>::value>
struct MakeI
{
    template <template <typename> class A>
    static cetl::pmr::InterfacePtr<I> go(vh::MemRes& r, std::int64_t v, Arg& x, bool lv)
    {
        A<C> al(&r);
        return lv ? cetl::pmr::InterfaceFactory::make_unique<I>(al, v, x) : cetl::pmr::InterfaceFactory::make_unique<I>(al, v, std::move(x));
    }
};
template <typename I, typename C>
struct MakeI<I, C, false>
{
    template <template <typename> class A>
    static cetl::pmr::InterfacePtr<I> go(vh::MemRes& r, std::int64_t v, Arg& x, bool lv)
    {
        return MakeI<I, C2>::template go<A>(r, v, x, lv);  // implements everything
    }
};
template <typename I>
void interface_of(Rng& g)
{
    World w;
    using Ptr = cetl::pmr::InterfacePtr<I>;
    auto kinds = g.next();
    pointers<Ptr, true>(g, w, [kinds](auto& out, vh::MemRes& r, std::int64_t v, Arg& x, bool lv) mutable {
        kinds = vh::mix(kinds);
        std::unique_ptr<Ptr> p(new Ptr());
        VH_CHECK(!*p, "interface.default", "owns something");
        switch (kinds % 6)
        {
        case 0:
            *p = MakeI<I, C1>::template go<PA>(r, v, x, lv);
            break;
        case 1:
            *p = MakeI<I, C2>::template go<PA>(r, v, x, lv);
            break;
        case 2:
            *p = MakeI<I, C3>::template go<PA>(r, v, x, lv);
            break;
        case 3:
            p.reset(new Ptr(MakeI<I, C1>::template go<FreeAlloc>(r, v, x, lv)));
            break;
        case 4:
            p.reset(new Ptr(MakeI<I, C2>::template go<FreeAlloc>(r, v, x, lv)));
            break;
        default:
            p.reset(new Ptr(MakeI<I, C3>::template go<FreeAlloc>(r, v, x, lv)));
            break;
        }
        *out.h = std::move(p);
    });
}
static void interface(Rng& g)
{
    switch (g.below(5))
    {
    case 0:
        interface_of<IA>(g);
        break;
    case 1:
        interface_of<IB>(g);
        break;
    case 2:
        interface_of<IC>(g);
        break;
    case 3:
        interface_of<ID>(g);
        break;
    default:
        interface_of<C2>(g);
        break;
    }
}

// ------------------------------------------------------------------------------------------------ deleters used directly
static void deleters(Rng& g)
{
    using Del = cetl::pmr::MemoryResourceDeleter<vh::MemRes>;
    using Raw = std::unique_ptr<void, Del>;
    World w;
    struct Held
    {
        std::unique_ptr<Raw> p;
        void*                q = nullptr;
        std::size_t          size = 0, align = 0;
        int                  ri = 0;
    };
    std::vector<Held> held;
    std::size_t       live[2] = {0, 0};
    const int         n       = static_cast<int>(g.range(5, 30));
    for (int s = 0; s < n; ++s)
    {
        Held*     a = held.empty() ? nullptr : &held[static_cast<std::size_t>(g.below(held.size()))];
        Held*     b = held.empty() ? nullptr : &held[static_cast<std::size_t>(g.below(held.size()))];
        const int o = static_cast<int>(g.below(8));
        vh::feel(static_cast<std::uint64_t>(o));
        switch (o)
        {
        case 0:
        case 1: {
            Held h;
            h.ri                     = static_cast<int>(g.below(2));
            h.size                   = static_cast<std::size_t>(g.range(1, 100));
            const std::size_t al[]   = {1, 2, 8, 16, 64};
            h.align                  = g.chance(1, 3) ? alignof(std::max_align_t) : g.pick(al);
            vh::op("hold %zu bytes aligned %zu from %d", h.size, h.align, h.ri);
            h.q = w.r[h.ri].allocate(h.size, h.align);
            if (h.align == alignof(std::max_align_t))
            {
                h.p.reset(new Raw(h.q, Del(&w.r[h.ri], h.size)));
            }
            else
            {
                h.p.reset(new Raw(h.q, Del(&w.r[h.ri], h.size, h.align)));
            }
            ++live[h.ri];
            held.push_back(std::move(h));
            break;
        }
        case 2:
            if (a && *a->p)
            {
                vh::op("move construct");
                std::unique_ptr<Raw> t(new Raw(std::move(*a->p)));
                VH_CHECK(a->p->get() == nullptr, "ptr.moved-from", "still owns");
                a->p = std::move(t);
                vh::nontrivial();
            }
            break;
        case 3:
            if (a && b && *a->p && *b->p)
            {
                vh::op("move assign%s", a == b ? " to itself" : "");
                *a->p = std::move(*b->p);
                if (a != b)
                {
                    --live[a->ri];
                    a->q     = b->q;
                    a->size  = b->size;
                    a->align = b->align;
                    a->ri    = b->ri;
                    held.erase(held.begin() + (b - held.data()));
                }
                vh::nontrivial();
            }
            break;
        case 4:
            if (a && b && *a->p && *b->p && a != b)
            {
                vh::op("swap");
                std::swap(*a->p, *b->p);
                std::swap(a->q, b->q);
                std::swap(a->size, b->size);
                std::swap(a->align, b->align);
                std::swap(a->ri, b->ri);
                vh::nontrivial();
            }
            break;
        case 5:
            if (a)
            {
                vh::op("reset");
                a->p->reset();
                --live[a->ri];
                held.erase(held.begin() + (a - held.data()));
            }
            break;
        case 6:
            if (a)
            {
                vh::op("release");
                void* const q = a->p->release();
                VH_CHECK(q == a->q, "ptr.release", "another block");
                a->p->get_deleter()(q);
                --live[a->ri];
                held.erase(held.begin() + (a - held.data()));
            }
            break;
        default:
            if (a)
            {
                vh::op("share");
                std::shared_ptr<void> sh(std::move(*a->p));
                VH_CHECK(sh.get() == a->q, "ptr.shared", "another block");
                w.check(live[0], live[1]);
                std::shared_ptr<void> sh2(sh);
                sh.reset();
                w.check(live[0], live[1]);
                sh2.reset();
                --live[a->ri];
                held.erase(held.begin() + (a - held.data()));
            }
            break;
        }
        for (Held& h : held)
        {
            VH_CHECK(h.p->get() == h.q, "ptr.object", "another block");
            const Del& d = h.p->get_deleter();
            VH_CHECK(d.size() == h.size && d.alignment() == h.align && d.resource() == &w.r[h.ri], "deleter.report", "size %zu, alignment %zu", d.size(), d.alignment());
        }
        w.check(live[0], live[1]);
    }
    held.clear();
    w.check(0, 0);
    // A polymorphic deleter returns as many objects as it was told.
    {
        FreeAlloc<C1>     al(&w.r[0]);
        const std::size_t k = static_cast<std::size_t>(g.range(1, 5));
        C1* const         p = al.allocate(k);
        const Arg         x(1);
        al.construct(p, 7, x);
        using PD = cetl::pmr::PolymorphicDeleter<FreeAlloc<C1>>;
        PD d1(al, k);
        PD d2(d1);
        PD d3(FreeAlloc<C1>(&w.r[1]), k + 1);
        PD d4(FreeAlloc<C1>(&w.r[1]), k + 2);
        d3 = d2;
        d4 = std::move(d3);
        PD d5(std::move(d4));
        if (g.chance(1, 2))
        {
            typename PD::unique_ptr u(p, d5);
            VH_CHECK(ident(u.get()) == 7, "ptr.object", "another object");
        }
        else
        {
            cetl::pmr::InterfacePtr<IB> u(p, cetl::pmr::PmrInterfaceDeleter<IB>(al, k));
            VH_CHECK(ident(u.get()) == 7, "ptr.object", "another object");
        }
        w.check(0, 0);
        // Deleters given nothing return nothing.
        {
            d1(nullptr);
            cetl::pmr::PmrInterfaceDeleter<IB> none;
            none(nullptr);
            Del raw(&w.r[0], k);
            raw(nullptr);
            const std::shared_ptr<C1>   s1(static_cast<C1*>(nullptr), d1);
            const std::shared_ptr<IB>   s2(static_cast<IB*>(nullptr), none);
            const std::shared_ptr<void> s3(nullptr, Del(&w.r[1], k));
            VH_CHECK(!s1 && !s2 && !s3, "ptr.null", "something out of nothing");
        }
        w.check(0, 0);
    }
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("factory", 100, factory);
    vh::suite("interface", 100, interface);
    vh::suite("deleters", 50, deleters);
    return vh::finish();
}

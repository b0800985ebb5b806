// Allocators which compare equal and yet carry something of their own: after every copy, move, assignment and exchange
// an array must hold the very allocator that the propagation traits prescribe, not merely an equal one.
#include "vh.hpp"
#include <cetl/variable_length_array.hpp>
#include <memory>
#include <string>
#include <vector>
using vh::Rng;

/// Mode: bit 0 propagates on copy assignment, bit 1 on move assignment, bit 2 all instances are equal, bit 3 copies of a
/// container get another tag.
template <typename T, unsigned Mode>
struct Tagged
{
    using value_type                             = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (Mode & 1U) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (Mode & 2U) != 0>;
    using propagate_on_container_swap            = std::false_type;
    using is_always_equal                        = std::integral_constant<bool, (Mode & 4U) != 0>;
    template <typename U>
    struct rebind
    {
        using other = Tagged<U, Mode>;
    };
    Tagged(vh::Heap* h, int t) noexcept
        : heap(h)
        , tag(t)
    {
    }
    template <typename U>
    Tagged(const Tagged<U, Mode>& o) noexcept
        : heap(o.heap)
        , tag(o.tag)
    {
    }
    T* allocate(std::size_t n)
    {
        return static_cast<T*>(heap->get(n * sizeof(T), alignof(T)));
    }
    void deallocate(T* p, std::size_t n)
    {
        heap->put(p, n * sizeof(T), alignof(T));
    }
    Tagged select_on_container_copy_construction() const
    {
        return Tagged(heap, (Mode & 8U) != 0 ? tag + 1000 : tag);
    }
    friend bool operator==(const Tagged& a, const Tagged& b) noexcept
    {
        return a.heap == b.heap;
    }
    friend bool operator!=(const Tagged& a, const Tagged& b) noexcept
    {
        return a.heap != b.heap;
    }
    vh::Heap* heap;
    int       tag;
};

inline int make(const int*, int n)
{
    return n;
}
inline bool make(const bool*, int n)
{
    return (n & 1) != 0;
}
inline std::string make(const std::string*, int n)
{
    return std::string(static_cast<std::size_t>(n % 40), 'x') + std::to_string(n);
}

template <typename E, unsigned Mode>
struct Run
{
    using Store = std::conditional_t<std::is_same<E, bool>::value, unsigned char, E>;
    using A     = Tagged<Store, Mode>;
    using V     = cetl::VariableLengthArray<E, A>;
    struct Slot
    {
        std::unique_ptr<V> a;
        std::vector<E>     m;
        int                heap = 0, tag = 0;
        bool               sure = true;  ///< false: moved from, contents not known
    };
    static constexpr bool pocca = (Mode & 1U) != 0, pocma = (Mode & 2U) != 0, same = (Mode & 4U) != 0;

    vh::Heap h[2];
    Slot     s[3];
    int      next = 0;

    void check(int i)
    {
        Slot&      t = s[i];
        const auto a = t.a->get_allocator();
        VH_CHECK(a.tag == t.tag, "carried.tag", "#%d holds the allocator %d, %d expected", i, a.tag, t.tag);
        VH_CHECK(a.heap == &h[t.heap], "carried.heap", "#%d allocates elsewhere", i);
        if (!t.sure)
        {
            t.m.clear();
            for (std::size_t k = 0; k < t.a->size(); ++k)
            {
                t.m.push_back((*t.a)[k]);
            }
            t.sure = true;
        }
        VH_CHECK(t.a->size() == t.m.size(), "carried.size", "#%d has %zu elements, %zu expected", i, t.a->size(), t.m.size());
        for (std::size_t k = 0; k < t.m.size(); ++k)
        {
            VH_CHECK((*t.a)[k] == t.m[k], "carried.value", "#%d[%zu] differs", i, k);
        }
    }
    void fresh(Rng& g, int i)
    {
        Slot& t = s[i];
        t.a.reset();
        t.heap = same ? 0 : static_cast<int>(g.below(2));
        t.tag  = ++next;
        t.m.clear();
        t.sure = true;
        vh::op("fresh#%d heap=%d tag=%d", i, t.heap, t.tag);
        t.a.reset(new V(A(&h[t.heap], t.tag)));
    }
    void go(Rng& g)
    {
        h[0].id = 0;
        h[1].id = 1;
        for (int i = 0; i < 3; ++i)
        {
            fresh(g, i);
        }
        const int n = static_cast<int>(g.range(4, 30));
        for (int k = 0; k < n; ++k)
        {
            const int i = static_cast<int>(g.below(3));
            const int j = static_cast<int>(g.below(3));
            Slot&     t = s[i];
            Slot&     u = s[j];
            const auto what = g.below(12);
            vh::feel(what * 16 + static_cast<std::size_t>(i) * 4 + static_cast<std::size_t>(j));
            vh::feel(t.m.size() * 64 + u.m.size());
            if (what < 3)
            {
                const int c = static_cast<int>(g.range(1, 6));
                vh::op("push#%d x%d", i, c);
                for (int q = 0; q < c; ++q)
                {
                    const E e = make(static_cast<const E*>(nullptr), ++next);
                    t.a->push_back(e);
                    t.m.push_back(e);
                }
            }
            else if (what == 3)
            {
                vh::op("%s#%d", k % 2 == 0 ? "clear" : "shrink", i);
                if (k % 2 == 0)
                {
                    t.a->clear();
                    t.m.clear();
                }
                else
                {
                    t.a->shrink_to_fit();
                }
            }
            else if (what == 4)
            {
                fresh(g, i);
            }
            else if (what < 7)
            {
                vh::op("copy-assign#%d from #%d", i, j);
                vh::nontrivial();
                *t.a = *static_cast<const V*>(u.a.get());
                t.m  = std::vector<E>(u.m);
                if (pocca)
                {
                    t.heap = u.heap;
                    t.tag  = u.tag;
                }
            }
            else if (what < 9)
            {
                if (i != j)
                {
                    vh::op("move-assign#%d from #%d", i, j);
                    vh::nontrivial();
                    *t.a = std::move(*u.a);
                    t.m  = u.m;
                    if (pocma)
                    {
                        t.heap = u.heap;
                        t.tag  = u.tag;
                    }
                    u.sure = false;
                }
            }
            else if (what == 9)
            {
                if (i != j)
                {
                    vh::op("exchange#%d #%d", i, j);
                    vh::nontrivial();
                    std::swap(*t.a, *u.a);
                    std::swap(t.m, u.m);
                    if (pocma)
                    {
                        std::swap(t.heap, u.heap);
                        std::swap(t.tag, u.tag);
                    }
                }
            }
            else if (i != j)
            {
                const bool move = what == 10, given = g.chance(1, 2);
                const int  hp = given && !same ? static_cast<int>(g.below(2)) : u.heap;
                const int  tg = given ? ++next : (!move && (Mode & 8U) != 0 ? u.tag + 1000 : u.tag);
                vh::op("%s-construct#%d from #%d%s heap=%d tag=%d", move ? "move" : "copy", i, j, given ? " given" : "", hp, tg);
                vh::nontrivial();
                t.a.reset();
                const A al(&h[hp], tg);
                if (move)
                {
                    t.a.reset(given ? new V(std::move(*u.a), al) : new V(std::move(*u.a)));
                    t.m    = u.m;
                    u.sure = false;
                }
                else
                {
                    t.a.reset(given ? new V(*u.a, al) : new V(*u.a));
                    t.m = u.m;
                }
                t.heap = hp;
                t.tag  = tg;
            }
            for (int q = 0; q < 3; ++q)
            {
                check(q);
            }
        }
        for (int i = 0; i < 3; ++i)
        {
            s[i].a.reset();
        }
        h[0].check_empty("end of case");
        h[1].check_empty("end of case");
    }
};

template <typename E>
void pick(Rng& g, unsigned mode)
{
    switch (mode)
    {
#define M(k)                \
    case k:                 \
        Run<E, k>().go(g);  \
        break;
        M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11)
#undef M
    }
}
void carried(Rng& g)
{
    const unsigned mode = static_cast<unsigned>(g.below(12));
    vh::feel(mode);
    switch (g.below(3))
    {
    case 0:
        pick<int>(g, mode);
        break;
    case 1:
        pick<std::string>(g, mode);
        break;
    default:
        pick<bool>(g, mode);
        break;
    }
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("carried", 100, carried);
    return vh::finish();
}

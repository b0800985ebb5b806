// Allocators over recorded heaps, for storage objects of type T. -DALLOC=<k> selects one.
constexpr int NHEAP = 3;
#if ALLOC == 0  // cetl polymorphic allocator over a recording resource
using A = cetl::pf17::pmr::polymorphic_allocator<T>;
struct Mem
{
    std::unique_ptr<vh::MemRes> r[NHEAP];
    explicit Mem(Rng& g)
    {
        for (int i = 0; i < NHEAP; ++i)
        {
            // Moving reallocation of elements that are not trivially copyable is a known finding; see moving_reallocate().
            const unsigned modes = std::is_trivially_copyable<T>::value ? 3 : 2;
            r[i].reset(new vh::MemRes(i, static_cast<vh::MemRes::Realloc>(g.below(modes))));
            r[i]->throws     = g.chance(1, 2);
            r[i]->heap.slack = g.chance(1, 2) ? 0 : g.below(9) * 24;
            if (g.chance(1, 4))
            {
                r[i]->max = sizeof(T) * static_cast<std::size_t>(g.range(0, 30)) + g.below(sizeof(T));
            }
        }
    }
    A alloc(int i)
    {
        return A(r[i].get());
    }
    vh::Heap& heap(int i)
    {
        return r[i]->heap;
    }
    int selected(int i)
    {
        return i;
    }
    std::size_t amax(int i)
    {
        return r[i]->max / sizeof(T);
    }
};
constexpr bool HEAPED = true, POCCA = false, POCMA = false;
#elif ALLOC >= 1 && ALLOC <= 4
constexpr bool HEAPED = true;
constexpr bool POCCA  = (ALLOC == 1 || ALLOC == 3);
constexpr bool POCMA  = (ALLOC == 1 || ALLOC == 4);
constexpr bool SELECT = (ALLOC == 2 || ALLOC == 3);
struct SelHeap : vh::Heap
{
    SelHeap* sel = nullptr;
};
// Recording allocator that may redirect copies of its container to another heap.
template <typename U>
class SelAlloc : public vh::RecAlloc<U, POCCA, POCMA, false>
{
    using B = vh::RecAlloc<U, POCCA, POCMA, false>;

public:
    using value_type = U;
    template <typename V>
    struct rebind
    {
        using other = SelAlloc<V>;
    };
    explicit SelAlloc(SelHeap* h, std::size_t m) noexcept
        : B(h, m)
    {
    }
    template <typename V>
    SelAlloc(const SelAlloc<V>& o) noexcept
        : B(o.heap, o.max_objects)
    {
    }
    SelAlloc select_on_container_copy_construction() const
    {
        return SelAlloc(SELECT ? static_cast<SelHeap*>(this->heap)->sel : static_cast<SelHeap*>(this->heap),
                        this->max_objects);
    }
};
using A = SelAlloc<T>;
struct Mem
{
    SelHeap     h[NHEAP];
    std::size_t m[NHEAP];
    explicit Mem(Rng& g)
    {
        const std::size_t common = g.chance(1, 4) ? static_cast<std::size_t>(g.range(0, 30)) : std::size_t(-1);
        for (int i = 0; i < NHEAP; ++i)
        {
            h[i].id  = i;
            h[i].sel = &h[(i + 1) % NHEAP];
            m[i]     = common;  // the limit travels with the allocator value
        }
    }
    A alloc(int i)
    {
        return A(&h[i], m[i]);
    }
    vh::Heap& heap(int i)
    {
        return h[i];
    }
    int selected(int i)
    {
        return SELECT ? (i + 1) % NHEAP : i;
    }
    std::size_t amax(int i)
    {
        return m[i];
    }
};
#elif ALLOC == 5
using A                = std::allocator<T>;
constexpr bool HEAPED  = false, POCCA = false, POCMA = true;
struct Mem
{
    vh::Heap dummy;
    explicit Mem(Rng&) {}
    A alloc(int)
    {
        return A();
    }
    vh::Heap& heap(int)
    {
        return dummy;
    }
    int selected(int i)
    {
        return i;
    }
    std::size_t amax(int)
    {
        return std::size_t(-1);
    }
};
#elif ALLOC == 6 && __cplusplus >= 201703L
using A               = std::pmr::polymorphic_allocator<T>;
constexpr bool HEAPED = true, POCCA = false, POCMA = false;
struct StdRes : std::pmr::memory_resource
{
    vh::Heap heap;
    void*    do_allocate(std::size_t n, std::size_t a) override
    {
        void* p = heap.get(n, a);
#    if VH_EXC
        if (!p)
            throw std::bad_alloc();
#    endif
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        heap.put(p, n, a);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};
struct Mem
{
    StdRes r[NHEAP];
    explicit Mem(Rng&)
    {
        for (int i = 0; i < NHEAP; ++i)
            r[i].heap.id = i;
        std::pmr::set_default_resource(&r[0]);
    }
    ~Mem()
    {
        std::pmr::set_default_resource(nullptr);
    }
    A alloc(int i)
    {
        return A(&r[i]);
    }
    vh::Heap& heap(int i)
    {
        return r[i].heap;
    }
    int selected(int)
    {
        return 0;
    }
    std::size_t amax(int)
    {
        return std::size_t(-1);
    }
};
#endif

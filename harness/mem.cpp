// Histories of the memory resources: suites "buffer" and "array" (fixed buffer), "monotonic", "general".
#include "vh_mr.hpp"
#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#include <cetl/pmr/buffer_memory_resource_delegate.hpp>
#if __cplusplus >= 201703L
#    include <memory_resource>
#endif
#if defined(VH_ASAN)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif
using vh::Rng;
namespace pmr = cetl::pf17::pmr;

constexpr std::size_t NONE = static_cast<std::size_t>(-1);

/// What the client of a resource holds. Every block is filled with a pattern of its own.
struct Client
{
    struct Block
    {
        unsigned char* p;
        std::size_t    size;
        std::size_t    align;
        unsigned       pattern;
    };
    std::vector<Block> live;
    unsigned           next = 1;

    static unsigned char at(unsigned pattern, std::size_t i)
    {
        return static_cast<unsigned char>(pattern * 37 + i * 11 + (i >> 8));
    }
    void fill(Block& b, std::size_t from)
    {
        for (std::size_t i = from; i < b.size; ++i)
        {
            b.p[i] = at(b.pattern, i);
        }
    }
    void check(const Block& b, const char* when) const
    {
        for (std::size_t i = 0; i < b.size; ++i)
        {
            VH_CHECK(b.p[i] == at(b.pattern, i), "mem.contents", "byte %zu of a block of %zu changed %s", i, b.size, when);
        }
    }
    void check_all(const char* when) const
    {
        for (auto& b : live)
        {
            check(b, when);
        }
    }
    void disjoint(const unsigned char* p, std::size_t n, std::size_t except = NONE) const
    {
        for (std::size_t i = 0; i < live.size(); ++i)
        {
            const Block& b = live[i];
            if (i != except && n > 0 && b.size > 0)
            {
                VH_CHECK(p + n <= b.p || b.p + b.size <= p, "mem.overlap", "%zu bytes overlap a live block of %zu bytes", n, b.size);
            }
        }
    }
    std::size_t add(void* ptr, std::size_t size, std::size_t align)
    {
        unsigned char* const p = static_cast<unsigned char*>(ptr);
        VH_CHECK(reinterpret_cast<std::uintptr_t>(p) % align == 0, "mem.misaligned", "%zu bytes not aligned to %zu", size, align);
        disjoint(p, size);
        Block b{p, size, align, next++};
        fill(b, 0);
        live.push_back(b);
        return live.size() - 1;
    }
    void regrown(std::size_t i, void* ptr, std::size_t size)
    {
        Block&            b   = live[i];
        const std::size_t old = b.size;
        b.p                   = static_cast<unsigned char*>(ptr);
        VH_CHECK(reinterpret_cast<std::uintptr_t>(b.p) % b.align == 0, "mem.misaligned", "reallocated block not aligned to %zu", b.align);
        disjoint(b.p, size, i);
        b.size = std::min(old, size);
        check(b, "by reallocation");
        b.size = size;
        fill(b, std::min(old, size));
    }
    void remove(std::size_t i)
    {
        check(live[i], "while it was held");
        live.erase(live.begin() + static_cast<std::ptrdiff_t>(i));
    }
};

struct Got
{
    void* p;
    bool  thrown;
};
template <typename R>
static Got ask(R& r, std::size_t size, std::size_t align)
{
#if VH_EXC
    try
    {
        return {r.allocate(size, align), false};
    } catch (const std::bad_alloc&)
    {
        return {nullptr, true};
    }
#else
    return {r.allocate(size, align), false};
#endif
}
static void reported(const Got& g, const char* who)
{
    VH_CHECK(!VH_EXC || g.thrown || g.p != nullptr, "mem.null-not-thrown", "%s returned null instead of throwing", who);
    if (g.p == nullptr)
    {
        vh::count("failed_requests");
        vh::nontrivial();
    }
}
static bool inside(const void* p, std::size_t n, const void* b, std::size_t size)
{
    const char* x = static_cast<const char*>(p);
    const char* y = static_cast<const char*>(b);
    return y != nullptr && x >= y && n <= size && x <= y + (size - n);
}
/// Entirely inside one live block of that heap.
static bool inside(const vh::Heap& h, const void* p, std::size_t n)
{
    for (auto& b : h.blocks)
    {
        if (inside(p, n, b.first, b.second.size))
        {
            return true;
        }
    }
    return false;
}
static std::size_t some_align(Rng& g)
{
    return std::size_t(1) << (g.chance(1, 4) ? g.below(8) : g.below(5));
}
static std::size_t some_size(Rng& g, std::size_t scale)
{
    const std::uint64_t k = g.below(20);
    if (k == 0)
    {
        return 0;
    }
    if (k < 4)
    {
        return scale + g.below(5) - std::min<std::size_t>(scale, 2);
    }
    return static_cast<std::size_t>(k < 14 ? g.range(1, 24) : g.range(1, static_cast<std::int64_t>(scale) + 10));
}

// ------------------------------------------------------------------------------------------------ fixed buffers
/// A caller's buffer at an exact address and size; ASan guards both ends.
struct Buffer
{
    std::size_t size, skew;
    char*       raw;
    char*       p;
    Buffer(std::size_t n, std::size_t s)
        : size(n)
        , skew(s)
        , raw(static_cast<char*>(::aligned_alloc(256, (n + s + 256 + 255) / 256 * 256)))
        , p(raw + s)
    {
#if defined(VH_ASAN)
        ASAN_POISON_MEMORY_REGION(raw, skew);
        ASAN_POISON_MEMORY_REGION(p + size, (n + s + 256 + 255) / 256 * 256 - s - n);
#endif
    }
    ~Buffer()
    {
#if defined(VH_ASAN)
        ASAN_UNPOISON_MEMORY_REGION(raw, (size + skew + 256 + 255) / 256 * 256);
#endif
        ::free(raw);
    }
};

/// The reference for a fixed-buffer resource: R is the resource, `buf`/`n` its buffer, `up` the recorded upstream.
template <typename R, typename Realloc>
static void drive_buffer(Rng& g, R& r, const void* buf, std::size_t n, vh::Heap* up, std::size_t up_max, std::size_t up_hard, Realloc realloc)
{
    Client    c;
    int       in_buffer = -1;  // index of the client block that lives in the buffer
    const int steps     = static_cast<int>(g.range(4, 40));
    for (int s = 0; s < steps; ++s)
    {
        const std::uint64_t k = g.below(100);
        vh::feel(k);
        if (k < 50 || c.live.empty())
        {
            const std::size_t align = some_align(g);
            std::size_t       size  = some_size(g, n);
            if (g.chance(1, 40))
            {
                size = NONE - g.below(64);
            }
            const bool fault = up != nullptr && g.chance(1, 12);
            if (fault)
            {
                vh::fault().alloc_countdown = 1;
            }
            vh::op("allocate %zd align %zu%s", size, align, fault ? " (upstream will fail)" : "");
            // Does it fit into the buffer?
            const std::uintptr_t a    = reinterpret_cast<std::uintptr_t>(buf);
            const std::size_t    pad  = static_cast<std::size_t>((align - a % align) % align);
            const bool           fits = buf != nullptr && size <= n && pad <= n - size;
            const std::size_t    na   = up ? up->n_alloc : 0;
            const Got            got  = ask(r, size, align);
            vh::fault().disarm();
            reported(got, "a fixed-buffer resource");
            if (in_buffer < 0 && fits)
            {
                VH_CHECK(got.p != nullptr, "buffer.not-served", "%zu bytes aligned to %zu fit the free buffer of %zu", size, align, n);
                VH_CHECK(inside(got.p, size, buf, n), "buffer.foreign", "block is not inside the buffer");
                VH_CHECK(!up || up->n_alloc == na, "buffer.upstream-bothered", "upstream was asked though the buffer serves");
                in_buffer = static_cast<int>(c.add(got.p, size, align));
                vh::count("from_buffer");
            }
            else if (got.p != nullptr)
            {
                VH_CHECK(up != nullptr && size <= up_max, "buffer.foreign", "%zu bytes served though neither source may", size);
                const auto it = up->blocks.find(static_cast<char*>(got.p));
                VH_CHECK(it != up->blocks.end(), "buffer.foreign", "block is neither in the buffer nor from upstream");
                VH_CHECK(it->second.size == size && it->second.align == align, "buffer.upstream-request", "asked upstream for %zu/%zu instead of %zu/%zu", it->second.size, it->second.align, size, align);
                c.add(got.p, size, align);
                vh::count("from_upstream");
                vh::nontrivial();
            }
            else
            {
                VH_CHECK(up == nullptr || size > up_max || size > up_hard || fault, "buffer.spurious-failure", "%zu bytes refused though upstream would serve", size);
            }
        }
        else if (k < 70)
        {
            const std::size_t i  = g.below(c.live.size());
            Client::Block     b  = c.live[i];
            std::size_t       sz = some_size(g, std::max(n, b.size));
            if (sz == 0)
            {
                sz = 1;
            }
            vh::op("reallocate block of %zu (%s) to %zu", b.size, static_cast<int>(i) == in_buffer ? "buffer" : "upstream", sz);
            void* const p = realloc(r, b.p, b.size, sz, b.align);
            if (p != nullptr)
            {
                if (static_cast<int>(i) == in_buffer)
                {
                    VH_CHECK(inside(p, sz, buf, n), "buffer.foreign", "reallocated block is not inside the buffer");
                }
                else
                {
                    const auto it = up->blocks.find(static_cast<char*>(p));
                    VH_CHECK(it != up->blocks.end() && it->second.size == sz, "buffer.foreign", "reallocated block is not from upstream");
                }
                c.regrown(i, p, sz);
                vh::count("reallocated");
            }
            else
            {
                vh::count("reallocation_refused");
                vh::nontrivial();
            }
        }
        else
        {
            const std::size_t i = g.below(c.live.size());
            Client::Block     b = c.live[i];
            vh::op("deallocate block of %zu (%s)", b.size, static_cast<int>(i) == in_buffer ? "buffer" : "upstream");
            c.remove(i);
            const std::size_t nf = up ? up->n_free : 0;
            r.deallocate(b.p, b.size, b.align);
            if (static_cast<int>(i) == in_buffer)
            {
                VH_CHECK(!up || up->n_free == nf, "buffer.given-upstream", "the buffer block went upstream");
                in_buffer = -1;
            }
            else
            {
                VH_CHECK(up->n_free == nf + 1 && up->blocks.find(reinterpret_cast<char*>(b.p)) == up->blocks.end(), "buffer.not-returned", "upstream block was not returned");
                if (static_cast<int>(i) < in_buffer)
                {
                    --in_buffer;
                }
            }
        }
        c.check_all("by an operation on another block");
        VH_CHECK(!up || up->blocks.size() == c.live.size() - (in_buffer >= 0 ? 1 : 0), "buffer.balance", "%zu upstream blocks for %zu client blocks", up ? up->blocks.size() : 0, c.live.size());
        vh::feel(c.live.size() * 2 + (in_buffer >= 0 ? 1 : 0));
    }
    while (!c.live.empty())
    {
        Client::Block b = c.live.back();
        c.remove(c.live.size() - 1);
        r.deallocate(b.p, b.size, b.align);
    }
    if (up)
    {
        up->check_empty("end of case");
    }
}

static void* via_resource(pmr::memory_resource& r, void* p, std::size_t o, std::size_t n, std::size_t a)
{
    return r.reallocate(p, o, n, a);
}

static std::size_t saturated(std::size_t a, std::size_t b)
{
    const std::size_t m = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
    a                   = std::min(a, m);
    b                   = std::min(b, m);
    return b > m - a ? m : a + b;
}

/// A block of one fixed-buffer resource can be released through that resource alone.
static void same(const pmr::memory_resource& r, const pmr::memory_resource& up)
{
    char                                    b[16];
    pmr::UnsynchronizedBufferMemoryResource other(b, sizeof b);
    VH_CHECK(r == r && !(r != r) && r.is_equal(r), "buffer.equal", "a resource is not equal to itself");
    VH_CHECK(r != other && !(other == r) && r != up && !(up == r), "buffer.equal", "equal to an unrelated resource");
}

static void buffer(Rng& g)
{
    const std::size_t n    = g.chance(1, 10) ? 0 : static_cast<std::size_t>(g.chance(1, 3) ? g.range(1, 8) : g.range(1, 200));
    Buffer            mem(n, g.below(2) * 128 + g.below(128));
    vh::MemRes        up(0, static_cast<vh::MemRes::Realloc>(g.below(3)));
    up.heap.slack = g.below(3) * 16;
    if (g.chance(1, 3))
    {
        up.max = static_cast<std::size_t>(g.range(0, 100));
    }
    const std::size_t up_max = g.chance(1, 3) ? NONE : static_cast<std::size_t>(g.range(0, 300));
    const std::size_t hard   = std::min<std::size_t>(up.max, std::size_t(1) << 29);
    const int         kind   = static_cast<int>(g.below(4));
    void* const       base   = n == 0 && g.chance(1, 2) ? nullptr : mem.p;
    if (kind == 0)
    {
        vh::op("buffer of %zu at skew %zu, no upstream", n, mem.skew);
        pmr::UnsynchronizedBufferMemoryResource r(base, n);
        VH_CHECK(r.data() == base && r.size() == n && r.max_size() == saturated(n, 0), "buffer.observers", "");
        same(r, up);
        drive_buffer(g, static_cast<pmr::memory_resource&>(r), base, n, nullptr, 0, 0, via_resource);
    }
    else if (kind == 1)
    {
        vh::op("delegate of %zu at skew %zu, upstream max %zd", n, mem.skew, up_max);
        cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<pmr::memory_resource> r(base, n, &up, up_max);
        VH_CHECK(r.data() == base && r.size() == n && r.max_size() == saturated(n, up_max) && r.upstream_resource() == &up, "buffer.observers", "");
        drive_buffer(g, r, base, n, &up.heap, up_max, hard, [](decltype(r)& d, void* p, std::size_t o, std::size_t s, std::size_t a) { return d.reallocate(p, o, s, a); });
    }
    else
    {
        vh::op("buffer of %zu at skew %zu, upstream max %zd, mode %d", n, mem.skew, up_max, int(up.mode));
        pmr::UnsynchronizedBufferMemoryResource  r0(base, n, &up, up_max);
        same(r0, up);
        if (kind == 2)
        {
            VH_CHECK(r0.data() == base && r0.size() == n && static_cast<pmr::memory_resource&>(r0).max_size() == saturated(n, up_max), "buffer.observers", "");
            drive_buffer(g, static_cast<pmr::memory_resource&>(r0), base, n, &up.heap, up_max, hard, via_resource);
        }
        else
        {
            // Moving the resource takes everything with it.
            pmr::UnsynchronizedBufferMemoryResource r(std::move(r0));
            VH_CHECK(r.data() == base && r.size() == n, "buffer.observers", "");
            same(r, up);
            drive_buffer(g, static_cast<pmr::memory_resource&>(r), base, n, &up.heap, up_max, hard, via_resource);
        }
    }
}

template <std::size_t N>
static void array_of(Rng& g)
{
    vh::MemRes up(0, static_cast<vh::MemRes::Realloc>(g.below(3)));
    up.heap.slack            = g.below(3) * 16;
    const std::size_t up_max = g.chance(1, 3) ? NONE : static_cast<std::size_t>(g.range(0, 300));
    if (g.chance(1, 3))
    {
        vh::op("array of %zu, no upstream", N);
        pmr::UnsynchronizedArrayMemoryResource<N> r;
        VH_CHECK(r.size() == N && inside(r.data(), N, &r, sizeof r), "buffer.observers", "");
        same(r, up);
        drive_buffer(g, static_cast<pmr::memory_resource&>(r), r.data(), N, nullptr, 0, 0, via_resource);
    }
    else
    {
        vh::op("array of %zu, upstream max %zd", N, up_max);
        pmr::UnsynchronizedArrayMemoryResource<N> r(&up, up_max);
        VH_CHECK(r.size() == N && inside(r.data(), N, &r, sizeof r), "buffer.observers", "");
        same(r, up);
        drive_buffer(g, static_cast<pmr::memory_resource&>(r), r.data(), N, &up.heap, up_max, std::size_t(1) << 29, via_resource);
    }
}
static void array(Rng& g)
{
    switch (g.below(4))
    {
    case 0:
        return array_of<1>(g);
    case 1:
        return array_of<7>(g);
    case 2:
        return array_of<64>(g);
    default:
        return array_of<320>(g);
    }
}

#if __cplusplus >= 201703L
/// The delegate over the standard resource type, which cannot reallocate.
struct StdRes : std::pmr::memory_resource
{
    vh::Heap heap;
    void*    do_allocate(std::size_t n, std::size_t a) override
    {
        void* p = heap.get(n, a);
#    if VH_EXC
        if (!p)
            throw std::bad_alloc();
#    endif
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        heap.put(p, n, a);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};
static void delegate_std(Rng& g)
{
    const std::size_t n = static_cast<std::size_t>(g.range(0, 100));
    Buffer            mem(n, g.below(128));
    StdRes            up;
    const std::size_t up_max = g.chance(1, 3) ? NONE : static_cast<std::size_t>(g.range(0, 300));
    vh::op("delegate of %zu at skew %zu over std::pmr, upstream max %zd", n, mem.skew, up_max);
    cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<std::pmr::memory_resource> r(mem.p, n, &up, up_max);
    drive_buffer(g, r, mem.p, n, &up.heap, up_max, std::size_t(1) << 29, [](decltype(r)& d, void* p, std::size_t o, std::size_t s, std::size_t a) -> void* { return d.reallocate(p, o, s, a); });
}
#endif

// ------------------------------------------------------------------------------------------------ monotonic
static void monotonic(Rng& g)
{
    const bool        has = g.chance(2, 3);
    const std::size_t n   = static_cast<std::size_t>(g.chance(1, 6) ? 0 : g.range(0, 300));
    Buffer            mem(has ? n : 0, g.below(128));
    vh::MemRes        up(0, vh::MemRes::REFUSE);
    if (g.chance(1, 3))
    {
        up.max = static_cast<std::size_t>(g.range(0, 700));
    }
    if (g.chance(1, 3))
    {
        up.heap.limit = static_cast<std::size_t>(g.range(0, 2000));
    }
    const bool                                      no_up = has && g.chance(1, 8);
    std::unique_ptr<pmr::deviant::basic_monotonic_buffer_resource> r;
    vh::op("monotonic: buffer %zd at skew %zu, upstream max %zd limit %zd", has ? n : NONE, mem.skew, up.max, up.heap.limit);
#if defined(VH_THREADS)
    const int ctor = 1;  // the default resource is not an object of one thread
#else
    const int ctor = static_cast<int>(g.below(2));
#endif
    if (no_up)
    {
        if (ctor)
            r.reset(new pmr::deviant::basic_monotonic_buffer_resource(mem.p, n));
        else
            r.reset(new pmr::monotonic_buffer_resource(mem.p, n, pmr::null_memory_resource()));
    }
    else if (has)
    {
        if (ctor)
        {
            r.reset(new pmr::monotonic_buffer_resource(mem.p, n, &up));
        }
        else
        {
            auto* old = pmr::set_default_resource(&up);
            r.reset(new pmr::monotonic_buffer_resource(mem.p, n));
            pmr::set_default_resource(old);
        }
    }
    else if (g.chance(1, 2))
    {
        if (ctor)
        {
            r.reset(new pmr::monotonic_buffer_resource(n, &up));
        }
        else
        {
            auto* old = pmr::set_default_resource(&up);
            r.reset(new pmr::monotonic_buffer_resource(n));
            pmr::set_default_resource(old);
        }
    }
    else
    {
        if (ctor)
        {
            r.reset(new pmr::deviant::basic_monotonic_buffer_resource(&up));
        }
        else
        {
            auto* old = pmr::set_default_resource(&up);
            r.reset(new pmr::monotonic_buffer_resource());
            pmr::set_default_resource(old);
        }
    }
    VH_CHECK(r->upstream_resource() == (no_up ? pmr::null_memory_resource() : &up), "mono.upstream", "");
    VH_CHECK(r->is_equal(*r) && !r->is_equal(up), "mono.equal", "");
    const std::size_t up_most = no_up ? 0 : up.max;
    VH_CHECK(r->max_size() >= std::max(has ? n : 0, up_most), "mono.max-size", "max_size() is %zd, below the initial buffer (%zd) or upstream (%zd)", r->max_size(), has ? n : 0, up_most);
    Client    c;
    const int steps = static_cast<int>(g.range(4, 60));
    bool      fresh = true;
    for (int s = 0; s < steps; ++s)
    {
        const std::uint64_t k = g.below(100);
        vh::feel(k);
        if (k < 75)
        {
            const std::size_t align = some_align(g);
            std::size_t       size  = some_size(g, g.chance(1, 2) ? n : 100);
            if (g.chance(1, 25))
            {
                switch (g.below(4))
                {
                case 0:
                    size = NONE - g.below(300);
                    break;
                case 1:
                    size = NONE / 2 + g.below(600) - 300;
                    break;
                case 2:
                    size = NONE / 3 * 2 - g.below(200) + 40;
                    break;
                default:
                    size = (std::size_t(1) << (34 + g.below(28))) - g.below(20);
                }
            }
            const bool fault = g.chance(1, 12);
            if (fault)
            {
                vh::fault().alloc_countdown = 1;
            }
            vh::op("allocate %zd align %zu%s", size, align, fault ? " (upstream will fail)" : "");
            up.heap.budget = 100;
            const std::size_t nb  = up.heap.blocks.size();
            const Got         got = ask(*r, size, align);
            vh::fault().disarm();
            reported(got, "a monotonic resource");
            const std::uintptr_t a   = reinterpret_cast<std::uintptr_t>(mem.p);
            const std::size_t    pad = static_cast<std::size_t>((align - a % align) % align);
            if (has && fresh && size <= n && pad <= n - size)
            {
                VH_CHECK(got.p != nullptr && inside(got.p, size, mem.p, n), "mono.initial-buffer", "%zu bytes fit the fresh initial buffer of %zu but came from elsewhere", size, n);
            }
            if (got.p != nullptr)
            {
                VH_CHECK((has && inside(got.p, size, mem.p, n)) || inside(up.heap, got.p, size), "mono.foreign", "%zu bytes are neither in the initial buffer nor in one upstream block", size);
                VH_CHECK(size <= r->max_size(), "mono.max-size", "%zu bytes served though max_size() is %zu", size, r->max_size());
                c.add(got.p, size, align);
                fresh = false;
                if (up.heap.blocks.size() > 0)
                {
                    vh::nontrivial();
                    vh::count("from_upstream");
                }
                else
                {
                    vh::count("from_buffer");
                }
            }
            else
            {
                // Generously: a plain upstream serves what is small enough.
                VH_CHECK(no_up || fault || up.max != NONE || up.heap.limit != NONE || size > (std::size_t(1) << 24), "mono.spurious-failure", "%zu bytes refused though upstream would serve", size);
            }
            (void) nb;
        }
        else if (k < 92)
        {
            if (c.live.empty())
            {
                continue;
            }
            const std::size_t i  = g.below(c.live.size());
            const auto        nf = up.heap.n_free;
            vh::op("deallocate block of %zu", c.live[i].size);
            r->deallocate(c.live[i].p, c.live[i].size, c.live[i].align);
            VH_CHECK(up.heap.n_free == nf, "mono.deallocate", "deallocation reached upstream");
            // The block stays in the table: its memory must not be handed out again before release().
        }
        else if (k < 97)
        {
            vh::op("release");
            c.check_all("before release");
            r->release();
            up.heap.check_empty("release");
            c.live.clear();
            fresh = true;
            vh::count("releases");
        }
        else if (!c.live.empty())
        {
            const std::size_t i = g.below(c.live.size());
            const auto        b = c.live[i];
            void* const       p = r->reallocate(b.p, b.size, b.size + 8, b.align);
            if (p != nullptr)
            {
                c.regrown(i, p, b.size + 8);
            }
        }
        c.check_all("by an operation on another block");
        vh::feel(c.live.size() * 64 + up.heap.blocks.size());
    }
    c.check_all("at the end");
    r.reset();
    up.heap.check_empty("destruction");
}

// ------------------------------------------------------------------------------------------------ general purpose
static void general(Rng& g)
{
    const int             kind = static_cast<int>(g.below(4));
    pmr::memory_resource* r    = kind == 0 ? pmr::null_memory_resource() : kind == 1 ? pmr::new_delete_resource() : pmr::get_default_resource();
    pmr::deviant::MaxAlignNewDeleteResource own;
    pmr::monotonic_buffer_resource          other;
    vh::MemRes                              mine(3, vh::MemRes::REFUSE);
    if (kind == 3)
    {
        r = &own;
    }
    static const char* const names[] = {"null", "new_delete", "default", "own max-align"};
    vh::op("resource %s", names[kind]);
    VH_CHECK(pmr::null_memory_resource() == pmr::null_memory_resource() && pmr::new_delete_resource() == pmr::new_delete_resource(), "mem.singleton", "");
    VH_CHECK(*r == *r && !(*r != *r) && r->is_equal(*r), "mem.equal", "a resource is not equal to itself");
    VH_CHECK(!(*r == mine) && !(mine == *r) && *r != other, "mem.equal", "equal to an unrelated resource");
    if (kind == 0)
    {
        VH_CHECK(!(*r == *pmr::new_delete_resource()) && r->max_size() == 0, "mem.equal", "null");
    }
    // A second resource which may release the blocks, if they say they are equal.
    pmr::memory_resource* const twins[] = {pmr::new_delete_resource(), pmr::get_default_resource(), &own, pmr::null_memory_resource()};
    Client                      c;
    const int                   steps = static_cast<int>(g.range(4, 40));
    for (int s = 0; s < steps; ++s)
    {
        const std::uint64_t k = g.below(100);
        vh::feel(k);
        if (k < 45 || c.live.empty())
        {
            const std::size_t align = some_align(g);
            std::size_t       size  = some_size(g, g.chance(1, 10) ? 5000 : 100);
            bool              huge  = false;
            if (g.chance(1, 15))
            {
                huge = true;
                size = g.chance(1, 2) ? NONE - g.below(300) : NONE / 2 - g.below(100);
            }
            vh::op("allocate %zd align %zu", size, align);
            const Got got = ask(*r, size, align);
            reported(got, names[kind]);
            vh::feel(got.p != nullptr);
            if (got.p != nullptr)
            {
                VH_CHECK(kind != 0, "mem.null-resource", "the null resource served a request");
                VH_CHECK(!huge, "mem.huge", "%zu bytes served", size);
                c.add(got.p, size, align);
                if (kind != 0)
                {
                    vh::count("served");
                }
            }
            else
            {
                VH_CHECK(kind == 0 || huge || align > alignof(std::max_align_t), "mem.spurious-failure", "%zu bytes aligned to %zu refused", size, align);
            }
        }
        else if (k < 75)
        {
            const std::size_t i     = g.below(c.live.size());
            const auto        b     = c.live[i];
            std::size_t       size  = some_size(g, g.chance(1, 3) ? 3000 : 60);
            std::size_t       align = b.align;
            bool              huge  = false;
            if (size == 0)
            {
                size = 1;
            }
            if (g.chance(1, 12))
            {
                size = NONE - g.below(200);
                huge = true;
            }
            if (g.chance(1, 8))
            {
                align = some_align(g);
            }
            vh::op("reallocate %zu to %zd align %zu", b.size, size, align);
            void* p = nullptr;
#if VH_EXC
            try
            {
                p = r->reallocate(b.p, b.size, size, align);
            } catch (const std::bad_alloc&)
            {
            }
#else
            p = r->reallocate(b.p, b.size, size, align);
#endif
            if (p != nullptr)
            {
                VH_CHECK(!huge, "mem.huge", "reallocated to %zu bytes", size);
                c.live[i].align = align;
                c.regrown(i, p, size);
                vh::nontrivial();
                vh::count("reallocated");
            }
            else
            {
                c.check(b, "by a refused reallocation");
                vh::count("reallocation_refused");
            }
        }
        else
        {
            const std::size_t i = g.below(c.live.size());
            const auto        b = c.live[i];
            c.remove(i);
            pmr::memory_resource* t = twins[g.below(4)];
            if (!(*t == *r && *r == *t))
            {
                t = r;
            }
            vh::op("deallocate %zu", b.size);
            t->deallocate(b.p, b.size, b.align);
        }
        c.check_all("by an operation on another block");
    }
    while (!c.live.empty())
    {
        const auto b = c.live.back();
        c.remove(c.live.size() - 1);
        r->deallocate(b.p, b.size, b.align);
    }
#if !defined(VH_THREADS)
    // The replaceable defaults.
    vh::MemRes a(4, vh::MemRes::REFUSE), d(5, vh::MemRes::REFUSE);
    auto* const nd = pmr::new_delete_resource();
    auto* const df = pmr::get_default_resource();
    VH_CHECK(pmr::set_default_resource(&a) == df && pmr::get_default_resource() == &a, "mem.default", "replacement");
    VH_CHECK(pmr::set_default_resource(&d) == &a && pmr::get_default_resource() == &d, "mem.default", "second replacement");
    VH_CHECK(pmr::set_default_resource(nullptr) == &d && pmr::get_default_resource() == pmr::new_delete_resource(), "mem.default", "null");
    VH_CHECK(pmr::deviant::set_new_delete_resource(&a) == nd && pmr::new_delete_resource() == &a, "mem.new-delete", "replacement");
    VH_CHECK(pmr::set_default_resource(nullptr) == nd && pmr::get_default_resource() == &a, "mem.default", "null restores the general-purpose resource");
    {
        void* p = pmr::get_default_resource()->allocate(24, 8);
        VH_CHECK(a.heap.blocks.size() == 1, "mem.default", "not in use");
        pmr::get_default_resource()->deallocate(p, 24, 8);
    }
    VH_CHECK(pmr::deviant::set_new_delete_resource(nullptr) == &a && pmr::new_delete_resource() == nd, "mem.new-delete", "null");
    VH_CHECK(pmr::set_default_resource(df) == &a && pmr::get_default_resource() == df, "mem.default", "restored");
#endif
}

#if defined(VH_ASAN) && !defined(VH_THREADS)
/// What is given back is given back: the heap does not grow with the number of blocks served over time.
static void released(Rng& g)
{
    pmr::deviant::MaxAlignNewDeleteResource own;
    pmr::memory_resource* const             rs[] = {pmr::new_delete_resource(), pmr::get_default_resource(), &own};
    pmr::memory_resource&                   r    = *rs[g.below(3)];
    const std::size_t                       size = static_cast<std::size_t>(g.range(20000, 60000));
    const int                               n    = 64;
    const bool                              re   = g.chance(1, 2);
    vh::op("%d blocks of %zu%s", n, size, re ? ", reallocated" : "");
    const std::size_t before = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < n; ++i)
    {
        void*       p  = r.allocate(size);
        std::size_t sz = size;
        VH_CHECK(p != nullptr, "mem.spurious-failure", "%zu bytes refused", size);
        std::memset(p, i, size);
        if (re)
        {
            const std::size_t m = static_cast<std::size_t>(g.range(1, 90000));
            void* const       q = r.reallocate(p, size, m, alignof(std::max_align_t));
            if (q != nullptr)
            {
                p  = q;
                sz = m;
            }
        }
        vh::feel(sz);
        r.deallocate(p, sz);
    }
    const std::size_t after = __sanitizer_get_current_allocated_bytes();
    VH_CHECK(after < before + n / 2 * size, "mem.leak", "%zu bytes are held after %d blocks of %zu were given back", after - before, n, size);
    vh::nontrivial();
    vh::count("given_back");
}
#endif

/// The extension traits give defaults for resources without extensions.
static void traits(Rng& g)
{
    vh::MemRes r(0, static_cast<vh::MemRes::Realloc>(g.below(3)));
    r.heap.slack = g.below(64);
    r.max        = static_cast<std::size_t>(g.range(64, 300));
    using Tr     = pmr::deviant::memory_resource_traits<pmr::memory_resource>;
    VH_CHECK(Tr::max_size(r) == r.max, "mem.traits", "max_size");
    const std::size_t n = static_cast<std::size_t>(g.range(1, 60)), m = static_cast<std::size_t>(g.range(1, 60));
    vh::op("traits %zu %zu mode %d", n, m, int(r.mode));
    void* p = r.allocate(n, 8);
    std::memset(p, 0x5A, n);
    const auto  calls = r.heap.n_realloc;
    void* const q     = Tr::reallocate(r, p, n, m, 8);
    VH_CHECK(r.mode == vh::MemRes::REFUSE || r.heap.n_realloc == calls + 1, "mem.traits", "reallocate not forwarded");
    for (std::size_t i = 0; q != nullptr && i < std::min(n, m); ++i)
    {
        VH_CHECK(static_cast<unsigned char*>(q)[i] == 0x5A, "mem.contents", "");
    }
    r.deallocate(q ? q : p, q ? m : n, 8);
    r.heap.check_empty("end");
#if __cplusplus >= 201703L
    StdRes s;
    using Ts = pmr::deviant::memory_resource_traits<std::pmr::memory_resource>;
    VH_CHECK(Ts::max_size(s) == NONE, "mem.traits", "std");
#endif
    vh::nontrivial();
    vh::feel(n * 64 + m);
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("buffer", 100, buffer);
    vh::suite("array", 50, array);
#if __cplusplus >= 201703L && VH_EXC  // the standard resource must not return null
    vh::suite("delegate_std", 30, delegate_std);
#endif
    vh::suite("monotonic", 100, monotonic);
    vh::suite("general", 50, general);
    vh::suite("traits", 5, traits);
#if defined(VH_ASAN) && !defined(VH_THREADS)
    vh::suite("released", 3, released);
#endif
    return vh::finish();
}

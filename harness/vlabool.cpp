// Histories of cetl::VariableLengthArray<bool> against a sequence of booleans, with recorded storage.
// -DALLOC=<k> selects the allocator; see vla_mem.hpp.
#include "vh_mr.hpp"
#include <cetl/variable_length_array.hpp>
#include <deque>
#if __cplusplus >= 201703L
#    include <memory_resource>
#endif
#ifndef ALLOC
#    define ALLOC 0
#endif

using vh::Rng;
using T = unsigned char;  // what the storage is made of
#include "vla_mem.hpp"

using Arr  = cetl::VariableLengthArray<bool, A>;
using Bits = std::vector<char>;

enum Profile
{
    PLAIN,
    LIMITS,
    LONG
};
static Profile profile = PLAIN;

struct Model
{
    Bits        v;
    std::size_t bound = std::size_t(-1) - 7;
    int         heap  = 0;
};
struct Slot
{
    std::unique_ptr<Arr> a;
    Model                m;
};
constexpr int NSLOT = 4;

struct World
{
    Mem         mem;
    Slot        s[NSLOT];
    bool        faulty   = false;
    std::size_t failures = 0;
    Rng&        g;

    explicit World(Rng& rng)
        : mem(rng)
        , g(rng)
    {
        if (ALLOC == 0)
        {
            limit();
        }
    }
#if ALLOC == 0
    void limit()
    {
        for (int i = 0; i < NHEAP; ++i)
        {
            if (g.chance(1, 6))
            {
                mem.r[i]->max = g.below(6);
            }
        }
    }
#else
    void limit() {}
#endif
    std::size_t max_of(const Model& m)
    {
        const std::size_t hard  = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
        const std::size_t bytes = std::min(std::min(hard, mem.amax(m.heap)), (std::size_t(-1) - 7) / 8);
        return std::min(m.bound, bytes * 8);
    }

    void check_slot(int i)
    {
        const Arr&        a = *s[i].a;
        Arr&              b = *s[i].a;
        const Model&      m = s[i].m;
        const std::size_t n = m.v.size();
        VH_CHECK(a.size() == n, "bits.size", "slot %d size %zu, expected %zu", i, a.size(), n);
        VH_CHECK(a.empty() == m.v.empty(), "bits.empty", "slot %d", i);
        VH_CHECK(a.size() <= a.capacity(), "bits.size-capacity", "slot %d size %zu capacity %zu", i, a.size(), a.capacity());
        VH_CHECK(a.max_size() == max_of(m), "bits.max-size", "slot %d max_size %zu, expected %zu", i, a.max_size(), max_of(m));
        VH_CHECK(a.capacity() <= a.max_size(), "bits.capacity-max", "slot %d capacity %zu max_size %zu", i, a.capacity(), a.max_size());
        VH_CHECK(a.get_allocator() == mem.alloc(m.heap), "bits.allocator", "slot %d does not use the agreed allocator", i);
        VH_CHECK(static_cast<std::size_t>(a.cend() - a.cbegin()) == n, "bits.range", "slot %d cend-cbegin", i);
        VH_CHECK(static_cast<std::size_t>(b.end() - b.begin()) == n, "bits.range", "slot %d end-begin", i);
        for (std::size_t k = 0; k < n; ++k)
        {
            const bool want = m.v[k] != 0;
            VH_CHECK(a[k] == want, "bits.value", "slot %d bit %zu is %d", i, k, int(a[k]));
            VH_CHECK(static_cast<bool>(b[k]) == want, "bits.value", "slot %d mutable bit %zu", i, k);
            VH_CHECK(Arr::test(a, k) == want, "bits.value", "slot %d test(%zu)", i, k);
            VH_CHECK((~b[k]) == !want, "bits.invert", "slot %d bit %zu", i, k);
        }
        std::size_t k = 0;
        for (const bool x : a)
        {
            VH_CHECK(k < n && x == (m.v[k] != 0), "bits.iterate", "slot %d bit %zu", i, k);
            ++k;
        }
        VH_CHECK(k == n, "bits.iterate", "slot %d: %zu steps over %zu bits", i, k, n);
        k = 0;
        for (auto it = b.begin(); it != b.end(); it++)
        {
            VH_CHECK(k < n && static_cast<bool>(*it) == (m.v[k] != 0), "bits.iterate", "slot %d mutable bit %zu", i, k);
            ++k;
        }
        VH_CHECK(k == n, "bits.iterate", "slot %d", i);
        if (n > 0)
        {
            VH_CHECK(a.front() == (m.v[0] != 0) && static_cast<bool>(b.front()) == (m.v[0] != 0), "bits.front", "slot %d", i);
            VH_CHECK(a.back() == (m.v[n - 1] != 0) && static_cast<bool>(b.back()) == (m.v[n - 1] != 0), "bits.back", "slot %d", i);
        }
        VH_CHECK(!Arr::test(a, n) && !Arr::test(a, n + 1), "bits.test-outside", "slot %d", i);
    }
    void check_all()
    {
        std::size_t arrays = 0, full = 0, owned = 0, cap[NHEAP] = {}, have[NHEAP] = {};
        for (int i = 0; i < NSLOT; ++i)
        {
            if (s[i].a)
            {
                check_slot(i);
                ++arrays;
                full += s[i].a->capacity() > 0 ? 1 : 0;
                cap[s[i].m.heap] += (s[i].a->capacity() + 7) / 8;
            }
        }
        if (HEAPED)
        {
            for (int h = 0; h < NHEAP; ++h)
            {
                owned += mem.heap(h).blocks.size();
                for (auto& b : mem.heap(h).blocks)
                {
                    have[h] += b.second.size;
                }
                VH_CHECK(cap[h] <= have[h], "bits.capacity-owned", "heap %d: arrays claim %zu bytes, have %zu", h, cap[h], have[h]);
            }
            VH_CHECK(owned >= full && owned <= arrays, "bits.blocks", "%zu live blocks for %zu arrays (%zu with capacity)", owned, arrays, full);
        }
    }
    void compare_all()
    {
        for (int i = 0; i < NSLOT; ++i)
        {
            for (int j = 0; j < NSLOT; ++j)
            {
                if (s[i].a && s[j].a)
                {
                    const bool want = s[i].m.v == s[j].m.v;
                    VH_CHECK((*s[i].a == *s[j].a) == want, "bits.equal", "slots %d %d", i, j);
                    VH_CHECK((*s[i].a != *s[j].a) == !want, "bits.not-equal", "slots %d %d", i, j);
                    if (want && i != j && s[i].m.v.size() > 0)
                    {
                        vh::count("equal_pairs");
                    }
                }
            }
        }
    }
    Bits real(int i)
    {
        Bits r;
        for (std::size_t k = 0; k < s[i].a->size(); ++k)
        {
            r.push_back((*static_cast<const Arr&>(*s[i].a).begin() , static_cast<const Arr&>(*s[i].a)[k]) ? 1 : 0);
        }
        return r;
    }
    void resync(int i)
    {
        const Arr& a = *s[i].a;
        VH_CHECK(a.size() <= a.capacity() && a.capacity() <= a.max_size(), "bits.size-capacity", "slot %d after failure", i);
        s[i].m.v = real(i);
        for (int h = 0; h < NHEAP; ++h)
        {
            if (a.get_allocator() == mem.alloc(h))
            {
                s[i].m.heap = h;
            }
        }
    }
    /// The outcome of an operation meant to turn `before` into `want`, where at least `keep` leading bits are certain.
    void outcome(int i, const Bits& before, Bits want, bool ok, const char* what, bool strong)
    {
        Model& m = s[i].m;
        if (VH_EXC)
        {
            if (ok)
            {
                m.v = std::move(want);
                return;
            }
            ++failures;
            const Bits now = real(i);
            if (strong)
            {
                VH_CHECK(now == before, "bits.strong", "slot %d: failed %s changed the contents", i, what);
            }
            resync(i);
            return;
        }
        const std::size_t got = s[i].a->size();
        VH_CHECK(got >= (strong ? std::min(before.size(), want.size()) : 0) && got <= want.size(), "bits.noexc-size", "%s: size %zu, had %zu, wanted %zu", what, got, before.size(), want.size());
        if (got != want.size())
        {
            VH_CHECK(faulty || want.size() > max_of(m), "bits.spurious-failure", "%s reached %zu of %zu", what, got, want.size());
            ++failures;
        }
        want.resize(got);
        m.v = std::move(want);
    }
    void finish()
    {
        for (int i = 0; i < NSLOT; ++i)
        {
            s[i].a.reset();
        }
        if (HEAPED)
        {
            for (int i = 0; i < NHEAP; ++i)
            {
                mem.heap(i).check_empty("end of case");
            }
        }
    }
};

#if VH_EXC
#    define TRY(stmt)                                                                                                  \
        bool ok = true;                                                                                                \
        try                                                                                                            \
        {                                                                                                              \
            stmt;                                                                                                      \
        } catch (const std::bad_alloc&)                                                                                \
        {                                                                                                              \
            ok = false;                                                                                                \
        }                                                                                                              \
        VH_CHECK(ok || w.faulty, "bits.spurious-failure", "operation failed though memory suffices");
#    define REFUSED(stmt)                                                                                              \
        {                                                                                                              \
            bool refused = false;                                                                                      \
            try                                                                                                        \
            {                                                                                                          \
                stmt;                                                                                                  \
            } catch (const std::length_error&)                                                                         \
            {                                                                                                          \
                refused = true;                                                                                        \
            }                                                                                                          \
            VH_CHECK(refused, "bits.not-refused", "request beyond max_size not refused with a length error");          \
            vh::count("refused");                                                                                      \
        }
#else
#    define TRY(stmt)                                                                                                  \
        bool ok = true;                                                                                                \
        stmt;
#    define REFUSED(stmt) stmt;
#endif

static Bits random_bits(Rng& g, std::size_t n)
{
    Bits              r;
    const std::size_t bias = g.below(5);  // 0: all clear, 4: all set
    for (std::size_t i = 0; i < n; ++i)
    {
        r.push_back(g.below(4) < bias ? 1 : 0);
    }
    return r;
}
static std::size_t some_bound(Rng& g)
{
    return static_cast<std::size_t>(g.chance(1, 3) ? g.range(0, 9) : g.range(0, profile == LIMITS ? 30 : profile == LONG ? 6000 : 300));
}
static std::size_t some_count(Rng& g, std::size_t max)
{
    if (profile == LIMITS && max < 1000 && g.chance(1, 2))
    {
        const std::size_t n = max + g.below(4);
        return n >= 2 ? n - g.below(3) : n;
    }
    if (profile == LONG && g.chance(2, 3))
    {
        return static_cast<std::size_t>(g.chance(1, 3) ? 256 * g.range(1, 16) + g.range(-9, 9) : g.range(0, 5000));
    }
    return static_cast<std::size_t>(g.chance(1, 2) ? g.range(0, 20) : g.range(0, 130));
}

static Arr* from_list(const Bits& b, bool bounded, std::size_t bound, const A& al)
{
    const auto v = [&](std::size_t i) { return b[i] != 0; };
    const auto go = [&](std::initializer_list<bool> l) { return bounded ? new Arr(l, bound, al) : new Arr(l, al); };
    switch (b.size())
    {
    case 0:
        return go({});
    case 1:
        return go({v(0)});
    case 3:
        return go({v(0), v(1), v(2)});
    case 8:
        return go({v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7)});
    case 9:
        return go({v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8)});
    default:
        return go({v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8), v(9), v(10), v(11), v(12), v(13), v(14), v(15), v(16)});
    }
}

static void born(World& w, int i, const Model& nm, const Bits& want, bool ok)
{
    if (!ok)
    {
        ++w.failures;
        VH_CHECK(!w.s[i].a, "harness.born", "");
        return;
    }
    w.s[i].m = nm;
    w.outcome(i, {}, want, true, "construction", false);
}

static bool op_construct(World& w, Rng& g, int i)
{
    Slot&     t    = w.s[i];
    const int h    = static_cast<int>(g.below(NHEAP));
    const int kind = static_cast<int>(g.below(10));
    const int j    = static_cast<int>(g.below(NSLOT));
    Model     nm;
    nm.heap = h;
    const bool bounded = profile == LIMITS ? g.chance(4, 5) : g.chance(1, 2);
    if (bounded)
    {
        nm.bound = some_bound(g);
    }
    if (kind < 3 || (kind >= 7 && !w.s[j].a) || (kind >= 7 && j == i))
    {
        vh::op("new#%d bound=%zd heap=%d", i, nm.bound, h);
        t.a.reset(bounded ? new Arr(nm.bound, w.mem.alloc(h)) : new Arr(w.mem.alloc(h)));
        t.m = nm;
        return true;
    }
    if (kind < 7)
    {
        static const std::size_t sizes[] = {0, 1, 3, 8, 9, 17};
        const Bits               src     = random_bits(g, kind == 3 ? sizes[g.below(6)] : some_count(g, w.max_of(nm)));
        vh::op("new#%d kind=%d n=%zu bound=%zd heap=%d", i, kind, src.size(), nm.bound, h);
        std::unique_ptr<bool[]> raw(new bool[src.size() + 1]);
        std::copy(src.begin(), src.end(), raw.get());
        const std::deque<bool> deq(src.begin(), src.end());
        const A                al    = w.mem.alloc(h);
        const auto             build = [&]() -> Arr* {
            switch (kind)
            {
            case 3:
                return from_list(src, bounded, nm.bound, al);
            case 4:
                return bounded ? new Arr(raw.get(), raw.get() + src.size(), nm.bound, al) : new Arr(raw.get(), raw.get() + src.size(), al);
            case 5:
                return bounded ? new Arr(deq.begin(), deq.end(), nm.bound, al) : new Arr(deq.begin(), deq.end(), al);
            default:
                // a range that is the wrong way round is empty
                if (bounded)
                {
                    return src.empty() ? new Arr(raw.get() + 1, raw.get(), nm.bound, al) : new Arr(deq.begin(), deq.end(), nm.bound, al);
                }
                return new Arr(src.begin(), src.end(), al);
            }
        };
        if (src.size() > w.max_of(nm))
        {
            vh::nontrivial();
            REFUSED(t.a.reset(build()));
#if VH_EXC
            return true;
#else
            t.m = nm;
            w.outcome(i, {}, src, true, "construction", false);
            return true;
#endif
        }
        TRY(t.a.reset(build()));
        born(w, i, nm, src, ok);
        return true;
    }
    const Model src = w.s[j].m;
    const bool  own = g.chance(1, 2);
    nm              = src;
    if (kind == 7)
    {
        nm.heap = own ? w.mem.selected(src.heap) : h;
        if (src.v.size() > w.max_of(nm))
        {
            return false;
        }
        vh::op("copy-construct#%d from #%d heap=%d", i, j, nm.heap);
        const Arr& from = *w.s[j].a;
        TRY(t.a.reset(own ? new Arr(from) : new Arr(from, w.mem.alloc(h))));
        born(w, i, nm, src.v, ok);
        vh::nontrivial();
        return true;
    }
    nm.heap = own ? src.heap : h;
    if (src.v.size() > w.max_of(nm))
    {
        return false;
    }
    vh::op("move-construct#%d from #%d heap=%d%s", i, j, nm.heap, own ? "" : " given");
    if (own)
    {
        t.a.reset(new Arr(std::move(*w.s[j].a)));
        t.m        = nm;
        w.s[j].m.v = Bits();
        return true;
    }
    TRY(t.a.reset(new Arr(std::move(*w.s[j].a), w.mem.alloc(h))));
    born(w, i, nm, src.v, ok);
    if (ok && (VH_EXC || t.m.v.size() == src.v.size()))
    {
        w.s[j].m.v = Bits();
    }
    else
    {
        w.resync(j);
    }
    vh::nontrivial();
    return true;
}

static bool op_assign_from(World& w, Rng& g, int i)
{
    Slot&     t = w.s[i];
    const int j = static_cast<int>(g.below(NSLOT));
    if (!w.s[j].a)
    {
        return false;
    }
    const bool move = g.chance(1, 2);
    if (i == j)
    {
        vh::op("self-%s-assign#%d", move ? "move" : "copy", i);
        Arr& alias = *t.a;
        if (move)
        {
            *t.a = std::move(alias);
        }
        else
        {
            *t.a = static_cast<const Arr&>(alias);
        }
        return true;
    }
    const Model src = w.s[j].m;
    Model       nm  = src;
    nm.heap         = (move ? POCMA : POCCA) ? src.heap : t.m.heap;
    if (src.v.size() > w.max_of(nm))
    {
        return false;
    }
    vh::op("%s-assign#%d from #%d", move ? "move" : "copy", i, j);
    vh::nontrivial();
    TRY(if (move) { *t.a = std::move(*w.s[j].a); } else { *t.a = static_cast<const Arr&>(*w.s[j].a); });
    t.m.bound = nm.bound;
    if (ok)
    {
        t.m.heap = nm.heap;
    }
    w.outcome(i, {}, src.v, ok, "assignment", false);
    if (move)
    {
        if (ok && (VH_EXC || t.m.v.size() == src.v.size()))
        {
            w.s[j].m.v = Bits();
        }
        else
        {
            w.resync(j);
        }
    }
    return true;
}

static bool op_swap(World& w, Rng& g, int i)
{
    const int j = static_cast<int>(g.below(NSLOT));
    if (w.faulty || i == j || !w.s[j].a)
    {
        return false;
    }
    const Model a = w.s[i].m, b = w.s[j].m;
    Model       na = b, nb = a;
    na.heap = POCMA ? b.heap : a.heap;
    nb.heap = POCMA ? a.heap : b.heap;
    if (b.v.size() > w.max_of(na) || a.v.size() > w.max_of(nb))
    {
        return false;
    }
    vh::op("swap#%d #%d", i, j);
    std::swap(*w.s[i].a, *w.s[j].a);
    w.s[i].m = na;
    w.s[j].m = nb;
    return true;
}

static std::size_t allocs(World& w)
{
    std::size_t n = 0;
    for (int i = 0; i < NHEAP; ++i)
    {
        n += w.mem.heap(i).n_alloc + w.mem.heap(i).n_realloc;
    }
    return n;
}

static bool op_append(World& w, Rng& g, int i)
{
    Slot&             t      = w.s[i];
    const int         kind   = static_cast<int>(g.below(3));
    const bool        bit    = g.chance(1, 2);
    std::size_t       times  = g.chance(1, 3) ? 1 + g.below(20) : 1;
    while (times-- > 0)
    {
        const Bits        before = t.m.v;
        const std::size_t cap = t.a->capacity(), na = allocs(w);
        const bool        full  = before.size() >= w.max_of(t.m);
        const bool        own   = kind == 2 && !before.empty();
        const std::size_t k     = own ? g.below(before.size()) : 0;
        const bool        value = own ? before[k] != 0 : (times % 3 == 1 ? !bit : bit);
        Bits              want  = before;
        want.push_back(value ? 1 : 0);
        vh::op("append#%d %d kind=%d", i, int(value), kind);
        const auto run = [&] {
            if (own)
            {
                t.a->push_back((*t.a)[k]);
            }
            else if (kind == 0)
            {
                t.a->push_back(value);
            }
            else
            {
                t.a->emplace_back(value);
            }
        };
        if (full)
        {
            vh::nontrivial();
            REFUSED(run());
            w.outcome(i, before, VH_EXC ? before : want, true, "append", true);
            continue;
        }
        TRY(run());
        w.outcome(i, before, want, ok, "append", true);
        if (before.size() < cap)
        {
            VH_CHECK(t.m.v.size() == want.size() && allocs(w) == na, "bits.reserved", "slot %d: capacity %zu was not usable at size %zu", i, cap, before.size());
        }
    }
    return true;
}

static bool op_resize(World& w, Rng& g, int i)
{
    Slot&             t      = w.s[i];
    const Bits        before = t.m.v;
    const std::size_t max    = w.max_of(t.m);
    std::size_t       n      = some_count(g, max);
    const int         kind   = static_cast<int>(g.below(3));
    const bool        bit    = kind == 0 ? false : g.chance(1, 2);
    if (g.chance(1, 30))
    {
        n = std::size_t(-1) - g.below(20);
    }
    if (n > 100000 && max > 100000)
    {
        n = 7;  // no need to ask for all the memory
    }
    vh::op("%s#%d n=%zd value=%d kind=%d", kind == 2 ? "assign" : "resize", i, n, int(bit), kind);
    const auto run = [&] {
        if (kind == 0)
        {
            t.a->resize(n);
        }
        else if (kind == 1)
        {
            t.a->resize(n, bit);
        }
        else
        {
            t.a->assign(n, bit);
        }
    };
    if (n % 8 != 0)
    {
        vh::nontrivial();
    }
    if (n > max)
    {
        vh::nontrivial();
        REFUSED(run());
        if (VH_EXC)
        {
            return true;
        }
        n = max;  // without exceptions: as much as possible
    }
    else
    {
        TRY(run());
        if (VH_EXC && !ok)
        {
            w.outcome(i, before, before, false, "resize", kind != 2);
            return true;
        }
    }
    Bits want = kind == 2 ? Bits() : before;
    want.resize(n, bit ? 1 : 0);
    w.outcome(i, before, want, true, "resize", kind != 2);
    return true;
}

static bool op_capacity(World& w, Rng& g, int i)
{
    Slot&             t      = w.s[i];
    const Bits        before = t.m.v;
    const std::size_t max    = w.max_of(t.m);
    if (g.chance(1, 3))
    {
        vh::op("shrink_to_fit#%d", i);
        t.a->shrink_to_fit();
        if (!w.faulty)
        {
            VH_CHECK(t.a->capacity() <= std::min((before.size() + 7) / 8 * 8, max), "bits.shrink", "slot %d capacity %zu for %zu bits", i, t.a->capacity(), before.size());
        }
        return true;
    }
    std::size_t n = some_count(g, max);
    if (g.chance(1, 20))
    {
        n = std::size_t(-1) - g.below(20);
    }
    if (n > 100000 && max > 100000)
    {
        n = 9;
    }
    vh::op("reserve#%d %zd", i, n);
    if (n > max)
    {
        vh::nontrivial();
        REFUSED(t.a->reserve(n));
        return true;
    }
    TRY(t.a->reserve(n));
    if (!ok)
    {
        ++w.failures;
        VH_CHECK(w.real(i) == before, "bits.strong", "slot %d: failed reserve changed the contents", i);
        return true;
    }
    if (!w.faulty)
    {
        VH_CHECK(t.a->capacity() >= n, "bits.reserve", "slot %d capacity %zu after reserve(%zu)", i, t.a->capacity(), n);
    }
    return true;
}

static bool op_write(World& w, Rng& g, int i)
{
    Slot& t = w.s[i];
    Arr&  a = *t.a;
    Bits& v = t.m.v;
    if (v.empty())
    {
        Arr::set(a, g.below(3), g.chance(1, 2));  // no effect
        return true;
    }
    const std::size_t k = g.below(v.size()), l = g.below(v.size());
    const bool        bit = g.chance(1, 2);
    const int         kind = static_cast<int>(g.below(13));
    const auto        diff = static_cast<std::ptrdiff_t>(k);
    vh::op("write#%d [%zu] kind=%d %d", i, k, kind, int(bit));
    switch (kind)
    {
    case 0:
        a[k] = bit;
        v[k] = bit;
        break;
    case 1:
        Arr::set(a, k, bit);
        v[k] = bit;
        break;
    case 2:
        a[k].flip();
        v[k] = !v[k];
        break;
    case 3:
        *(a.begin() + diff) = bit;
        v[k]                = bit;
        break;
    case 4:
        a.begin()[diff] = bit;
        v[k]            = bit;
        break;
    case 5:
        *(a.end() - (a.end() - a.begin() - diff)) = bit;
        v[k]                                      = bit;
        break;
    case 6:
        a.front() = bit;
        v.front() = bit;
        break;
    case 7:
        a.back() = bit;
        v.back() = bit;
        break;
    case 8:
        a[k] = a[l];  // reference to reference
        v[k] = v[l];
        break;
    case 9:
    {
        auto it = a.begin();
        it += diff;
        it -= diff;
        it += diff;
        *it  = bit;
        v[k] = bit;
        break;
    }
    case 10:
        Arr::set(a, v.size() + g.below(20), bit);  // outside: no effect
        break;
    case 11:
        Arr::set(a, k);
        v[k] = 1;
        break;
    default:
#if VH_EXC
        a.at(k) = bit;
        v[k]    = bit;
#endif
        break;
    }
    VH_CHECK((a[k] == a[l]) == ((v[k] != 0) == (v[l] != 0)), "bits.reference-compare", "bits %zu %zu", k, l);
    VH_CHECK((a[k] != a[l]) == ((v[k] != 0) != (v[l] != 0)), "bits.reference-compare", "bits %zu %zu", k, l);
    return true;
}

template <typename It, typename C>
static void iterators(It b, It e, const Bits& v, Rng& g, const C&)
{
    const auto n = static_cast<std::ptrdiff_t>(v.size());
    const auto x = static_cast<std::ptrdiff_t>(g.below(v.size() + 1)), y = static_cast<std::ptrdiff_t>(g.below(v.size() + 1));
    const It   p = b + x, q = b + y;
    VH_CHECK(p - q == x - y && e - b == n, "bits.iterator", "difference %td %td", x, y);
    VH_CHECK((p == q) == (x == y) && (p != q) == (x != y), "bits.iterator", "equality %td %td", x, y);
    VH_CHECK((p < q) == (x < y) && (p > q) == (x > y) && (p <= q) == (x <= y) && (p >= q) == (x >= y), "bits.iterator", "order %td %td", x, y);
    VH_CHECK(p + (y - x) == q && q - (y - x) == p && e - (n - x) == p, "bits.iterator", "arithmetic %td %td", x, y);
    It r = p;
    r += y - x;
    VH_CHECK(r == q, "bits.iterator", "+=");
    r -= y - x;
    VH_CHECK(r == p, "bits.iterator", "-=");
    if (x < n)
    {
        It s = p;
        VH_CHECK(static_cast<bool>(*s) == (v[static_cast<std::size_t>(x)] != 0), "bits.iterator", "*");
        VH_CHECK(s++ == p && s == p + 1, "bits.iterator", "++");
        VH_CHECK(s-- == p + 1 && s == p, "bits.iterator", "--");
        VH_CHECK(++s == p + 1 && --s == p, "bits.iterator", "prefix");
        if (y < n)
        {
            VH_CHECK(static_cast<bool>(s[y - x]) == (v[static_cast<std::size_t>(y)] != 0), "bits.iterator", "[]");
            const It c = s;
            VH_CHECK(static_cast<bool>(c[y - x]) == (v[static_cast<std::size_t>(y)] != 0) && static_cast<bool>(*c) == (v[static_cast<std::size_t>(x)] != 0), "bits.iterator", "const []");
        }
    }
}

static bool op_look(World& w, Rng& g, int i)
{
    Slot& t = w.s[i];
    Arr&  a = *t.a;
    vh::op("look#%d", i);
    iterators(a.begin(), a.end(), t.m.v, g, 0);
    iterators(a.cbegin(), a.cend(), t.m.v, g, 0);
    iterators(static_cast<const Arr&>(a).begin(), static_cast<const Arr&>(a).end(), t.m.v, g, 0);
#if VH_EXC
    const std::size_t k     = t.m.v.size() + (g.chance(1, 3) ? std::size_t(-1) / 2 : g.below(9));
    int               count = 0;
    try
    {
        (void) a.at(k);
    } catch (const std::out_of_range&)
    {
        ++count;
    }
    try
    {
        (void) static_cast<const Arr&>(a).at(k);
    } catch (const std::out_of_range&)
    {
        ++count;
    }
    VH_CHECK(count == 2, "bits.at", "at(%zu) of %zu", k, t.m.v.size());
    if (!t.m.v.empty())
    {
        const std::size_t l = g.below(t.m.v.size());
        VH_CHECK(static_cast<bool>(a.at(l)) == (t.m.v[l] != 0) && static_cast<const Arr&>(a).at(l) == (t.m.v[l] != 0), "bits.at", "at(%zu)", l);
    }
#endif
    return true;
}

static bool step(World& w, Rng& g)
{
    const int      i = static_cast<int>(g.below(NSLOT));
    const unsigned k = static_cast<unsigned>(g.below(100));
    vh::feel(k * 8 + static_cast<unsigned>(i));
    if (!w.s[i].a)
    {
        return op_construct(w, g, i);
    }
    if (k < 6)
    {
        vh::op("delete#%d", i);
        w.s[i].a.reset();
        return true;
    }
    if (k < 18)
        return op_assign_from(w, g, i);
    if (k < 22)
        return op_swap(w, g, i);
    if (k < 42)
        return op_append(w, g, i);
    if (k < 50)
    {
        for (std::size_t n = g.chance(1, 3) ? g.below(20) : 1; n > 0; --n)
        {
            vh::op("pop#%d", i);
            w.s[i].a->pop_back();
            if (!w.s[i].m.v.empty())
            {
                w.s[i].m.v.pop_back();
            }
        }
        return true;
    }
    if (k < 64)
        return op_resize(w, g, i);
    if (k < 74)
        return op_capacity(w, g, i);
    if (k < 76)
    {
        vh::op("clear#%d", i);
        const std::size_t cap = w.s[i].a->capacity();
        w.s[i].a->clear();
        VH_CHECK(w.s[i].a->capacity() == cap, "bits.clear", "clear changed the capacity");
        w.s[i].m.v.clear();
        return true;
    }
    if (k < 90)
        return op_write(w, g, i);
    if (k < 94)
        return op_look(w, g, i);
    if (k < 97)
    {
        // Make two arrays equal along different paths: unused bits of the storage differ.
        const int j = static_cast<int>(g.below(NSLOT));
        if (!w.s[j].a || i == j)
        {
            return false;
        }
        vh::op("retrace#%d as #%d", j, i);
        const Bits want = w.s[i].m.v;
        if (want.size() + 9 > w.max_of(w.s[j].m) || w.faulty)
        {
            return false;
        }
        w.s[j].a->assign(want.size() + g.below(9), g.chance(1, 2));
        const int way = static_cast<int>(g.below(3));
        if (way == 0)
        {
            w.s[j].a->resize(want.size());
            for (std::size_t n = 0; n < want.size(); ++n)
            {
                (*w.s[j].a)[n] = want[n] != 0;
            }
        }
        else if (way == 1)
        {
            w.s[j].a->clear();
            for (char c : want)
            {
                w.s[j].a->push_back(c != 0);
            }
        }
        else
        {
            for (std::size_t n = 0; n < want.size(); ++n)
            {
                Arr::set(*w.s[j].a, n, want[n] != 0);
            }
            while (w.s[j].a->size() > want.size())
            {
                w.s[j].a->pop_back();
            }
        }
        w.s[j].m.v = want;
        vh::nontrivial();
        VH_CHECK(*w.s[i].a == *w.s[j].a, "bits.equal", "equal bits along different paths");
        if (!want.empty())
        {
            const std::size_t n = g.below(want.size());
            (*w.s[j].a)[n].flip();
            VH_CHECK(*w.s[i].a != *w.s[j].a, "bits.equal", "bit %zu of %zu differs", n, want.size());
            (*w.s[j].a)[n].flip();
        }
        return true;
    }
    vh::op("compare");
    w.compare_all();
    return true;
}

static void after(World& w)
{
    w.check_all();
    for (int k = 0; k < NSLOT; ++k)
    {
        vh::feel(w.s[k].a ? w.s[k].a->size() * 4096 + w.s[k].a->capacity() : 999999);
    }
}

static void history(Rng& g)
{
    World     w(g);
    const int n = static_cast<int>(g.range(8, 60));
    for (int i = 0; i < n; ++i)
    {
        step(w, g);
        after(w);
    }
    w.compare_all();
    w.finish();
}

static void starved(Rng& g)
{
    World w(g);
    w.faulty = true;
    for (int i = 0; i < NHEAP; ++i)
    {
        if (g.chance(2, 3))
        {
            w.mem.heap(i).limit = static_cast<std::size_t>(g.range(0, 16));
        }
    }
    const int n = static_cast<int>(g.range(8, 60));
    for (int i = 0; i < n; ++i)
    {
        if (g.chance(1, 5))
        {
            vh::fault().alloc_countdown = 1 + g.below(2);
            vh::fault().sticky_alloc    = g.chance(1, 2);
        }
        step(w, g);
        vh::fault().disarm();
        after(w);
    }
    if (w.failures)
    {
        vh::nontrivial();
        vh::count("failed_operations", w.failures);
    }
    w.compare_all();
    w.finish();
}

/// One operation with its k-th allocation failing, for every k.
static void faults(Rng& g)
{
    const std::uint64_t s0     = g.next();
    const int           prefix = static_cast<int>(g.range(2, 22));
    std::uint64_t       points = 0;
    for (std::uint64_t k = 1; k <= 40; ++k)
    {
        Rng   r(s0);
        World w(r);
        for (int i = 0; i < prefix; ++i)
        {
            step(w, r);
        }
        w.check_all();
        w.faulty             = true;
        vh::Fault& f         = vh::fault();
        const auto was       = f.fired;
        bool       done      = false;
        f.sticky_alloc       = r.chance(1, 2);
        f.alloc_countdown    = k;
        for (int tries = 0; tries < 30 && !done; ++tries)
        {
            step(w, r);
            done = f.alloc_countdown != k;
        }
        f.disarm();
        w.faulty         = false;
        const bool fired = f.fired != was;
        w.check_all();
        if (fired)
        {
            ++points;
            vh::nontrivial();
            vh::feel(k);
        }
        for (int i = 0; i < 6; ++i)
        {
            step(w, r);
            w.check_all();
        }
        w.compare_all();
        w.finish();
        if (!fired)
        {
            break;
        }
    }
    vh::count("allocation_fault_points", points);
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("history", 100, history);
    profile = LONG;
    vh::suite("long", 2, history);
    profile = LIMITS;
    vh::suite("limits", 100, history);
    vh::suite("starved", 60, starved);
    vh::suite("faults", 40, faults);
    return vh::finish();
}

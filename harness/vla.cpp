// Histories of cetl::VariableLengthArray against a sequence model, with recorded storage and element lifetimes.
// -DELEM=<k> -DALLOC=<k> select the element type and the allocator; see below.
// Suites: "history" (no faults), "faults" (enumerated faults; needs exceptions), "starved" (memory runs out).
#include "vh_fwd.hpp"
#include "vh_mr.hpp"
#include <cetl/variable_length_array.hpp>
#include <string>
#include <list>
#if __cplusplus >= 201703L
#    include <memory_resource>
#endif

#ifndef ELEM
#    define ELEM 1
#endif
#ifndef ALLOC
#    define ALLOC 0
#endif

using vh::Rng;
using I64 = std::int64_t;

struct alignas(32) Triv32
{
    I64 a;
    I64 b;
    friend bool operator==(const Triv32& x, const Triv32& y)
    {
        return x.a == y.a;
    }
};

#if ELEM == 0
using T = int;
#elif ELEM == 1
using T = vh::Elem<15>;
#elif ELEM == 2
using T = vh::Elem<11>;
#elif ELEM == 3
using T = vh::Elem<14>;
#elif ELEM == 4
using T = vh::Elem<10>;
#elif ELEM == 5
using T = vh::Elem<9>;
#elif ELEM == 6
using T = vh::Elem<31>;
#elif ELEM == 7
using T = std::string;
#elif ELEM == 8
using T = Triv32;
#elif ELEM == 9
using T = unsigned char;
#elif ELEM == 10
using T = vh::Elem<79>;
#endif

inline I64 val(int x)
{
    return x;
}
inline I64 val(unsigned char x)
{
    return x;
}
inline I64 val(const Triv32& x)
{
    return x.a == x.b ? x.a : -5;
}
inline I64 val(const std::string& s)
{
    return s.empty() ? 0 : std::strtoll(s.c_str(), nullptr, 10);
}
template <int F, int G>
I64 val(const vh::Elem<F, G>& e)
{
    return e.value();
}
template <typename U>
struct Mk
{
    static U make(I64 v)
    {
        return U(v);
    }
};
template <>
struct Mk<int>
{
    static int make(I64 v)
    {
        return static_cast<int>(v);
    }
};
template <>
struct Mk<unsigned char>
{
    static unsigned char make(I64 v)
    {
        return static_cast<unsigned char>(v);
    }
};
template <>
struct Mk<Triv32>
{
    static Triv32 make(I64 v)
    {
        return Triv32{v, v};
    }
};
template <>
struct Mk<std::string>
{
    static std::string make(I64 v)
    {
        if (v == 0)
        {
            return std::string();
        }
        std::string s = std::to_string(v);
        if (v % 2)
        {
            s += "-a-tail-that-does-not-fit-in-the-small-buffer";
        }
        return s;
    }
};

/// What a workload concentrates on.
enum Profile
{
    PLAIN,
    LIMITS,
    TRANSFER,
    LARGE
};
static Profile profile = PLAIN;

/// A number of elements, much larger in suite large.
static std::size_t many(Rng& g, std::size_t n)
{
    return g.below(profile == LARGE && g.chance(1, 2) ? n * 60 : n);
}

#include "vla_mem.hpp"

using Arr = cetl::VariableLengthArray<T, A>;

struct Model
{
    std::vector<I64> v;
    std::size_t      bound = std::size_t(-1);
    int              heap  = 0;
};
struct Slot
{
    std::unique_ptr<Arr> a;
    Model                m;
};

constexpr int NSLOT = 4;

// An iterator over values for the range constructor which is not a pointer.
struct World
{
    Mem         mem;
    Slot        s[NSLOT];
    I64         next_value = 100;
    bool        faulty     = false;  // faults may fire: failed operations are accepted
    int         fault_op   = -1;
    std::size_t failures   = 0;

    explicit World(Rng& g)
        : mem(g)
    {
    }
    I64 fresh()
    {
        ++next_value;
        return ELEM == 9 ? (next_value % 251) : next_value;
    }

    static std::size_t hard_max()
    {
        return static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / sizeof(T);
    }
    std::size_t max_of(const Model& m)
    {
        std::size_t am = std::min(mem.amax(m.heap), std::size_t(-1) / sizeof(T));
        return std::min(m.bound, std::min(hard_max(), am));
    }

    void check_slot(int i)
    {
        Slot&      t = s[i];
        const Arr& a = *t.a;
        Arr&       b = *t.a;
        Model&     m = t.m;
        VH_CHECK(a.size() == m.v.size(), "vla.size", "slot %d size %zu, expected %zu", i, a.size(), m.v.size());
        VH_CHECK(a.empty() == m.v.empty(), "vla.empty", "slot %d", i);
        VH_CHECK(a.size() <= a.capacity(), "vla.size-capacity", "slot %d size %zu capacity %zu", i, a.size(), a.capacity());
        VH_CHECK(a.max_size() == max_of(m), "vla.max-size", "slot %d max_size %zu, expected %zu", i, a.max_size(), max_of(m));
        VH_CHECK(a.capacity() <= a.max_size(), "vla.capacity-max", "slot %d capacity %zu max_size %zu", i, a.capacity(), a.max_size());
        VH_CHECK(a.get_allocator() == mem.alloc(m.heap), "vla.allocator", "slot %d does not use the agreed allocator", i);
        const std::size_t n = m.v.size();
        VH_CHECK(static_cast<std::size_t>(a.cend() - a.cbegin()) == n, "vla.range", "slot %d cend-cbegin", i);
        VH_CHECK(static_cast<std::size_t>(b.end() - b.begin()) == n, "vla.range", "slot %d end-begin", i);
        VH_CHECK(a.begin() == a.cbegin() && a.end() == a.cend(), "vla.range", "slot %d const begin/end", i);
        std::size_t k = 0;
        for (const T& x : a)
        {
            const I64 got = val(x);
            VH_CHECK(got == m.v[k], "vla.value", "slot %d element %zu is %lld, expected %lld", i, k, (long long) got, (long long) m.v[k]);
            VH_CHECK(&x == &a[k] && &x == &b[k] && &x == a.data() + k && &x == b.data() + k, "vla.access", "slot %d element %zu", i, k);
#if VH_EXC
            VH_CHECK(&a.at(k) == &x && &b.at(k) == &x, "vla.access", "slot %d at(%zu)", i, k);
#endif
            ++k;
        }
        if (n > 0)
        {
            VH_CHECK(&a.front() == &a[0] && &b.front() == &a[0], "vla.access", "slot %d front", i);
            VH_CHECK(&a.back() == &a[n - 1] && &b.back() == &a[n - 1], "vla.access", "slot %d back", i);
        }
        if (HEAPED && a.capacity() > 0)
        {
            vh::Heap&  h  = mem.heap(m.heap);
            const auto it = h.blocks.find(reinterpret_cast<char*>(const_cast<T*>(a.data())));
            VH_CHECK(it != h.blocks.end(), "vla.block", "slot %d: storage is not a live block of its allocator", i);
            VH_CHECK(it->second.size >= a.capacity() * sizeof(T), "vla.block-size", "slot %d: block of %zu bytes, capacity %zu", i, it->second.size, a.capacity());
        }
    }
    void check_all()
    {
        std::size_t total = 0, blocks = 0, owned = 0;
        for (int i = 0; i < NSLOT; ++i)
        {
            if (s[i].a)
            {
                check_slot(i);
                total += s[i].m.v.size();
                blocks += s[i].a->data() != nullptr ? 1 : 0;
            }
        }
        if (HEAPED)
        {
            for (int i = 0; i < NHEAP; ++i)
            {
                owned += mem.heap(i).blocks.size();
            }
            VH_CHECK(owned == blocks, "vla.blocks", "%zu live blocks for %zu arrays with storage", owned, blocks);
        }
        if (is_elem())
        {
            VH_CHECK(vh::registry().live.size() == total, "lifetime.count", "%zu live elements, arrays hold %zu", vh::registry().live.size(), total);
        }
    }
    static bool is_elem()
    {
        return ELEM >= 1 && ELEM != 7 && ELEM != 8 && ELEM != 9;
    }
    void compare_all()
    {
        for (int i = 0; i < NSLOT; ++i)
        {
            for (int j = 0; j < NSLOT; ++j)
            {
                if (s[i].a && s[j].a)
                {
                    const bool want = s[i].m.v == s[j].m.v;
                    VH_CHECK((*s[i].a == *s[j].a) == want, "vla.equal", "slots %d %d", i, j);
                    VH_CHECK((*s[i].a != *s[j].a) == !want, "vla.not-equal", "slots %d %d", i, j);
                }
            }
        }
    }
    /// After a failed operation: the real contents become the model, subject to the constraints given by the caller.
    void resync(int i)
    {
        Slot& t = s[i];
        if (t.a)
        {
            const std::size_t n = t.a->size();
            VH_CHECK(n <= t.a->capacity(), "vla.size-capacity", "slot %d size %zu capacity %zu after failure", i, n, t.a->capacity());
            t.m.v.clear();
            for (std::size_t k = 0; k < n; ++k)
            {
                t.m.v.push_back(val((*t.a)[k]));
            }
            for (int h = 0; h < NHEAP; ++h)
            {
                if (t.a->get_allocator() == mem.alloc(h))
                {
                    t.m.heap = h;
                }
            }
        }
    }
    void expect_prefix(int i, const std::vector<I64>& before, const char* what)
    {
        Slot& t = s[i];
        VH_CHECK(t.a->size() >= before.size(), "vla.lost", "slot %d: %s failed and lost elements (%zu of %zu left)", i, what, t.a->size(), before.size());
        for (std::size_t k = 0; k < before.size(); ++k)
        {
            const I64 got = val((*t.a)[k]);
            VH_CHECK(got == before[k], "vla.strong", "slot %d: %s failed and element %zu became %lld from %lld", i, what, k, (long long) got, (long long) before[k]);
        }
    }
    void expect_same(int i, const std::vector<I64>& before, const char* what)
    {
        VH_CHECK(s[i].a->size() == before.size(), "vla.strong", "slot %d: %s failed and size became %zu from %zu", i, what, s[i].a->size(), before.size());
        expect_prefix(i, before, what);
    }
    void finish()
    {
        for (int i = 0; i < NSLOT; ++i)
        {
            s[i].a.reset();
        }
        if (HEAPED)
        {
            for (int i = 0; i < NHEAP; ++i)
            {
                mem.heap(i).check_empty("end of case");
            }
        }
        if (is_elem())
        {
            vh::check_no_live("end of case");
        }
    }
};

// Operations which need a copyable element. `W` is the world.
enum Result
{
    NA,       // not applicable
    DONE,     // done, model updated
    FAILED,   // threw because of memory or an injected fault
};

#if VH_EXC
#    define GUARDED(stmt)                                                                                              \
        bool ok = true;                                                                                                \
        try                                                                                                            \
        {                                                                                                              \
            stmt;                                                                                                      \
        } catch (const vh::Injected&)                                                                                  \
        {                                                                                                              \
            ok = false;                                                                                                \
        } catch (const std::bad_alloc&)                                                                                \
        {                                                                                                              \
            ok = false;                                                                                                \
        }                                                                                                              \
        if (!ok && !w.faulty)                                                                                          \
        {                                                                                                              \
            vh::fail("vla.spurious-failure", "operation failed though memory suffices");                               \
        }
#    define REFUSED(stmt)                                                                                              \
        {                                                                                                              \
            bool refused = false;                                                                                      \
            try                                                                                                        \
            {                                                                                                          \
                stmt;                                                                                                  \
            } catch (const std::length_error&)                                                                         \
            {                                                                                                          \
                refused = true;                                                                                        \
            } catch (const vh::Injected&)                                                                              \
            {                                                                                                          \
                refused = true;                                                                                        \
            }                                                                                                          \
            VH_CHECK(refused, "vla.not-refused", "request beyond max_size not refused with a length error");            \
        }
#else
#    define GUARDED(stmt)                                                                                              \
        bool ok = true;                                                                                                \
        stmt;
#    define REFUSED(stmt) stmt;
#endif

struct OpCtx
{
    World&      w;
    Rng&        g;
    std::size_t allocs_before;
};

inline std::size_t allocs(World& w)
{
    std::size_t n = 0;
    for (int i = 0; i < NHEAP; ++i)
    {
        n += w.mem.heap(i).n_alloc + w.mem.heap(i).n_realloc;
    }
    return n;
}

/// Outcome of growing the array `i` from `before` towards `want` (prefix semantics without exceptions).
inline void grown(World& w, int i, const std::vector<I64>& before, std::vector<I64> want, bool ok, const char* what)
{
    Slot& t = w.s[i];
#if VH_EXC
    if (!ok)
    {
        w.expect_prefix(i, before, what);
        w.resync(i);
        ++w.failures;
        return;
    }
    t.m.v = std::move(want);
#else
    (void) ok;
    (void) what;
    const std::size_t got = t.a->size();
    VH_CHECK(got >= std::min(before.size(), want.size()) && got <= want.size(), "vla.noexc-size", "%s: size %zu, had %zu, wanted %zu", what, got, before.size(), want.size());
    if (got != want.size())
    {
        VH_CHECK(w.faulty || want.size() > w.max_of(t.m), "vla.spurious-failure", "%s reached size %zu of %zu though memory suffices", what, got, want.size());
        ++w.failures;
    }
    want.resize(got);
    t.m.v = std::move(want);
#endif
}

/// Outcome of making array `i` hold `want` (construction or assignment).
inline void made(World& w, int i, std::vector<I64> want, bool ok)
{
    Slot& t = w.s[i];
#if VH_EXC
    if (!ok)
    {
        w.resync(i);
        ++w.failures;
        return;
    }
    t.m.v = std::move(want);
#else
    (void) ok;
    const std::size_t got = t.a->size();
    VH_CHECK(got <= want.size(), "vla.noexc-size", "size %zu, wanted %zu", got, want.size());
    if (got != want.size())
    {
        VH_CHECK(w.faulty || want.size() > w.max_of(t.m), "vla.spurious-failure", "reached size %zu of %zu though memory suffices", got, want.size());
        ++w.failures;
    }
    want.resize(got);
    t.m.v = std::move(want);
#endif
}

/// A few elements at a proper address, made while faults are off.
class Held
{
public:
    explicit Held(const std::vector<I64>& want)
    {
        const vh::Fault saved = vh::fault();
        vh::fault().disarm();
        for (I64 v : want)
        {
            new (static_cast<void*>(data() + n_)) T(Mk<T>::make(v));
            ++n_;
        }
        vh::fault().elem_countdown  = saved.elem_countdown;
        vh::fault().alloc_countdown = saved.alloc_countdown;
        vh::fault().sticky_alloc    = saved.sticky_alloc;
    }
    Held(const Held&)            = delete;
    Held& operator=(const Held&) = delete;
    ~Held()
    {
        while (n_ > 0)
        {
            data()[--n_].~T();
        }
    }
    T* data()
    {
        return reinterpret_cast<T*>(buf_);
    }
    T* end()
    {
        return data() + n_;
    }

private:
    alignas(T) unsigned char buf_[sizeof(T) * 8];
    std::size_t n_ = 0;
};

#define COPYABLE (ELEM != 3 && ELEM != 4)
#if COPYABLE
struct CopyOps
{
    static bool construct(World& w, Rng& g, int i)
    {
        Slot&             t     = w.s[i];
        const int         h     = static_cast<int>(g.below(NHEAP));
        const int         kind  = static_cast<int>(g.below(7));
        std::vector<I64>  want;
        std::size_t       bound = profile != LIMITS && g.chance(1, 2) ? std::size_t(-1) : static_cast<std::size_t>(g.range(0, profile == LIMITS ? 8 : 24));
        const std::size_t n     = g.below(7);
        for (std::size_t k = 0; k < n; ++k)
        {
            want.push_back(w.fresh());
        }
        Model nm;
        nm.heap  = h;
        nm.bound = bound;
        if (kind < 3)
        {
            // ranges, lists
            if (kind == 0)
            {
                nm.bound = bound = std::size_t(-1);
            }
            const bool too_many = n > w.max_of(nm);
            vh::op("new#%d kind=%d n=%zu bound=%zd heap=%d", i, kind, n, bound, h);
#if VH_EXC
            if (too_many)
            {
                if (w.faulty)
                {
                    return true;
                }
                {
                    Held src(want);
                    REFUSED(Arr(src.data(), src.end(), bound, w.mem.alloc(h)));
                }
                return true;
            }
#else
            (void) too_many;
#endif
            bool okk = true;
            {
                if (kind == 2)
                {
                    Held src(want);
                    okk = attempt(w, t, [&] { t.a.reset(new Arr(src.data(), src.end(), bound, w.mem.alloc(h))); });
                }
                else
                {
                    okk = attempt(w, t, [&] { from_list(t, want, bound, kind == 0, w.mem.alloc(h)); });
                }
            }
            after_construct(w, i, nm, want, okk);
            return true;
        }
        // from another array
        const int j = static_cast<int>(g.below(NSLOT));
        if (!w.s[j].a || i == j)
        {
            return false;
        }
        const Model src = w.s[j].m;
        nm              = src;
        if (kind < 5)
        {
            nm.heap = w.mem.selected(src.heap);
            vh::op("copy-construct#%d from #%d", i, j);
        }
        else
        {
            nm.heap = h;
            vh::op("copy-construct#%d from #%d heap=%d", i, j, h);
        }
        if (src.v.size() > w.max_of(nm))
        {
#if VH_EXC
            // The new allocator cannot hold that many.
            return true;
#endif
        }
        const bool okk = attempt(w, t, [&] {
            if (kind < 5)
            {
                t.a.reset(new Arr(static_cast<const Arr&>(*w.s[j].a)));
            }
            else
            {
                t.a.reset(new Arr(static_cast<const Arr&>(*w.s[j].a), w.mem.alloc(h)));
            }
        });
        after_construct(w, i, nm, src.v, okk);
        return true;
    }
    static void from_list(Slot& t, const std::vector<I64>& w, std::size_t bound, bool unbounded, const A& al)
    {
        auto m = [](I64 v) { return Mk<T>::make(v); };
        auto go = [&](std::initializer_list<T> l) {
            if (unbounded)
            {
                t.a.reset(new Arr(l, al));
            }
            else
            {
                t.a.reset(new Arr(l, bound, al));
            }
        };
        switch (w.size())
        {
        case 0:
            go({});
            break;
        case 1:
            go({m(w[0])});
            break;
        case 2:
            go({m(w[0]), m(w[1])});
            break;
        case 3:
            go({m(w[0]), m(w[1]), m(w[2])});
            break;
        case 4:
            go({m(w[0]), m(w[1]), m(w[2]), m(w[3])});
            break;
        case 5:
            go({m(w[0]), m(w[1]), m(w[2]), m(w[3]), m(w[4])});
            break;
        default:
            go({m(w[0]), m(w[1]), m(w[2]), m(w[3]), m(w[4]), m(w[5])});
            break;
        }
    }
    template <typename F>
    static bool attempt(World& w, Slot& t, F&& f)
    {
        (void) t;
        GUARDED(f());
        return ok;
    }
    static void after_construct(World& w, int i, const Model& nm, const std::vector<I64>& want, bool ok)
    {
        Slot& t = w.s[i];
        if (!ok)
        {
            ++w.failures;
            VH_CHECK(!t.a, "harness", "construction failed");
            return;
        }
        t.m = nm;
        made(w, i, want, true);
    }
    static bool copy_assign(World& w, Rng& g, int i)
    {
        const int j = static_cast<int>(g.below(NSLOT));
        Slot&     t = w.s[i];
        if (!t.a || !w.s[j].a)
        {
            return false;
        }
        const Model src  = w.s[j].m;
        const Model dst  = t.m;
        Model       nm   = src;
        nm.heap          = POCCA ? src.heap : dst.heap;
        if (i == j)
        {
            nm = dst;
        }
        if (src.v.size() > w.max_of(nm))
        {
            return false;
        }
        vh::op("copy-assign#%d from #%d", i, j);
        GUARDED(*t.a = static_cast<const Arr&>(*w.s[j].a));
        if (i != j)
        {
            t.m.bound = nm.bound;
        }
        if (ok)
        {
            t.m.heap = nm.heap;
        }
        made(w, i, src.v, ok);
        return true;
    }
    // An own element among several arguments, or a part of one as argument.
    template <typename X, typename E>
    static auto emplace_own(X& a, const E& own, bool whole, int) -> decltype(E(own, 'a', 'b'), own.part(), void())
    {
        if (whole)
        {
            a.emplace_back(own, 'a', 'b');
        }
        else
        {
            a.emplace_back(own.part());
        }
    }
    template <typename X, typename E>
    static auto emplace_own(X& a, const E& own, bool whole, int) -> decltype(own.c_str(), void())
    {
        if (whole)
        {
            a.emplace_back(own, std::size_t(0), std::string::npos);
        }
        else
        {
            a.emplace_back(own, std::allocator<char>());
        }
    }
    template <typename X, typename E>
    static void emplace_own(X& a, const E& own, bool, long)
    {
        a.emplace_back(own);
    }

    static bool push_copy(World& w, Rng& g, int i)
    {
        Slot& t = w.s[i];
        if (!t.a)
        {
            return false;
        }
        const bool             alias  = g.chance(1, 3) && !t.m.v.empty();
        const std::vector<I64> before = t.m.v;
        const std::size_t      cap    = t.a->capacity();
        const T* const         data   = t.a->data();
        const std::size_t      na     = allocs(w);
        std::vector<I64>       want   = before;
        bool                   okk    = true;
        if (alias)
        {
            const std::size_t k = g.below(before.size());
            const int kind = static_cast<int>(g.below(4));
            vh::op("push_back#%d own element %zu kind=%d", i, k, kind);
            want.push_back(before[k]);
            if (before.size() >= w.max_of(t.m))
            {
                REFUSED(t.a->push_back((*t.a)[k]));
                want = before;
            }
            else
            {
                GUARDED(if (kind == 1) t.a->push_back((*t.a)[k]); else if (kind == 0) t.a->emplace_back((*t.a)[k]); else emplace_own(*t.a, (*t.a)[k], kind == 2, 0));
                okk = ok;
                vh::nontrivial();
            }
        }
        else
        {
            const I64 v = w.fresh();
            vh::op("push_back#%d %lld", i, (long long) v);
            Held keep({v});
            want.push_back(v);
            if (before.size() >= w.max_of(t.m))
            {
                REFUSED(t.a->push_back(*keep.data()));
                want = before;
            }
            else
            {
                GUARDED(t.a->push_back(static_cast<const T&>(*keep.data())));
                okk = ok;
            }
        }
        appended(w, i, before, want, okk, cap, data, na, "push_back");
        return true;
    }
    static void appended(World&                  w,
                         int                     i,
                         const std::vector<I64>& before,
                         const std::vector<I64>& want,
                         bool                    ok,
                         std::size_t             cap,
                         const T*                data,
                         std::size_t             na,
                         const char*             what)
    {
        Slot& t = w.s[i];
        if (before.size() < cap)
        {
            VH_CHECK(t.a->data() == data && allocs(w) == na, "vla.reserved-unused", "%s within capacity moved or allocated", what);
        }
        else
        {
            vh::nontrivial();
        }
#if VH_EXC
        if (!ok)
        {
            w.expect_same(i, before, what);
            ++w.failures;
            return;
        }
#endif
        if (want.size() == before.size())
        {
            w.expect_same(i, before, what);
        }
        grown(w, i, before, want, ok, what);
    }
    static bool resize_value(World& w, Rng& g, int i)
    {
        Slot& t = w.s[i];
        if (!t.a)
        {
            return false;
        }
        const std::vector<I64> before = t.m.v;
        const std::size_t      mx     = w.max_of(t.m);
        const bool             alias  = g.chance(1, 3) && !before.empty();
        const std::size_t      pick   = alias ? g.below(before.size()) : 0;
        std::size_t            n      = many(g, 12);
        if (g.chance(1, 6))
        {
            n = before.size() + many(g, 30);
        }
        if (n > mx)
        {
            n = g.chance(1, 3) ? mx : n;
        }
        const bool       fill = g.chance(1, 2);  // assign instead of resize
        const I64        v    = alias ? before[pick] : w.fresh();
        std::vector<I64> want = before;
        if (fill)
        {
            want.assign(n, v);
        }
        else
        {
            want.resize(n, v);
        }
        vh::op("%s#%d n=%zu %s%lld", fill ? "assign" : "resize", i, n, alias ? "own " : "", (long long) v);
        Held keep({v});
        const T& arg = alias ? (*t.a)[pick] : *keep.data();
        const T* const    data = t.a->data();
        const std::size_t na   = allocs(w), cap = t.a->capacity();
        if (alias && n > cap)
        {
            vh::nontrivial();
        }
        if (n > mx)
        {
            REFUSED(if (fill) t.a->assign(n, arg); else t.a->resize(n, arg));
            
#if VH_EXC
            w.expect_same(i, before, "resize beyond max_size");
#else
            if (fill)
            {
                w.resync(i);
            }
            else
            {
                grown(w, i, before, want, true, "resize");
            }
#endif
            return true;
        }
        GUARDED(if (fill) t.a->assign(n, arg); else t.a->resize(n, arg));
        
        if (n <= cap)
        {
            VH_CHECK(t.a->data() == data && allocs(w) == na, "vla.reserved-unused", "resize within capacity moved or allocated");
        }
        if (fill)
        {
#if VH_EXC
            made(w, i, want, ok);
#else
            if (t.a->size() == want.size())
            {
                made(w, i, want, ok);
            }
            else
            {
                VH_CHECK(w.faulty, "vla.spurious-failure", "assign reached %zu of %zu", t.a->size(), want.size());
                ++w.failures;
                w.resync(i);
                for (I64 x : t.m.v)
                {
                    VH_CHECK(x == v || std::find(before.begin(), before.end(), x) != before.end(), "vla.noexc-garbage", "value %lld", (long long) x);
                }
            }
#endif
        }
        else if (n >= before.size())
        {
            grown(w, i, before, want, ok, "resize");
        }
        else
        {
            made(w, i, want, ok);
        }
        return true;
    }
};

#else
struct CopyOps
{
    static bool construct(World&, Rng&, int)
    {
        return false;
    }
    static bool copy_assign(World&, Rng&, int)
    {
        return false;
    }
    static bool push_copy(World&, Rng&, int)
    {
        return false;
    }
    static bool resize_value(World&, Rng&, int)
    {
        return false;
    }
};

#endif
// ---- operations for every element type
inline bool op_new(World& w, Rng& g, int i)
{
    Slot&     t = w.s[i];
    const int h = static_cast<int>(g.below(NHEAP));
    t.m         = Model{};
    t.m.heap    = h;
    if (profile == LIMITS || g.chance(1, 2))
    {
        t.m.bound = static_cast<std::size_t>(g.chance(1, 4) ? g.range(0, 3) : g.range(0, profile == LIMITS ? 9 : profile == LARGE ? 2500 : 40));
        vh::op("new#%d bound=%zu heap=%d", i, t.m.bound, h);
        t.a.reset(new Arr(t.m.bound, w.mem.alloc(h)));
    }
    else
    {
        vh::op("new#%d heap=%d", i, h);
        t.a.reset(new Arr(w.mem.alloc(h)));
    }
    return true;
}
/// The source of a move is empty; only a move that could not get memory may leave it as it was.
inline void left_behind(World& w, int j, const std::vector<I64>& src, int i)
{
    w.s[j].m.v.clear();
    if (!VH_EXC && w.s[i].m.v.size() < src.size() && !w.s[j].a->empty())
    {
        w.s[j].m.v = src;
    }
}
inline bool op_move_construct(World& w, Rng& g, int i)
{
    const int j = static_cast<int>(g.below(NSLOT));
    if (i == j || w.s[i].a || !w.s[j].a)
    {
        return false;
    }
    Slot&       t   = w.s[i];
    const Model src = w.s[j].m;
    Model       nm  = src;
    bool        okk = true;
    if (g.chance(1, 2))
    {
        vh::op("move-construct#%d from #%d", i, j);
        t.a.reset(new Arr(std::move(*w.s[j].a)));
    }
    else
    {
        const int h = static_cast<int>(g.below(NHEAP));
        nm.heap     = h;
        if (src.v.size() > w.max_of(nm))
        {
            return false;
        }
        vh::op("move-construct#%d from #%d heap=%d", i, j, h);
        if (h != src.heap)
        {
            vh::nontrivial();
        }
        GUARDED(t.a.reset(new Arr(std::move(*w.s[j].a), w.mem.alloc(h))));
        okk = ok;
    }
    if (okk)
    {
        t.m = nm;
        made(w, i, src.v, true);
        left_behind(w, j, src.v, i);
    }
    else
    {
        ++w.failures;
        w.resync(j);
    }
    return true;
}
inline bool op_move_assign(World& w, Rng& g, int i)
{
    const int j = static_cast<int>(g.below(NSLOT));
    Slot&     t = w.s[i];
    if (!t.a || !w.s[j].a)
    {
        return false;
    }
    if (i == j)
    {
        vh::op("self-move-assign#%d", i);
        Arr& alias = *t.a;
        *t.a       = std::move(alias);
        return true;
    }
    const Model src = w.s[j].m;
    Model       nm  = src;
    nm.heap         = POCMA ? src.heap : t.m.heap;
    if (src.v.size() > w.max_of(nm))
    {
        return false;
    }
    vh::op("move-assign#%d from #%d", i, j);
    if (src.heap != t.m.heap && !src.v.empty())
    {
        vh::nontrivial();
    }
    GUARDED(*t.a = std::move(*w.s[j].a));
    t.m.bound = nm.bound;
    if (ok)
    {
        t.m.heap = nm.heap;
    }
    made(w, i, src.v, ok);
    if (ok)
    {
        left_behind(w, j, src.v, i);
    }
    else
    {
        w.resync(j);
    }
    return true;
}
inline bool op_swap(World& w, Rng& g, int i)
{
    const int j = static_cast<int>(g.below(NSLOT));
    if (w.faulty || i == j || !w.s[i].a || !w.s[j].a)
    {
        return false;
    }
    const Model a = w.s[i].m, b = w.s[j].m;
    // std::swap is a move construction and two move assignments.
    Model na = b, nb = a;
    na.heap = POCMA ? b.heap : a.heap;
    nb.heap = POCMA ? a.heap : b.heap;
    if (b.v.size() > w.max_of(na) || a.v.size() > w.max_of(nb))
    {
        return false;
    }
    vh::op("swap #%d #%d", i, j);
    std::swap(*w.s[i].a, *w.s[j].a);
    w.s[i].m = na;
    w.s[j].m = nb;
    return true;
}
inline bool op_append(World& w, Rng& g, int i)
{
    Slot& t = w.s[i];
    if (!t.a)
    {
        return false;
    }
    const std::vector<I64> before = t.m.v;
    const std::size_t      cap    = t.a->capacity();
    const T* const         data   = t.a->data();
    const std::size_t      na     = allocs(w);
    std::vector<I64>       want   = before;
    const bool             full   = before.size() >= w.max_of(t.m);
    bool                   okk    = true;
    const int              kind   = static_cast<int>(g.below(4));
    const I64              v      = kind == 3 ? 0 : w.fresh();
    if (kind == 0 && !before.empty() && !w.faulty)
    {
        // An element moved to the end of its own array; it is given a new value afterwards.
        const std::size_t k = g.below(before.size());
        vh::op("push_back#%d moved own element %zu", i, k);
        if (full)
        {
            REFUSED(t.a->push_back(std::move((*t.a)[k])));
        }
        else
        {
            want.push_back(before[k]);
            GUARDED(t.a->push_back(std::move((*t.a)[k])));
            okk = ok;
            if (t.a->size() == want.size())
            {
                want[k]    = w.fresh();
                (*t.a)[k]  = Mk<T>::make(want[k]);
                t.m.v      = want;
            }
            vh::nontrivial();
            (void) okk;
            return true;
        }
    }
    else if (kind == 3)
    {
        vh::op("emplace_back#%d()", i);
        if (full)
        {
            REFUSED(t.a->emplace_back());
        }
        else
        {
            want.push_back(0);
            GUARDED(t.a->emplace_back());
            okk = ok;
        }
    }
    else
    {
        vh::op("append#%d %lld kind=%d", i, (long long) v, kind);
        if (full)
        {
            REFUSED(t.a->push_back(Mk<T>::make(v)));
        }
        else
        {
            want.push_back(v);
            if (kind == 1)
            {
                GUARDED(t.a->push_back(Mk<T>::make(v)));
                okk = ok;
            }
            else
            {
                GUARDED(t.a->emplace_back(Mk<T>::make(v)));
                okk = ok;
            }
        }
    }
    if (before.size() < cap)
    {
        VH_CHECK(t.a->data() == data && allocs(w) == na, "vla.reserved-unused", "append within capacity moved or allocated");
    }
    else
    {
        vh::nontrivial();
    }
#if VH_EXC
    if (!okk)
    {
        // A failed allocation always leaves the contents; a throwing element does when it can be copied.
        if (std::is_copy_constructible<T>::value || vh::fault().elem_ticks == 0)
        {
            w.expect_same(i, before, "append");
        }
        w.resync(i);
        ++w.failures;
        return true;
    }
#endif
    if (full)
    {
        w.expect_same(i, before, "append beyond max_size");
        return true;
    }
    grown(w, i, before, want, okk, "append");
    return true;
}
inline bool op_pop(World& w, Rng&, int i)
{
    Slot& t = w.s[i];
    if (!t.a || t.m.v.empty())
    {
        return false;
    }
    vh::op("pop_back#%d", i);
    t.a->pop_back();
    t.m.v.pop_back();
    return true;
}
inline bool op_resize(World& w, Rng& g, int i)
{
    Slot& t = w.s[i];
    if (!t.a)
    {
        return false;
    }
    const std::vector<I64> before = t.m.v;
    const std::size_t      mx     = w.max_of(t.m);
    std::size_t            n      = g.chance(1, 4) ? before.size() + many(g, 20) : many(g, 10);
    std::vector<I64>       want   = before;
    want.resize(n, 0);
    vh::op("resize#%d n=%zu", i, n);
    if (n > mx)
    {
        REFUSED(t.a->resize(n));
#if VH_EXC
        w.expect_same(i, before, "resize beyond max_size");
#else
        grown(w, i, before, want, true, "resize");
#endif
        return true;
    }
    if (n > t.a->capacity())
    {
        vh::nontrivial();
    }
    GUARDED(t.a->resize(n));
#if VH_EXC
    if (!ok && !std::is_copy_constructible<T>::value)
    {
        ++w.failures;
        w.resync(i);
        return true;
    }
#endif
    if (n >= before.size())
    {
        grown(w, i, before, want, ok, "resize");
    }
    else
    {
        made(w, i, want, ok);
    }
    return true;
}
inline bool op_capacity(World& w, Rng& g, int i)
{
    Slot& t = w.s[i];
    if (!t.a)
    {
        return false;
    }
    const std::vector<I64> before = t.m.v;
    const std::size_t      mx     = w.max_of(t.m);
    bool                   okk    = true;
    if (g.chance(1, 2))
    {
        const std::size_t n = g.chance(1, 10) ? std::size_t(-1) - g.below(100) : (g.chance(1, 3) ? before.size() + many(g, 30) : many(g, 20));
        vh::op("reserve#%d %zu", i, n);
        if (n > mx)
        {
            REFUSED(t.a->reserve(n));
#if !VH_EXC
            VH_CHECK(t.a->capacity() <= mx, "vla.capacity-max", "reserve");
#endif
        }
        else
        {
            const std::size_t cap = t.a->capacity();
            GUARDED(t.a->reserve(n));
            okk = ok;
            if (!ok || t.a->capacity() < n)
            {
                ++w.failures;
                VH_CHECK(w.faulty, "vla.reserve", "reserve(%zu) gave capacity %zu", n, t.a->capacity());
            }
            VH_CHECK(t.a->capacity() >= cap, "vla.reserve-shrank", "reserve(%zu) shrank capacity from %zu to %zu", n, cap, t.a->capacity());
            if (n > cap)
            {
                vh::nontrivial();
            }
        }
    }
    else
    {
        vh::op("shrink_to_fit#%d", i);
        GUARDED(t.a->shrink_to_fit());
        okk = ok;
        if (before.empty() && ok)
        {
            VH_CHECK(t.a->capacity() == 0, "vla.shrink-empty", "capacity %zu", t.a->capacity());
        }
        if (!w.faulty)
        {
            VH_CHECK(t.a->capacity() == before.size(), "vla.shrink", "capacity %zu size %zu", t.a->capacity(), before.size());
        }
    }
    if (okk || std::is_copy_constructible<T>::value)
    {
        w.expect_same(i, before, "capacity operation");
    }
    else
    {
        w.resync(i);
    }
    return true;
}
inline bool op_clear(World& w, Rng&, int i)
{
    Slot& t = w.s[i];
    if (!t.a)
    {
        return false;
    }
    vh::op("clear#%d", i);
    t.a->clear();
    t.m.v.clear();
    return true;
}
inline bool op_write(World& w, Rng& g, int i)
{
    Slot& t = w.s[i];
    if (!t.a || t.m.v.empty())
    {
        return false;
    }
    const std::size_t k = g.below(t.m.v.size());
    const I64         v = w.fresh();
    vh::op("write#%d [%zu]=%lld", i, k, (long long) v);
    bool okk = true;
    {
        GUARDED(switch (g.below(5)) {
            case 0: (*t.a)[k] = Mk<T>::make(v); break;
            case 1: *(t.a->begin() + k) = Mk<T>::make(v); break;
            case 2: t.a->data()[k] = Mk<T>::make(v); break;
            case 3: *(t.a->end() - (t.m.v.size() - k)) = Mk<T>::make(v); break;
            default:
                if (k == 0) t.a->front() = Mk<T>::make(v);
                else if (k + 1 == t.m.v.size()) t.a->back() = Mk<T>::make(v);
                else (*t.a)[k] = Mk<T>::make(v);
        });
        okk = ok;
    }
    if (okk)
    {
        t.m.v[k] = v;
    }
    return true;
}
#if VH_EXC
inline bool op_at(World& w, Rng& g, int i)
{
    Slot& t = w.s[i];
    if (!t.a)
    {
        return false;
    }
    const std::size_t k = t.m.v.size() + (g.chance(1, 3) ? std::size_t(-1) / 2 : g.below(3));
    vh::op("at#%d %zu", i, k);
    bool thrown = false;
    try
    {
        (void) t.a->at(k);
    } catch (const std::out_of_range&)
    {
        thrown = true;
    }
    VH_CHECK(thrown, "vla.at", "at(%zu) of %zu", k, t.m.v.size());
    thrown = false;
    try
    {
        (void) static_cast<const Arr&>(*t.a).at(k);
    } catch (const std::out_of_range&)
    {
        thrown = true;
    }
    VH_CHECK(thrown, "vla.at", "const at(%zu) of %zu", k, t.m.v.size());
    return true;
}
#endif

inline bool step(World& w, Rng& g)
{
    using C          = CopyOps;
    const int      i = static_cast<int>(g.below(NSLOT));
    unsigned       k = static_cast<unsigned>(g.below(100));
    if (profile == TRANSFER && g.chance(1, 2))
    {
        k %= 26;
    }
    vh::feel(k * 8 + static_cast<unsigned>(i));
    if (!w.s[i].a)
    {
        if (k < 25)
        {
            return op_new(w, g, i);
        }
        if (k < 70 && C::construct(w, g, i))
        {
            return true;
        }
        return op_move_construct(w, g, i) || op_new(w, g, i);
    }
    if (k < 6)
    {
        vh::op("delete#%d", i);
        w.s[i].a.reset();
        return true;
    }
    if (k < 14)
        return C::copy_assign(w, g, i);
    if (k < 22)
        return op_move_assign(w, g, i);
    if (k < 26)
        return op_swap(w, g, i);
    if (k < 40)
        return op_append(w, g, i);
    if (k < 55)
        return C::push_copy(w, g, i) || op_append(w, g, i);
    if (k < 60)
        return op_pop(w, g, i);
    if (k < 66)
        return op_resize(w, g, i);
    if (k < 76)
        return C::resize_value(w, g, i) || op_resize(w, g, i);
    if (k < 86)
        return op_capacity(w, g, i);
    if (k < 89)
        return op_clear(w, g, i);
    if (k < 95)
        return op_write(w, g, i);
#if VH_EXC
    if (k < 97)
        return op_at(w, g, i);
#endif
    vh::op("compare");
    w.compare_all();
    return true;
}

static void history(Rng& g)
{
    World     w(g);
    const int n = static_cast<int>(g.range(8, 60));
    for (int i = 0; i < n; ++i)
    {
        step(w, g);
        w.check_all();
        for (int k = 0; k < NSLOT; ++k)
        {
            vh::feel(w.s[k].a ? w.s[k].a->size() * 64 + w.s[k].a->capacity() : 9999);
        }
    }
    w.compare_all();
    w.finish();
}

/// One array grows far, one element at a time or in jumps, and shrinks again.
static void lengthy(Rng& g)
{
    World     w(g);
    const int n = static_cast<int>(g.range(100, 500));
    const int i = static_cast<int>(g.below(NSLOT));
    for (int j = 0; j < 6; ++j)
    {
        step(w, g);
    }
    for (int j = 0; j < n; ++j)
    {
        if (!w.s[i].a)
        {
            op_new(w, g, i);
        }
        const std::uint64_t k = g.below(200);
        if (k < 150)
            op_append(w, g, i);
        else if (k < 180)
            CopyOps::push_copy(w, g, i) || op_append(w, g, i);
        else if (k < 190)
            op_pop(w, g, i);
        else if (k < 191)
            op_resize(w, g, i);
        else if (k < 193)
            op_capacity(w, g, i);
        else
            op_write(w, g, i);
        w.check_all();
        vh::feel(k * 1024 + w.s[i].a->size());
    }
    w.compare_all();
    w.finish();
}

#if ALLOC == 0 && ELEM == 7
/// Known finding: elements that are not trivially copyable, over a resource whose reallocate() moves the block.
static void moving_reallocate(Rng&)
{
    vh::MemRes mr(0, vh::MemRes::MOVING);
    {
        Arr a{A(&mr)};
        for (I64 i = 0; i < 100; ++i)
        {
            a.push_back(std::to_string(i));
            vh::op("push_back %d", static_cast<int>(i));
            for (const std::string& e : a)
            {
                // A short string points into itself, wherever it was constructed or moved to by its own operations.
                const char* const self = reinterpret_cast<const char*>(&e);
                VH_CHECK(e.data() >= self && e.data() < self + sizeof e, "vla.bitwise-moved", "element of %zu", a.size());
            }
        }
    }
    vh::nontrivial();
}
#endif

/// Memory runs out for real: each heap has a limit, and random single allocations fail.
static void starved(Rng& g)
{
    World w(g);
    w.faulty = true;
    for (int i = 0; i < NHEAP; ++i)
    {
        if (g.chance(2, 3))
        {
            w.mem.heap(i).limit = sizeof(T) * static_cast<std::size_t>(g.range(0, 24));
        }
    }
    const int n = static_cast<int>(g.range(8, 60));
    for (int i = 0; i < n; ++i)
    {
        if (g.chance(1, 5))
        {
            vh::fault().alloc_countdown = 1 + g.below(2);
            vh::fault().sticky_alloc    = g.chance(1, 2);
        }
        step(w, g);
        vh::fault().disarm();
        w.check_all();
        for (int k = 0; k < NSLOT; ++k)
        {
            vh::feel(w.s[k].a ? w.s[k].a->size() * 64 + w.s[k].a->capacity() : 9999);
        }
    }
    if (w.failures)
    {
        vh::nontrivial();
        vh::count("failed_operations", w.failures);
    }
    w.compare_all();
    w.finish();
}

#if VH_EXC
/// The same prefix, then one operation with a fault at its k-th fault point, for k = 1, 2, ... until none fires.
static void faults(Rng& g)
{
    const std::uint64_t s0     = g.next();
    const int           prefix = static_cast<int>(g.range(2, 22));
    const bool          elem   = g.chance(2, 3);
    std::uint64_t       points = 0;
    for (std::uint64_t k = 1; k <= 60; ++k)
    {
        Rng   r(s0);
        World w(r);
        for (int i = 0; i < prefix; ++i)
        {
            step(w, r);
        }
        w.check_all();
        // A sequence of failing operations; the first applicable one counts.
        w.faulty        = true;
        vh::Fault& f    = vh::fault();
        const auto was  = f.fired;
        bool       done = false;
        f.elem_ticks    = 0;
        f.sticky_alloc  = r.chance(1, 2);
        if (elem)
        {
            f.elem_countdown = k;
        }
        else
        {
            f.alloc_countdown = k;
        }
        for (int tries = 0; tries < 30 && !done; ++tries)
        {
            done = step(w, r) && (elem ? f.elem_countdown != k : f.alloc_countdown != k);
        }
        f.disarm();
        w.faulty         = false;
        const bool fired = f.fired != was;
        if (fired)
        {
            ++points;
            vh::nontrivial();
            vh::feel(k);
        }
        w.check_all();
        for (int i = 0; i < 6; ++i)
        {
            step(w, r);
            w.check_all();
        }
        w.compare_all();
        w.finish();
        if (!fired)
        {
            break;
        }
    }
    vh::count(elem ? "element_fault_points" : "allocation_fault_points", points);
}
#endif

// ------------------------------------------------------------------------------------------------ value categories
#if ALLOC == 0
template <typename S>
void forwarding_of(Rng& rng)
{
    using Al = cetl::pf17::pmr::polymorphic_allocator<S>;
    using Ar = cetl::VariableLengthArray<S, Al>;
    vh::MemRes        res(0, static_cast<vh::MemRes::Realloc>(rng.below(2)));
    const std::size_t start = rng.below(6);
    auto              fill  = [&](Ar& a) {
        if (rng.chance(1, 2))
        {
            a.reserve(8);
        }
        for (std::size_t k = 0; k < start; ++k)
        {
            a.emplace_back(vfwd::Arg(static_cast<int>(k)));
        }
    };
    auto last = [&](const Ar& a, const char* what) -> const S& {
        VH_CHECK(a.size() == start + 1, "vla.size", "%s: %zu elements", what, static_cast<std::size_t>(a.size()));
        for (std::size_t k = 0; k < start; ++k)
        {
            VH_CHECK(a[k].sum == static_cast<int>(k), "vla.value", "%s changed element %zu", what, k);
        }
        return a[start];
    };
    // the new element may be made aside and moved or copied to its place
    auto made = [](const S& s, const char* what, const std::string& how, int sum) {
        VH_CHECK(s.str() == how || s.str() == "M" || s.str() == "C", "forwarding", "%s: made by \"%s\", not \"%s\"", what, s.str().c_str(), how.c_str());
        VH_CHECK(s.sum == sum, "forwarding-value", "%s: %d instead of %d", what, s.sum, sum);
        vh::count("forwardings");
    };
    vfwd::pairs(rng, "emplace_back", [&](auto&& x, auto&& y, const std::string& c, int n) {
        Ar a{Al(&res)};
        fill(a);
        a.emplace_back(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
        made(last(a, "emplace_back"), "emplace_back", "2" + c, n);
    });
    vfwd::singles(rng, "emplace_back", [&](auto&& x, const std::string& c, int n) {
        Ar a{Al(&res)};
        fill(a);
        a.emplace_back(std::forward<decltype(x)>(x));
        made(last(a, "emplace_back"), "emplace_back", "1" + c, n);
    });
    vfwd::lists(rng, "emplace_back list", [&](std::initializer_list<int> il, auto&& x, const std::string& c, int n) {
        Ar a{Al(&res)};
        fill(a);
        a.emplace_back(il, std::forward<decltype(x)>(x));
        made(last(a, "emplace_back list"), "emplace_back list", "i" + c, n);
    });
    const int n = static_cast<int>(rng.below(100));
    for (const char k : {'l', 'c', 'r'})
    {
        Ar a{Al(&res)};
        fill(a);
        S s((vfwd::Arg(n)));
        if (k == 'l')
        {
            a.push_back(s);
        }
        else if (k == 'c')
        {
            a.push_back(static_cast<const S&>(s));
        }
        else
        {
            a.push_back(std::move(s));
        }
        made(last(a, "push_back"), "push_back", k == 'r' ? "M" : "C", n);
        VH_CHECK(s.sum == (k == 'r' ? -1 : n), "forwarding-source", "push_back of category %c left %d", k, s.sum);
        if (k != 'r')
        {
            VH_CHECK(s.str() == "1r", "forwarding-source", "push_back changed its argument");
        }
    }
    {
        const S s((vfwd::Arg(n)));
        Ar      a{Al(&res)};
        fill(a);
        a.resize(start + 1, s);
        made(last(a, "resize"), "resize", "C", n);
        VH_CHECK(s.sum == n && s.str() == "1r", "forwarding-source", "resize changed its argument");
        S t((vfwd::Arg(n)));
        a.assign(start + 3, t);
        VH_CHECK(a.size() == start + 3 && t.sum == n && t.str() == "1r", "forwarding-source", "assign changed its argument");
        for (const S& x : a)
        {
            VH_CHECK(x.sum == n, "vla.value", "assigned %d", x.sum);
        }
    }
    vh::op("forwarding %zu %d", start, n);
    vh::feel(start * 128 + static_cast<std::uint64_t>(n));
    vh::nontrivial();
}
static void forwarding(Rng& rng)
{
    forwarding_of<vfwd::Sink<vfwd::NoDtor>>(rng);
    forwarding_of<vfwd::Sink<vfwd::WithDtor, true>>(rng);
}
#endif

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("history", 100, history);
    vh::suite("long", 4, lengthy);
    profile = LARGE;
    vh::suite("large", 1, history);
    profile = LIMITS;
    vh::suite("limits", 100, history);
    profile = TRANSFER;
    vh::suite("transfer", 100, history);
    profile = PLAIN;
    vh::suite("starved", 60, starved);
#if ALLOC == 0
    vh::suite("forwarding", 4, forwarding);
#endif
#if VH_EXC
    vh::suite("faults", 40, faults);
#endif
#if ALLOC == 0 && ELEM == 7
    vh::suite("known.moving_reallocate", 1, moving_reallocate);
#endif
    return vh::finish();
}

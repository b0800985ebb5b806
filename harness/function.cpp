// Monitors for cetl::pmr::function (F01, F02): histories over four functions of one configuration.
#include "vh.hpp"
#include "vh_mr.hpp"
#include <cetl/pmr/function.hpp>

using vh::Rng;
using Arg = vh::Elem<15, 20>;

// ------------------------------------------------------------------------------------------------ targets
struct Call
{
    int          id    = 0;
    int          state = 0;
    int          a     = 0;
    const Arg*   ref   = nullptr;
    std::int64_t byval = 0;
};
static VH_TLS std::vector<Call> g_log;
static long              result_of(int id, int state, int a)
{
    return id * 100000L + state * 1000L + a;
}
/// What happens inside the call, set by the case.
static VH_TLS std::function<void()> g_inside;

/// A callable with an identity and a state that counts its own calls.
template <typename Body, int Pad>
class Target
{
public:
    explicit Target(int id)
        : id_(id)
    {
    }
    long operator()(int a, const Arg& ref, Arg byval)
    {
        const int s = ++state_;
        g_log.push_back(Call{static_cast<int>(id_.value()), s, a, &ref, byval.value()});
        const int id = static_cast<int>(id_.value());
        if (g_inside)
        {
            g_inside();
        }
        return result_of(id, s, a);
    }
    int id() const
    {
        return static_cast<int>(id_.value());
    }

private:
    Body id_;
    int  state_ = 0;
    char pad_[Pad];
};
using Small   = Target<vh::Elem<15, 21>, 1>;   // copy may throw
using NxSmall = Target<vh::Elem<79, 22>, 1>;   // nothing throws
using Big     = Target<vh::Elem<15, 23>, 300>;
using TMove   = Target<vh::Elem<11, 24>, 1>;   // copy and move may throw
using CopyOn  = Target<vh::Elem<9, 25>, 64>;   // no move

template <int Id>
long plain(int a, const Arg& ref, Arg byval)
{
    g_log.push_back(Call{Id, 0, a, &ref, byval.value()});
    if (g_inside)
    {
        g_inside();
    }
    return result_of(Id, 0, a);
}
using Ptr = long (*)(int, const Arg&, Arg);

enum
{
    T_SMALL,
    T_NX,
    T_BIG,
    T_TMOVE,
    T_COPYON,
    T_PTR,
    T_LAMBDA,
    NTYPES,
};
static bool tracked(int type)
{
    return type != T_PTR && type != T_LAMBDA;
}

class NullRes  // reports failure by a null pointer in every build
{
public:
    vh::Heap heap;
    void*    allocate(std::size_t n, std::size_t a)
    {
        return heap.get(n, a);
    }
    void deallocate(void* p, std::size_t n, std::size_t a)
    {
        heap.put(p, n, a);
    }
};
template <typename P>
struct Pool
{
    using R = std::conditional_t<std::is_same<P, NullRes>::value, NullRes, vh::MemRes>;
    R         r[3];
    P*        get(int i) { return &r[i]; }
    vh::Heap& heap(int i) { return r[i].heap; }
};
template <>
struct Pool<void>
{
    vh::Heap  h;
    vh::Heap& heap(int) { return h; }
};

struct Model
{
    bool full  = false;
    int  type  = 0;
    int  id    = 0;
    int  state = 0;
    int  res   = 0;
};

template <std::size_t Footprint, typename P>
struct World
{
    using Fn                 = cetl::pmr::function<long(int, const Arg&, Arg), Footprint, P>;
    static constexpr bool PM = !std::is_void<P>::value;
    using PmrT               = std::integral_constant<bool, PM>;
    static constexpr int N   = 4;

    Pool<P>                   pool;
    alignas(Fn) unsigned char raw[N][sizeof(Fn)];
    bool                      alive[N] = {};
    Model                     m[N];
    Rng&                      rng;
    std::uint64_t             elem_k = 0, alloc_k = 0;
    bool                      sticky = false;
    bool                      fired  = false;
    bool                      inside = false;  // calls may happen inside a call
    std::size_t               locals = 0;
    int                       next_id = 1;

    explicit World(Rng& r)
        : rng(r)
    {
        std::memset(raw, 0xCD, sizeof raw);
        for (int i = 0; i < 3; ++i)
        {
            pool.heap(i).id = i;
        }
        g_inside = nullptr;
    }
    ~World()
    {
        for (int i = 0; i < N; ++i)
        {
            if (alive[i])
            {
                destroy(i);
            }
        }
        for (int i = 0; i < 3; ++i)
        {
            pool.heap(i).check_empty("the end of the case");
        }
        vh::check_no_live("the end of the case");
        g_log.clear();
    }
    Fn& f(int i)
    {
        return *reinterpret_cast<Fn*>(raw[i]);
    }
    void destroy(int i)
    {
        f(i).~Fn();
        alive[i] = false;
        std::memset(raw[i], 0xCD, sizeof raw[i]);
        m[i] = Model{};
    }
    std::uint64_t failures()
    {
        std::uint64_t n = 0;
        for (int i = 0; i < 3; ++i)
        {
            n += pool.heap(i).n_failed;
        }
        return n;
    }
    template <typename F>
    int guarded(bool elem_ok, F&& fn)
    {
        vh::Fault& fl      = vh::fault();
        const auto before  = fl.fired;
        const auto failed0 = failures();
        fl.elem_countdown  = elem_ok ? elem_k : 0;
        fl.alloc_countdown = alloc_k;
        fl.sticky_alloc    = sticky;
        int r              = 0;
#if VH_EXC
        try
        {
            fn();
        } catch (const vh::Injected&)
        {
            r = 1;
        } catch (const std::bad_alloc&)
        {
            r = 2;
        }
#else
        fn();
#endif
        fl.disarm();
        elem_k = alloc_k = 0;
        fired            = fl.fired != before || failures() != failed0;
#if VH_EXC
        VH_CHECK((r != 0) == fired, "failure-not-reported", "fired %d but the operation ended with %d", int(fired), r);
#endif
        if (fired)
        {
            vh::count("faults");
            vh::nontrivial();
        }
        return r;
    }
    int res_of(std::true_type, int i)
    {
        for (int k = 0; k < 3; ++k)
        {
            if (pool.get(k) == f(i).get_memory_resource())
            {
                return k;
            }
        }
        vh::fail("function.resource", "function %d names an unknown memory resource", i);
    }
    int res_of(std::false_type, int)
    {
        return 0;
    }

    // ---------------------------------------------------------------------------------- observation
    void check(int i)
    {
        VH_CHECK(static_cast<bool>(f(i)) == m[i].full, "function.bool", "function %d, expected %d", i, int(m[i].full));
        VH_CHECK(!(m[i].full && f(i).valueless_by_exception()), "function.valueless", "function %d", i);
        VH_CHECK(res_of(PmrT{}, i) == m[i].res, "function.resource", "function %d, expected resource %d", i, m[i].res);
    }
    void check_all()
    {
        std::size_t live = locals, values = 0, spare = 0, blocks = 0;
        for (int i = 0; i < N; ++i)
        {
            if (alive[i])
            {
                check(i);
                live += m[i].full && tracked(m[i].type) ? 1 : 0;
                values += m[i].full ? 1 : 0;
                spare += m[i].full ? 0 : f(i).valueless_by_exception() ? 1 : 0;
            }
        }
        VH_CHECK(vh::registry().live.size() == live, "lifetime.count", "%zu objects alive, %zu expected", vh::registry().live.size(), live);
        for (int r = 0; r < (PM ? 3 : 1); ++r)
        {
            blocks += pool.heap(r).blocks.size();
        }
        VH_CHECK(blocks <= values + spare, "alloc.count", "%zu blocks for %zu targets", blocks, values);
    }
    void call(int i)
    {
        const int  a     = static_cast<int>(rng.below(900));
        const auto bv    = rng.range(1, 500);
        Arg        ref(rng.range(1, 500));
        Arg        byval(bv);
        locals += 2;
        const std::size_t before = g_log.size();
        const Fn&         cf     = f(i);
        if (m[i].full)
        {
            long       got = 0;
            const bool cst = rng.chance(1, 2);
            const int  r   = guarded(true, [&] { got = cst ? cf(a, ref, byval) : f(i)(a, ref, byval); });
            if (r != 0)
            {
                VH_CHECK(g_log.size() == before, "function.call", "a call whose argument failed was made");
            }
            else
            {
                if (tracked(m[i].type))
                {
                    ++m[i].state;
                }
                VH_CHECK(g_log.size() == before + 1, "function.call-count", "%zu calls were made instead of one", g_log.size() - before);
                const Call& c = g_log.back();
                VH_CHECK(c.id == m[i].id, "function.target", "target %d was called instead of %d", c.id, m[i].id);
                VH_CHECK(c.state == m[i].state, "function.target-state", "call number %d of the target instead of %d", c.state, m[i].state);
                VH_CHECK(c.a == a && c.ref == &ref && c.byval == bv, "function.arguments", "other arguments arrived");
                VH_CHECK(got == result_of(m[i].id, m[i].state, a), "function.result", "another result came back");
                VH_CHECK(byval.value() == bv, "function.arguments", "an lvalue argument changed");
            }
            vh::op("call f%d target %d", i, m[i].id);
            vh::count("calls");
        }
        else
        {
#if VH_EXC
            bool bad = false;
            try
            {
                (void) cf(a, ref, byval);
            } catch (const std::bad_function_call&)
            {
                bad = true;
            }
            VH_CHECK(bad, "function.bad-call", "an empty function was called");
            VH_CHECK(g_log.size() == before, "function.bad-call", "an empty function called a target");
            vh::op("call f%d which is empty", i);
            vh::count("calls of empty functions");
#endif
        }
        locals -= 2;
    }

    // ---------------------------------------------------------------------------------- operations
    Model target(int type, int id, int res)
    {
        Model x;
        x.full = true;
        x.type = type;
        x.id   = id;
        x.res  = res;
        return x;
    }
    /// After a store of `want`, or its failure.
    void stored(int i, const Model& want, const char* what)
    {
        if (!fired)
        {
            m[i] = want;
        }
        else
        {
            const bool full = static_cast<bool>(f(i));
            VH_CHECK(!full || m[i].full, "function.failed-store", "function %d has a target after a failure", i);
            m[i].full = full;  // empty or as before; which target it is shows when it is called
            m[i].res  = res_of(PmrT{}, i);
        }
        vh::op("%s f%d type %d target %d%s", what, i, want.type, want.id, fired ? " FAILED" : "");
        vh::feel(static_cast<std::uint64_t>(want.type) * 4 + (fired ? 1 : 0) + (m[i].full ? 2 : 0));
    }
    template <typename T>
    void put_target(int i, int type, T& t)
    {
        const bool rvalue = rng.chance(1, 2);
        const int  id     = next_id - 1;
        locals += tracked(type) ? 1 : 0;
        if (alive[i])
        {
            guarded(true, [&] {
                if (rvalue)
                {
                    f(i) = std::move(t);
                }
                else
                {
                    f(i) = t;
                }
            });
            stored(i, target(type, id, m[i].res), rvalue ? "assign rvalue" : "assign lvalue");
        }
        else
        {
            const int res = PM ? static_cast<int>(rng.below(3)) : 0;
            const int r   = guarded(true, [&] {
                if (rvalue)
                {
                    build(PmrT{}, i, res, std::move(t));
                }
                else
                {
                    build(PmrT{}, i, res, t);
                }
            });
            if (r != 0)
            {
                std::memset(raw[i], 0xCD, sizeof raw[i]);
                vh::op("construct f%d type %d THREW", i, type);
            }
            else
            {
                alive[i] = true;
                m[i]     = Model{};
                m[i].res = res;
                stored(i, target(type, id, res), rvalue ? "construct rvalue" : "construct lvalue");
            }
        }
        check_all();
        locals -= tracked(type) ? 1 : 0;
    }
    template <typename T>
    void build(std::true_type, int i, int res, T&& t)
    {
        new (raw[i]) Fn(pool.get(res), std::forward<T>(t));
    }
    template <typename T>
    void build(std::false_type, int i, int, T&& t)
    {
        new (raw[i]) Fn(std::forward<T>(t));
    }
    void build_empty(std::true_type, int i, int res)
    {
        new (raw[i]) Fn(pool.get(res));
    }
    void build_empty(std::false_type, int i, int)
    {
        new (raw[i]) Fn();
    }
    void put(int i)
    {
        const int type = static_cast<int>(rng.below(NTYPES));
        const int id   = next_id++;
        switch (type)
        {
        case T_SMALL: {
            Small t(id);
            return put_target(i, type, t);
        }
        case T_NX: {
            NxSmall t(id);
            return put_target(i, type, t);
        }
        case T_BIG:
            return put_big(i, id, std::integral_constant<bool, PM>{});
        case T_TMOVE: {
            TMove t(id);
            return put_target(i, type, t);
        }
        case T_COPYON:
            return put_copy_only(i, id, std::integral_constant<bool, PM>{});
        case T_PTR: {
            Ptr t = nullptr;
            if (rng.chance(1, 2))
            {
                next_id = id;  // its identity is fixed
                t       = &plain<1>;
            }
            else
            {
                t = &plain<2>;
            }
            const int fixed = t == &plain<1> ? 1 : 2;
            const int keep  = next_id;
            next_id         = fixed + 1;
            put_target(i, type, t);
            next_id = keep;
            return;
        }
        default: {
            auto t = [id](int a, const Arg& ref, Arg byval) -> long {
                g_log.push_back(Call{id, 0, a, &ref, byval.value()});
                return result_of(id, 0, a);
            };
            return put_target(i, type, t);
        }
        }
    }
    void put_big(int i, int id, std::true_type)
    {
        Big t(id);
        put_target(i, T_BIG, t);
    }
    void put_big(int, int, std::false_type) {}
    void put_copy_only(int i, int id, std::true_type)
    {
        CopyOn t(id);
        put_target(i, T_COPYON, t);
    }
    void put_copy_only(int, int, std::false_type) {}
    void reset_res(std::true_type, int i)
    {
        const int res = static_cast<int>(rng.below(3));
        f(i).reset(pool.get(res));
        m[i]     = Model{};
        m[i].res = res;
        vh::op("reset f%d to resource %d", i, res);
    }
    void reset_res(std::false_type, int) {}

    void step()
    {
        const int i = static_cast<int>(rng.below(N));
        int       j = static_cast<int>(rng.below(N));
        fired       = false;
        if (!alive[i])
        {
            const auto how = rng.below(6);
            if (how == 0)
            {
                const int res = PM ? static_cast<int>(rng.below(3)) : 0;
                build_empty(PmrT{}, i, res);
                alive[i] = true;
                m[i]     = Model{};
                m[i].res = res;
                vh::op("construct f%d empty", i);
            }
            else if (how == 1 && alive[j])
            {
                const int r = guarded(true, [&] { new (raw[i]) Fn(static_cast<const Fn&>(f(j))); });
                if (r == 0)
                {
                    alive[i] = true;
                    m[i]     = Model{};
                    m[i].res = m[j].res;
                    stored(i, m[j], "copy construct");
                }
                else
                {
                    std::memset(raw[i], 0xCD, sizeof raw[i]);
                    vh::op("copy construct f%d from f%d THREW", i, j);
                }
                vh::nontrivial();
            }
            else if (how == 2 && alive[j])
            {
                new (raw[i]) Fn(std::move(f(j)));
                alive[i]  = true;
                m[i]      = m[j];
                m[j].full = false;
                vh::op("move construct f%d from f%d", i, j);
                vh::nontrivial();
            }
            else
            {
                put(i);
            }
        }
        else
        {
            if (!alive[j])
            {
                j = i;
            }
            switch (rng.below(16))
            {
            case 0:
            case 1:
            case 2:
                put(i);
                break;
            case 3:
            case 4: {
                const Model src = m[j];
                guarded(true, [&] { f(i) = static_cast<const Fn&>(f(j)); });
                stored(i, src, "copy assign");
                vh::nontrivial();
                break;
            }
            case 5:
            case 6: {
                const Model src = m[j];
                f(i)            = std::move(f(j));
                if (i != j)
                {
                    m[j].full = false;
                    m[i]      = src;
                }
                vh::op("move assign f%d from f%d", i, j);
                vh::nontrivial();
                break;
            }
            case 7:
            case 8:
                if (rng.chance(1, 2))
                {
                    f(i).swap(f(j));
                }
                else
                {
                    std::swap(f(i), f(j));
                }
                std::swap(m[i], m[j]);
                vh::op("swap f%d f%d", i, j);
                vh::nontrivial();
                break;
            case 9:
                if (rng.chance(1, 2))
                {
                    f(i) = nullptr;
                }
                else
                {
                    f(i).reset();
                }
                m[i].full = false;
                VH_CHECK(!f(i).valueless_by_exception(), "function.reset", "function %d is still valueless", i);
                vh::op("reset f%d", i);
                break;
            case 10:
                reset_res(PmrT{}, i);
                break;
            case 11:
                vh::op("destroy f%d", i);
                destroy(i);
                break;
            case 12:
                if (m[i].full && tracked(m[i].type) && m[j].full && i != j)
                {
                    // a call inside a call
                    const int  k    = m[j].id;
                    const bool tr   = tracked(m[j].type);
                    bool       done = false;
                    Arg        ref(5), bv(6);
                    locals += 2;
                    g_inside = [&] {
                        if (!done)
                        {
                            done = true;
                            (void) f(j)(1, ref, bv);
                        }
                    };
                    const std::size_t before = g_log.size();
                    const long        got    = f(i)(2, ref, bv);
                    g_inside                 = nullptr;
                    ++m[i].state;
                    m[j].state += tr ? 1 : 0;
                    VH_CHECK(g_log.size() == before + 2 && g_log[before].id == m[i].id && g_log[before + 1].id == k, "function.nested", "nested calls");
                    VH_CHECK(got == result_of(m[i].id, m[i].state, 2), "function.nested", "result of the outer call");
                    locals -= 2;
                    vh::op("call f%d inside f%d", j, i);
                }
                break;
            default:
                call(i);
            }
        }
        elem_k = alloc_k = 0;
        check_all();
        vh::feel(static_cast<std::uint64_t>(i) * 64 + static_cast<std::uint64_t>(j) * 4 + (m[i].full ? 1 : 0));
    }
    void call_all()
    {
        for (int i = 0; i < N; ++i)
        {
            if (alive[i])
            {
                call(i);
                check_all();
            }
        }
    }
};

template <typename W>
void history(Rng& rng)
{
    W         w(rng);
    const int n = static_cast<int>(rng.range(6, 40));
    for (int k = 0; k < n; ++k)
    {
        w.step();
    }
    w.call_all();
}
template <typename W>
void starved(Rng& rng)
{
    W w(rng);
    for (int r = 0; r < 3; ++r)
    {
        w.pool.heap(r).limit = rng.chance(1, 3) ? rng.below(120) : rng.below(1200);
    }
    const int n = static_cast<int>(rng.range(6, 40));
    for (int k = 0; k < n; ++k)
    {
        if (rng.chance(1, 4))
        {
            w.alloc_k = 1 + rng.below(2);
            w.sticky  = rng.chance(1, 2);
        }
#if VH_EXC
        if (rng.chance(1, 4))
        {
            w.elem_k = 1 + rng.below(4);
        }
#endif
        w.step();
    }
    w.call_all();
}
template <typename W>
void faults(Rng& rng)
{
    const std::uint64_t seed   = rng.next();
    const int           n      = static_cast<int>(rng.range(2, 12));
    const int           tail   = static_cast<int>(rng.range(1, 6));
    const bool          sticky = rng.chance(1, 3);
    for (int kind = VH_EXC ? 0 : 1; kind < 2; ++kind)
    {
        for (std::uint64_t k = 1; k < 12; ++k)
        {
            Rng r(seed);
            W   w(r);
            for (int s = 0; s < n; ++s)
            {
                w.step();
            }
            (kind == 0 ? w.elem_k : w.alloc_k) = k;
            w.sticky                           = sticky;
            w.step();
            const bool hit = w.fired;
            w.call_all();
            for (int s = 0; s < tail; ++s)
            {
                w.step();
            }
            w.call_all();
            vh::feel(k * 2 + static_cast<std::uint64_t>(kind));
            if (!hit)
            {
                break;
            }
            vh::count("fault points");
        }
    }
}
// Other signatures: nothing returned, references passed and returned, many arguments, callables with several overloads.
struct Over
{
    int operator()(int) { return 1; }
    int operator()(int) const { return 2; }
    int operator()(double) { return 3; }
};
static void signatures(Rng& rng)
{
    using cetl::pmr::function;
    int               x = static_cast<int>(rng.below(1000)), y = 7;
    function<void(), 48> f0 = [&] { ++y; };
    f0();
    VH_CHECK(y == 8, "function.void", "called %d times", y - 7);
    function<int&(int&), 48> f1 = [](int& r) -> int& { return r; };
    VH_CHECK(&f1(x) == &x, "function.reference", "another object came back");
    function<const int*(const int&), 48> f2 = [](const int& r) { return &r; };
    VH_CHECK(f2(x) == &x, "function.reference", "another object came in");
    function<std::string(int, std::string, double, char), 64> f3 = [](int a, std::string s, double d, char c) {
        return std::to_string(a) + s + std::to_string(static_cast<int>(d)) + c;
    };
    const std::string s(rng.below(40), 'x');
    VH_CHECK(f3(x, s, 3.5, 'q') == std::to_string(x) + s + "3q", "function.arguments", "arguments in another order");
    auto f4 = f3;
    f3      = nullptr;
    VH_CHECK(!f3 && f4 && f4(1, "a", 2, 'b') == "1a2b", "function.copy", "the copy calls something else");
    function<int(int), 48> f5 = Over{};
    VH_CHECK(f5(3) == 1, "function.overload", "another overload was called");
    function<int(const int&), 48> inner = [&](const int& v) { return v + x; };
    function<int(const int&), 128> outer = inner;  // a function as the target of another one
    inner                                = nullptr;
    VH_CHECK(outer(2) == 2 + x, "function.nested-target", "the inner function is lost");
    function<void(int), 48> counter;
    int                     total = 0;
    VH_CHECK(!counter, "function.bool", "a new function has a target");
    counter = [&total, n = 0](int d) mutable { total = n += d; };
    counter(2);
    auto other = counter;
    counter(3);
    VH_CHECK(total == 5, "function.state", "the state of the target is %d", total);
    other(10);
    VH_CHECK(total == 12, "function.state", "the state of the copied target is %d", total);
    vh::op("signatures %d", x);
    vh::feel(static_cast<std::uint64_t>(x) * 64 + s.size());
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ how targets get there
/// Counts its copies.
struct Counted
{
    int* copies;
    int  v;
    bool gone;
    Counted(int* c, int x)
        : copies(c)
        , v(x)
        , gone(false)
    {
    }
    Counted(const Counted& o)
        : copies(o.copies)
        , v(o.v)
        , gone(o.gone)
    {
        ++*copies;
    }
    Counted(Counted&& o) noexcept
        : copies(o.copies)
        , v(o.v)
        , gone(o.gone)
    {
        o.gone = true;
    }
    Counted& operator=(const Counted&) = delete;
    int operator()(int x) const { return gone ? -1 : v + x; }
};
template <typename F>
struct Maker
{
    template <typename A>
    F make(A&& a)
    {
        return F(std::forward<A>(a));
    }
    F none() { return F(); }
};
template <std::size_t N>
struct Maker<cetl::pmr::function<int(int), N, cetl::pf17::pmr::memory_resource>>
{
    using F = cetl::pmr::function<int(int), N, cetl::pf17::pmr::memory_resource>;
    vh::MemRes res;
    template <typename A>
    F make(A&& a)
    {
        return F(&res, std::forward<A>(a));
    }
    F none() { return F(&res); }
};
template <typename F>
void categories_of(Rng& rng)
{
    Maker<F>  m;
    int       copies = 0;
    const int n      = static_cast<int>(rng.below(100));
    auto      check  = [&](const char* what, F& f, const Counted& from, bool moved) {
        VH_CHECK((copies == 0) == moved, "function.copies", "%s: %d copies of the callable", what, copies);
        VH_CHECK(from.gone == moved, "function.source", "%s: the callable given has %sbeen moved from", what, from.gone ? "" : "not ");
        VH_CHECK(static_cast<bool>(f) && f(5) == n + 5, "function.target", "%s: another target", what);
        copies = 0;
        vh::count("targets");
    };
    {
        Counted c(&copies, n);
        F       f(m.make(c));
        check("from an lvalue", f, c, false);
        F g(m.make(static_cast<const Counted&>(c)));
        check("from a const lvalue", g, c, false);
        F h(m.make(std::move(c)));
        check("from an rvalue", h, c, true);
    }
    {
        Counted c(&copies, n);
        F       f(m.none());
        if (rng.chance(1, 2))
        {
            f = [](int x) { return x; };
        }
        f = c;
        check("assigned an lvalue", f, c, false);
        f = static_cast<const Counted&>(c);
        check("assigned a const lvalue", f, c, false);
        F& back = (f = std::move(c));
        VH_CHECK(&back == &f, "function.assign-result", "another function");
        check("assigned an rvalue", f, c, true);
        F g(std::move(f));
        VH_CHECK(copies == 0 && g(1) == n + 1, "function.copies", "a move copied the target");
        F h(m.none());
        h = std::move(g);
        VH_CHECK(copies == 0 && h(1) == n + 1, "function.copies", "a move assignment copied the target");
        f = m.none();
        f.swap(h);
        VH_CHECK(copies == 0 && f(1) == n + 1 && !h, "function.copies", "a swap copied the target");
    }
#if !VH_EXC
    const bool died = vh::terminates([&] {
        F f(m.none());
        (void) f(3);
    });
    VH_CHECK(died, "function.empty-call", "calling an empty function returned");
#endif
    vh::op("categories %d", n);
    vh::feel(static_cast<std::uint64_t>(n));
    vh::nontrivial();
}
static void categories(Rng& rng)
{
    categories_of<cetl::pmr::function<int(int), 48>>(rng);
    categories_of<cetl::pmr::function<int(int), 0, cetl::pf17::pmr::memory_resource>>(rng);
    categories_of<cetl::pmr::function<int(int), 48, cetl::pf17::pmr::memory_resource>>(rng);
}

using MR = cetl::pf17::pmr::memory_resource;
using W0 = World<48, void>;
using W1 = World<0, MR>;
using W2 = World<48, MR>;
using W3 = World<0, NullRes>;
using W4 = World<16, NullRes>;
#define FIVE(fn)                                                                                                       \
    [](Rng& r) {                                                                                                       \
        switch (r.below(5))                                                                                            \
        {                                                                                                              \
        case 0:                                                                                                        \
            return fn<W0>(r);                                                                                          \
        case 1:                                                                                                        \
            return fn<W1>(r);                                                                                          \
        case 2:                                                                                                        \
            return fn<W2>(r);                                                                                          \
        case 3:                                                                                                        \
            return fn<W3>(r);                                                                                          \
        default:                                                                                                       \
            return fn<W4>(r);                                                                                          \
        }                                                                                                              \
    }
int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("history", 100, FIVE(history));
    vh::suite("starved", 100, FIVE(starved));
    vh::suite("faults", 50, FIVE(faults));
    vh::suite("signatures", 20, signatures);
    vh::suite("categories", VH_EXC ? 10 : 1, categories);
    return vh::finish();
}

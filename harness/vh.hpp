// Shared runtime-monitoring support: seeded workloads, operation trace, object registry, recording memory.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VH_ASAN 1
#    endif
#    if __has_feature(thread_sanitizer)
#        define VH_TSAN 1
#    endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#    define VH_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#    define VH_TSAN 1
#endif
#if defined(VH_ASAN)
#    include <sanitizer/asan_interface.h>
#endif
#if defined(VH_ASAN) || defined(VH_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

// -DVH_THREADS runs every case in several threads at once, each with objects of its own.
#if defined(VH_THREADS)
#    include <atomic>
#    include <thread>
#    define VH_TLS thread_local
#else
#    define VH_TLS
#endif

#if defined(__cpp_exceptions)
#    define VH_EXC 1
#    define VH_TRY try
#    define VH_CATCH(x) catch (x)
#    define VH_CATCH_ALL catch (...)
#    define VH_THROW(x) throw x
#else
#    define VH_EXC 0
#endif

#if defined(VH_ASAN)
/// Looking for uses of dead stack frames makes every exception very slow.
extern "C" __attribute__((used)) const char* __asan_default_options()
{
#    if defined(__cpp_exceptions) && !defined(VH_UAR)
    return "detect_stack_use_after_return=0";
#    else
    return "detect_stack_use_after_return=1";
#    endif
}
#endif

namespace vh
{
// ------------------------------------------------------------------------------------------------ randomness
inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed)
        : s(seed)
    {
    }
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t z = s;
        z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z               = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n)
    {
        return n == 0 ? 0 : next() % n;
    }
    std::int64_t range(std::int64_t lo, std::int64_t hi)  // inclusive
    {
        return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo + 1)));
    }
    bool chance(unsigned num, unsigned den)
    {
        return below(den) < num;
    }
    template <std::size_t N, typename T>
    T pick(const T (&a)[N])
    {
        return a[below(N)];
    }
};

// ------------------------------------------------------------------------------------------------ run context
struct Run
{
    std::uint64_t                        seed     = 1;
    std::uint64_t                        cases    = 100;
    std::uint64_t                        first    = 0;
    std::uint64_t                        stride   = 1;
    long long                            only     = -1;
    std::string                          suite;  // run only this suite if not empty
    std::string                          sigs_path;
    bool                                 verbose = false;
    unsigned                             hang_s  = 90;
    int                                  tier    = 0;  // 0 quick, 1 thorough
    // current
    const char*                          cur_suite = "";
    std::uint64_t                        cur_case  = 0;
    std::uint64_t                        evaluations = 0;
    std::uint64_t                        ops         = 0;
    std::unordered_set<std::uint64_t>    sigs;
    std::map<std::string, std::uint64_t> counts;
    std::vector<std::string>             samples;
    std::uint64_t                        hist = 0;
    bool                                 nontrivial = false;
    std::uint64_t                        digest     = 0;
};
inline Run& run()
{
    static VH_TLS Run r;
    return r;
}
constexpr unsigned RING = 48;
struct Ring
{
    char     line[RING][136];
    unsigned n;
};
inline Ring& ring()
{
    static VH_TLS Ring r;
    return r;
}
inline void dump_context()
{
    std::fflush(stdout);
    std::printf("\n@CONTEXT suite=%s case=%llu seed=%llu\n",
                run().cur_suite,
                static_cast<unsigned long long>(run().cur_case),
                static_cast<unsigned long long>(run().seed));
    const unsigned n     = ring().n;
    const unsigned start = n > RING ? n - RING : 0;
    for (unsigned i = start; i < n; ++i)
    {
        std::printf("@OP %u %s\n", i, ring().line[i % RING]);
    }
    std::fflush(stdout);
}
inline void count(const char* what, std::uint64_t n = 1)
{
    run().counts[what] += n;
}
/// Records one operation in the trace; the format string must be the op name first.
__attribute__((format(printf, 1, 2))) inline void op(const char* fmt, ...)
{
    Ring&   r = ring();
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(r.line[r.n % RING], sizeof r.line[0], fmt, ap);
    va_end(ap);
    if (run().verbose)
    {
        std::printf("  %s\n", r.line[r.n % RING]);
    }
    ++r.n;
    ++run().ops;
}
/// Feeds the abstract history of the case.
inline void feel(std::uint64_t x)
{
    run().hist = mix(run().hist ^ mix(x));
}
inline void nontrivial()
{
    run().nontrivial = true;
}
/// Feeds the digest of observable behaviour (compared across configurations).
inline void observe(std::uint64_t x)
{
    run().digest = mix(run().digest ^ mix(x + 0x1234567));
}
/// Of several threads only one reports.
inline void report_alone()
{
#if defined(VH_THREADS)
    static std::atomic<bool> taken{false};
    while (taken.exchange(true))
    {
        ::sleep(60);
    }
#endif
    std::fflush(stdout);
}
[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(const char* key, const char* fmt, ...)
{
    report_alone();
    std::printf("\n@VIOLATION key=%s\n@DETAIL ", key);
    va_list ap;
    va_start(ap, fmt);
    std::vprintf(fmt, ap);
    va_end(ap);
    std::printf("\n");
    dump_context();
    _exit(42);
}
[[noreturn]] __attribute__((format(printf, 3, 4))) inline void broken(const char* key, const char* cond, const char* fmt, ...)
{
    report_alone();
    std::printf("\n@VIOLATION key=%s\n@DETAIL %s: ", key, cond);
    va_list ap;
    va_start(ap, fmt);
    std::vprintf(fmt, ap);
    va_end(ap);
    std::printf("\n");
    dump_context();
    _exit(42);
}
#define VH_CHECK(cond, key, ...)                                                                                       \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
        {                                                                                                              \
            ::vh::broken(key, #cond, __VA_ARGS__);                                                                    \
        }                                                                                                              \
    } while (0)

inline void on_signal(int sig)
{
    std::printf("\n@DEATH signal=%d\n", sig);
    dump_context();
    _exit(44);
}
inline void on_death()
{
    std::printf("\n@DEATH sanitizer\n");
    dump_context();
}
inline void on_alarm(int)
{
    std::printf("\n@HANG\n");
    dump_context();
    _exit(46);
}
inline void on_terminate()
{
    std::printf("\n@DEATH terminate\n");
    dump_context();
    _exit(45);
}

inline void init(int argc, char** argv)
{
    Run& r = run();
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto              v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed")
            r.seed = std::strtoull(v().c_str(), nullptr, 10);
        else if (a == "--cases")
            r.cases = std::strtoull(v().c_str(), nullptr, 10);
        else if (a == "--first")
            r.first = std::strtoull(v().c_str(), nullptr, 10);
        else if (a == "--stride")
            r.stride = std::strtoull(v().c_str(), nullptr, 10);
        else if (a == "--case")
            r.only = std::strtoll(v().c_str(), nullptr, 10);
        else if (a == "--suite")
            r.suite = v();
        else if (a == "--sigs")
            r.sigs_path = v();
        else if (a == "--tier")
            r.tier = std::atoi(v().c_str());
        else if (a == "--verbose")
            r.verbose = true;
    }
    std::setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    std::signal(SIGABRT, &on_signal);
    std::signal(SIGALRM, &on_alarm);
    std::set_terminate(&on_terminate);
#if !defined(VH_ASAN)
    std::signal(SIGSEGV, &on_signal);
    std::signal(SIGFPE, &on_signal);
    std::signal(SIGILL, &on_signal);
#endif
#if defined(VH_ASAN) || defined(VH_TSAN)
    __sanitizer_set_death_callback(&on_death);
#endif
}

inline std::uint64_t str_hash(const char* s)
{
    std::uint64_t h = 1469598103934665603ULL;
    while (*s)
    {
        h = (h ^ static_cast<unsigned char>(*s++)) * 1099511628211ULL;
    }
    return h;
}

#if defined(VH_THREADS)
/// One case in each of several threads, started together; what they observed is added up.
template <typename F>
void run_threads(F& body, std::uint64_t seed)
{
    constexpr unsigned    N = VH_THREADS;
    Run&                  r = run();
    std::atomic<unsigned> gate{0};
    std::vector<Run>      seen(N);
    std::vector<std::thread> threads;
    std::vector<Ring>     rings(1);
    for (unsigned i = 0; i < N; ++i)
    {
        threads.emplace_back([&, i] {
            Run& own      = run();
            own           = Run{};
            own.seed      = r.seed;
            own.verbose   = r.verbose;
            own.tier      = r.tier;
            own.cur_suite = r.cur_suite;
            own.cur_case  = r.cur_case;
            own.hist      = r.hist;
            ring().n      = 0;
            Rng rng(mix(seed + i));
            gate.fetch_add(1, std::memory_order_relaxed);
            while (gate.load(std::memory_order_relaxed) < N)
            {
            }
            body(rng);
            if (i == 0)
            {
                rings[0] = ring();
            }
            seen[i] = std::move(own);
        });
    }
    for (auto& t : threads)
    {
        t.join();
    }
    for (auto& x : seen)
    {
        r.hist = mix(r.hist ^ x.hist);
        r.ops += x.ops;
        r.nontrivial = r.nontrivial || x.nontrivial;
        for (auto& kv : x.counts)
        {
            r.counts[kv.first] += kv.second;
        }
    }
    ring() = rings[0];
    count("threads", N);
}
#endif

/// Runs one suite: `body(Rng&)` is one case. `weight` scales the number of cases (in percent).
template <typename F>
void suite(const char* name, unsigned weight, F&& body)
{
    Run& r = run();
    if (r.suite.empty() ? std::strncmp(name, "known.", 6) == 0 : ("," + r.suite + ",").find("," + std::string(name) + ",") == std::string::npos)
    {
        return;  // known findings are probed on request only
    }
    r.cur_suite             = name;
    const std::uint64_t n   = std::max<std::uint64_t>(1, r.cases * weight / 100U);
    std::uint64_t       own = 0;
    for (std::uint64_t c = r.first; c < n; c += r.stride)
    {
        if (r.only >= 0)
        {
            c = static_cast<std::uint64_t>(r.only);
        }
        r.cur_case   = c;
        r.hist       = str_hash(name);
        r.nontrivial = false;
        ring().n     = 0;
        if (r.verbose)
        {
            std::printf("suite %s case %llu\n", name, static_cast<unsigned long long>(c));
        }
        if (own % 64 == 0)
        {
            ::alarm(r.hang_s);
        }
        Rng rng(mix(r.seed * 0x100000001B3ULL ^ mix(c) ^ str_hash(name)));
#if defined(VH_THREADS)
        run_threads(body, rng.next());
#else
        body(rng);
#endif
        ++r.evaluations;
        ++own;
        if (r.nontrivial)
        {
            r.sigs.insert(r.hist);
        }
        if (own == 1 || (own == 7 && r.samples.size() < 12))
        {
            std::string s = std::string(name) + "#" + std::to_string(c) + ":";
            for (unsigned i = 0; i < ring().n && i < 10; ++i)
            {
                s += " ";
                s += ring().line[i % RING];
                s += ";";
            }
            if (ring().n <= RING && r.samples.size() < 24)
            {
                r.samples.push_back(s);
            }
        }
        if (r.only >= 0)
        {
            break;
        }
    }
    count((std::string("suite.") + name).c_str(), own);
}

inline std::string json_escape(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (static_cast<unsigned char>(c) < 0x20 || static_cast<unsigned char>(c) > 0x7e)
        {
            o += '.';
        }
        else
        {
            o += c;
        }
    }
    return o;
}

inline int finish()
{
    Run& r = run();
    if (!r.sigs_path.empty())
    {
        FILE* f = std::fopen(r.sigs_path.c_str(), "wb");
        if (f)
        {
            for (std::uint64_t s : r.sigs)
            {
                std::fwrite(&s, sizeof s, 1, f);
            }
            std::fclose(f);
        }
    }
    std::printf("\n@COV {\"evaluations\": %llu, \"ops\": %llu, \"distinct\": %llu, \"digest\": \"%016llx\", \"counts\": {",
                static_cast<unsigned long long>(r.evaluations),
                static_cast<unsigned long long>(r.ops),
                static_cast<unsigned long long>(r.sigs.size()),
                static_cast<unsigned long long>(r.digest));
    bool first = true;
    for (auto& kv : r.counts)
    {
        std::printf("%s\"%s\": %llu", first ? "" : ", ", kv.first.c_str(), static_cast<unsigned long long>(kv.second));
        first = false;
    }
    std::printf("}, \"samples\": [");
    first = true;
    for (auto& s : r.samples)
    {
        std::printf("%s\"%s\"", first ? "" : ", ", json_escape(s).c_str());
        first = false;
    }
    std::printf("]}\n@DONE\n");
    std::fflush(stdout);
    return 0;
}

// ------------------------------------------------------------------------------------------------ fault injection
struct Injected
{
    int what;
};
struct Fault
{
    // countdown: 0 = disarmed. When it reaches 1 the next tick fires.
    std::uint64_t elem_countdown  = 0;
    std::uint64_t alloc_countdown = 0;
    std::uint64_t elem_ticks      = 0;
    std::uint64_t alloc_ticks     = 0;
    std::uint64_t fired           = 0;
    bool          sticky_alloc    = false;  // all following allocations fail as well
    void          disarm()
    {
        elem_countdown = alloc_countdown = 0;
        sticky_alloc                     = false;
    }
};
inline Fault& fault()
{
    static VH_TLS Fault f;
    return f;
}
inline void elem_tick()
{
    Fault& f = fault();
    ++f.elem_ticks;
    if (f.elem_countdown != 0 && --f.elem_countdown == 0)
    {
        ++f.fired;
#if VH_EXC
        throw Injected{1};
#endif
    }
}
/// Returns true if this allocation has to fail.
inline bool alloc_tick()
{
    Fault& f = fault();
    ++f.alloc_ticks;
    if (f.alloc_countdown != 0 && --f.alloc_countdown == 0)
    {
        ++f.fired;
        if (f.sticky_alloc)
        {
            f.alloc_countdown = 1;
        }
        return true;
    }
    return false;
}

// ------------------------------------------------------------------------------------------------ object registry
struct Registry
{
    std::unordered_map<const void*, int> live;  // address -> flavour
    std::uint64_t                        born = 0, died = 0, copies = 0, moves = 0;
};
inline Registry& registry()
{
    static VH_TLS Registry r;
    return r;
}
constexpr std::int64_t  MOVED = -777777;
constexpr std::uint32_t ALIVE = 0xA11CE5E5U;
constexpr std::uint32_t DEAD  = 0xDEADDEADU;

struct NoInit
{};

/// Flags of an element type.
enum : int
{
    F_COPY      = 1,    // copyable
    F_MOVE      = 2,    // has a move distinct from copy
    F_NXMOVE    = 4,    // move is noexcept
    F_ASSIGN    = 8,    // assignable
    F_ALIGN     = 16,   // over-aligned
    F_BIG       = 32,   // large
    F_NXCOPY    = 64,   // copy is noexcept
};

template <bool B>
struct AlignPad
{};
template <>
struct alignas(64) AlignPad<true>
{};
template <bool B>
struct BigPad
{};
template <>
struct BigPad<true>
{
    char pad[200];
};

template <int Flags, int Tag = 0>
class Elem;

/// The state and bookkeeping part common to all element flavours.
template <int Flags, int Tag>
class ElemCore : private AlignPad<(Flags & F_ALIGN) != 0>, private BigPad<(Flags & F_BIG) != 0>
{
public:
    void birth(std::int64_t v)
    {
        Registry& r  = registry();
        const auto k = static_cast<const void*>(this);
        if (reinterpret_cast<std::uintptr_t>(this) % alignof(ElemCore) != 0)
        {
            fail("lifetime.misaligned", "object constructed at misaligned address %p", k);
        }
        const auto ins = r.live.insert({k, Flags * 64 + Tag});
        if (!ins.second)
        {
            fail("lifetime.double-construct", "object constructed over a live object (value %lld)", static_cast<long long>(v));
        }
        ++r.born;
        magic_ = ALIVE;
        self_  = this;
        value_ = v;
    }
    void death()
    {
        check("destroy");
        Registry& r = registry();
        r.live.erase(static_cast<const void*>(this));
        ++r.died;
        magic_ = DEAD;
        self_  = nullptr;
    }
    void check(const char* what) const
    {
        Registry&  r  = registry();
        const auto it = r.live.find(static_cast<const void*>(this));
        if (it == r.live.end())
        {
            fail("lifetime.dead-object", "%s on an address where no object is alive", what);
        }
        if (it->second != Flags * 64 + Tag)
        {
            fail("lifetime.wrong-type", "%s on an object of another type", what);
        }
        if (magic_ != ALIVE || self_ != this)
        {
            fail("lifetime.corrupt-object", "%s: object overwritten or relocated without its move operation", what);
        }
    }
    std::int64_t value() const
    {
        check("read");
        return value_;
    }
    const std::int64_t& part() const
    {
        check("read");
        return value_;
    }
    void set(std::int64_t v)
    {
        check("write");
        value_ = v;
    }
    void mark_moved()
    {
        check("move-from");
        value_ = MOVED;
    }

private:
    std::uint32_t   magic_;
    const ElemCore* self_;
    std::int64_t    value_;
};

#define VH_ELEM_COMMON(F)                                                                                              \
    using Core = ElemCore<F, Tag>;                                                                                     \
                                                                                                                       \
public:                                                                                                                \
    Elem()                                                                                                             \
    {                                                                                                                  \
        elem_tick();                                                                                                   \
        Core::birth(0);                                                                                                \
    }                                                                                                                  \
    Elem(std::int64_t v)                                                                                               \
    {                                                                                                                  \
        elem_tick();                                                                                                   \
        Core::birth(v);                                                                                                \
    }                                                                                                                  \
    Elem(std::int64_t v, int add)                                                                                      \
        : Elem(v + add)                                                                                                \
    {                                                                                                                  \
    }                                                                                                                  \
    Elem(const Elem& o, char, char)                                                                                    \
        : Elem(o.value())                                                                                              \
    {                                                                                                                  \
    }                                                                                                                  \
    using Core::part;                                                                                                  \
    ~Elem()                                                                                                            \
    {                                                                                                                  \
        Core::death();                                                                                                 \
    }                                                                                                                  \
    using Core::value;                                                                                                 \
    using Core::set;                                                                                                   \
    friend bool operator==(const Elem& a, const Elem& b)                                                               \
    {                                                                                                                  \
        return a.value() == b.value();                                                                                 \
    }                                                                                                                  \
    friend bool operator!=(const Elem& a, const Elem& b)                                                               \
    {                                                                                                                  \
        return a.value() != b.value();                                                                                 \
    }                                                                                                                  \
    friend bool operator<(const Elem& a, const Elem& b)                                                                \
    {                                                                                                                  \
        return a.value() < b.value();                                                                                  \
    }                                                                                                                  \
    friend bool operator>(const Elem& a, const Elem& b)                                                                \
    {                                                                                                                  \
        return a.value() > b.value();                                                                                  \
    }                                                                                                                  \
    friend bool operator<=(const Elem& a, const Elem& b)                                                               \
    {                                                                                                                  \
        return a.value() <= b.value();                                                                                 \
    }                                                                                                                  \
    friend bool operator>=(const Elem& a, const Elem& b)                                                               \
    {                                                                                                                  \
        return a.value() >= b.value();                                                                                 \
    }

#define VH_COPY_CTOR(NX)                                                                                               \
    Elem(const Elem& o) noexcept(NX)                                                                                   \
        : Core()                                                                                                       \
    {                                                                                                                  \
        if (!NX)                                                                                                       \
            elem_tick();                                                                                               \
        ++registry().copies;                                                                                           \
        Core::birth(o.value());                                                                                        \
    }
#define VH_COPY_ASSIGN(NX)                                                                                             \
    Elem& operator=(const Elem& o) noexcept(NX)                                                                        \
    {                                                                                                                  \
        Core::check("copy-assign");                                                                                    \
        if (!NX)                                                                                                       \
            elem_tick();                                                                                               \
        ++registry().copies;                                                                                           \
        Core::set(o.value());                                                                                          \
        return *this;                                                                                                  \
    }
#define VH_MOVE_CTOR(NX)                                                                                               \
    Elem(Elem&& o) noexcept(NX)                                                                                        \
        : Core()                                                                                                       \
    {                                                                                                                  \
        if (!NX)                                                                                                       \
            elem_tick();                                                                                               \
        ++registry().moves;                                                                                            \
        const std::int64_t v = o.value();                                                                              \
        Core::birth(v);                                                                                                \
        o.mark_moved();                                                                                                \
    }
#define VH_MOVE_ASSIGN(NX)                                                                                             \
    Elem& operator=(Elem&& o) noexcept(NX)                                                                             \
    {                                                                                                                  \
        Core::check("move-assign");                                                                                    \
        if (!NX)                                                                                                       \
            elem_tick();                                                                                               \
        ++registry().moves;                                                                                            \
        const std::int64_t v = o.value();                                                                              \
        if (&o != this)                                                                                                \
        {                                                                                                              \
            o.mark_moved();                                                                                            \
            Core::set(v);                                                                                              \
        }                                                                                                              \
        return *this;                                                                                                  \
    }

// copyable, nothrow movable
template <int Tag>
class Elem<15, Tag> : private ElemCore<15, Tag>
{
    VH_ELEM_COMMON(15)
    VH_COPY_CTOR(false) VH_COPY_ASSIGN(false) VH_MOVE_CTOR(true) VH_MOVE_ASSIGN(true)
};
// copyable, throwing move
template <int Tag>
class Elem<11, Tag> : private ElemCore<11, Tag>
{
    VH_ELEM_COMMON(11)
    VH_COPY_CTOR(false) VH_COPY_ASSIGN(false) VH_MOVE_CTOR(false) VH_MOVE_ASSIGN(false)
};
// move only, nothrow
template <int Tag>
class Elem<14, Tag> : private ElemCore<14, Tag>
{
    VH_ELEM_COMMON(14)
    Elem(const Elem&)            = delete;
    Elem& operator=(const Elem&) = delete;
    VH_MOVE_CTOR(true) VH_MOVE_ASSIGN(true)
};
// move only, throwing
template <int Tag>
class Elem<10, Tag> : private ElemCore<10, Tag>
{
    VH_ELEM_COMMON(10)
    Elem(const Elem&)            = delete;
    Elem& operator=(const Elem&) = delete;
    VH_MOVE_CTOR(false) VH_MOVE_ASSIGN(false)
};
// copy only (no move declared: moves copy)
template <int Tag>
class Elem<9, Tag> : private ElemCore<9, Tag>
{
    VH_ELEM_COMMON(9)
    VH_COPY_CTOR(false) VH_COPY_ASSIGN(false)
};
// nothrow copy, nothrow move
template <int Tag>
class Elem<79, Tag> : private ElemCore<79, Tag>
{
    VH_ELEM_COMMON(79)
    VH_COPY_CTOR(true) VH_COPY_ASSIGN(true) VH_MOVE_CTOR(true) VH_MOVE_ASSIGN(true)
};
// nothrow copy, throwing move
template <int Tag>
class Elem<75, Tag> : private ElemCore<75, Tag>
{
    VH_ELEM_COMMON(75)
    VH_COPY_CTOR(true) VH_COPY_ASSIGN(true) VH_MOVE_CTOR(false) VH_MOVE_ASSIGN(false)
};
// over-aligned copyable, nothrow movable
template <int Tag>
class Elem<31, Tag> : private ElemCore<31, Tag>
{
    VH_ELEM_COMMON(31)
    VH_COPY_CTOR(false) VH_COPY_ASSIGN(false) VH_MOVE_CTOR(true) VH_MOVE_ASSIGN(true)
};
// big copyable, nothrow movable
template <int Tag>
class Elem<47, Tag> : private ElemCore<47, Tag>
{
    VH_ELEM_COMMON(47)
    VH_COPY_CTOR(false) VH_COPY_ASSIGN(false) VH_MOVE_CTOR(true) VH_MOVE_ASSIGN(true)
};
// big copyable, throwing move
template <int Tag>
class Elem<43, Tag> : private ElemCore<43, Tag>
{
    VH_ELEM_COMMON(43)
    VH_COPY_CTOR(false) VH_COPY_ASSIGN(false) VH_MOVE_CTOR(false) VH_MOVE_ASSIGN(false)
};
// copyable and movable, not assignable
template <int Tag>
class Elem<7, Tag> : private ElemCore<7, Tag>
{
    VH_ELEM_COMMON(7)
    VH_COPY_CTOR(false) VH_MOVE_CTOR(true)
    Elem& operator=(const Elem&) = delete;
    Elem& operator=(Elem&&)      = delete;
};

using ENormal    = Elem<15>;
using EThrowMove = Elem<11>;
using EMoveOnly  = Elem<14>;
using EMoveOnlyT = Elem<10>;
using ECopyOnly  = Elem<9>;
using ENxCopy    = Elem<79>;
using EAligned   = Elem<31>;
using EBig       = Elem<47>;

/// Whether f() ends in std::terminate() (tried in a child process).
template <typename F>
bool terminates(F&& f)
{
    count("death trials");
    std::fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0)
    {
        std::set_terminate([] { _exit(77); });
        f();
        _exit(0);
    }
    int status = 0;
    if (pid < 0 || waitpid(pid, &status, 0) != pid)
    {
        std::perror("fork");
        _exit(3);
    }
    return WIFEXITED(status) && WEXITSTATUS(status) == 77;
}

inline void check_no_live(const char* where)
{
    if (!registry().live.empty())
    {
        fail("lifetime.leak", "%zu objects still alive at %s", registry().live.size(), where);
    }
}

// ------------------------------------------------------------------------------------------------ recording heap
/// A heap that hands out exactly sized, exactly aligned blocks and checks everything that comes back.
class Heap
{
public:
    struct Block
    {
        std::size_t size;
        std::size_t align;
        void*       raw;
        std::size_t raw_size;
        std::size_t room;  // bytes available for growth in place
    };
    int         id      = 0;
    std::size_t limit   = static_cast<std::size_t>(-1);  // total live bytes allowed
    std::size_t live_bytes = 0;
    std::size_t slack   = 0;  // spare bytes behind each block, for growth in place
    std::uint64_t budget = static_cast<std::uint64_t>(-1);  // allocations allowed before something is declared a runaway
    std::uint64_t n_alloc = 0, n_free = 0, n_realloc = 0, n_realloc_ok = 0, n_failed = 0;
    std::map<char*, Block> blocks;

    Heap()                       = default;
    Heap(const Heap&)            = delete;
    Heap& operator=(const Heap&) = delete;
    ~Heap()
    {
        for (auto& b : blocks)
        {
            drop(b.second);
        }
    }

    /// nullptr on failure.
    void* get(std::size_t size, std::size_t align, bool may_fault = true)
    {
        ++n_alloc;
        if (budget == 0)
        {
            fail("alloc.runaway", "heap %d asked again and again (%zu bytes)", id, size);
        }
        --budget;
        if (align == 0 || (align & (align - 1)) != 0)
        {
            fail("alloc.bad-alignment", "heap %d asked for alignment %zu", id, align);
        }
        if ((may_fault && alloc_tick()) || size > limit || live_bytes > limit - size || size > (std::size_t(1) << 30))
        {
            ++n_failed;
            return nullptr;
        }
        const std::size_t unit     = std::max<std::size_t>(2 * align, 16);
        const std::size_t room     = size + slack;
        const std::size_t raw_size = ((align + room) + unit - 1) / unit * unit;
        void* const       raw      = ::aligned_alloc(unit, raw_size);
        if (raw == nullptr)
        {
            fail("harness.oom", "harness out of memory");
        }
        char* const p = static_cast<char*>(raw) + align;  // aligned to `align` but not to 2*align
        std::memset(raw, 0xCD, raw_size);
#if defined(VH_ASAN)
        ASAN_POISON_MEMORY_REGION(raw, align);
        ASAN_POISON_MEMORY_REGION(p + size, raw_size - align - size);
#endif
        blocks[p] = Block{size, align, raw, raw_size, room};
        live_bytes += size;
        return p;
    }
    void put(void* ptr, std::size_t size, std::size_t align)
    {
        ++n_free;
        if (ptr == nullptr)
        {
            return;  // null-safe
        }
        const auto it = blocks.find(static_cast<char*>(ptr));
        if (it == blocks.end())
        {
            fail("dealloc.unknown-block", "heap %d got back %p (size %zu) which is not one of its live blocks", id, ptr, size);
        }
        if (it->second.size != size)
        {
            fail("dealloc.wrong-size", "heap %d: block of %zu bytes returned as %zu bytes", id, it->second.size, size);
        }
        if (align != 0 && it->second.align != align)
        {
            fail("dealloc.wrong-alignment", "heap %d: block of alignment %zu returned with %zu", id, it->second.align, align);
        }
        live_bytes -= size;
        drop(it->second);
        blocks.erase(it);
    }
    /// Growth or shrinkage in place, or by moving when `may_move`. nullptr when refused.
    void* regrow(void* ptr, std::size_t old_size, std::size_t new_size, std::size_t align, bool may_move)
    {
        ++n_realloc;
        if (ptr == nullptr)
        {
            return nullptr;  // refuse: the library has to call allocate
        }
        const auto it = blocks.find(static_cast<char*>(ptr));
        if (it == blocks.end())
        {
            fail("realloc.unknown-block", "heap %d asked to reallocate %p which is not one of its live blocks", id, ptr);
        }
        if (it->second.size != old_size)
        {
            fail("realloc.wrong-size", "heap %d: block of %zu bytes reallocated as %zu bytes", id, it->second.size, old_size);
        }
        if (alloc_tick())
        {
            return nullptr;
        }
        Block& b = it->second;
        if (new_size <= b.room && (new_size <= old_size || live_bytes - old_size <= limit - std::min(limit, new_size)))
        {
            live_bytes = live_bytes - old_size + new_size;
#if defined(VH_ASAN)
            ASAN_UNPOISON_MEMORY_REGION(ptr, new_size);
            ASAN_POISON_MEMORY_REGION(static_cast<char*>(ptr) + new_size, b.room - new_size);
#endif
            b.size = new_size;
            ++n_realloc_ok;
            return ptr;
        }
        if (may_move)
        {
            void* const n = get(new_size, align, false);
            if (n != nullptr)
            {
                std::memcpy(n, ptr, std::min(old_size, new_size));
                put(ptr, old_size, align);
                ++n_realloc_ok;
            }
            return n;
        }
        return nullptr;
    }
    bool owns(const void* p) const
    {
        auto it = blocks.upper_bound(static_cast<char*>(const_cast<void*>(p)));
        if (it == blocks.begin())
        {
            return false;
        }
        --it;
        return static_cast<const char*>(p) < it->first + std::max<std::size_t>(1, it->second.size);
    }
    void check_empty(const char* where) const
    {
        if (!blocks.empty())
        {
            fail("alloc.leak", "heap %d still has %zu live blocks at %s", id, blocks.size(), where);
        }
    }

private:
    static void drop(const Block& b)
    {
#if defined(VH_ASAN)
        ASAN_UNPOISON_MEMORY_REGION(b.raw, b.raw_size);
#endif
        std::memset(b.raw, 0xDD, b.raw_size);
        ::free(b.raw);
    }
};

/// Standard-conforming recording allocator with selectable propagation traits and no reallocation.
template <typename T, bool POCCA, bool POCMA, bool POCS, bool Selects = false>
class RecAlloc
{
public:
    using value_type                             = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, POCCA>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, POCMA>;
    using propagate_on_container_swap            = std::integral_constant<bool, POCS>;
    using is_always_equal                        = std::false_type;
    template <typename U>
    struct rebind
    {
        using other = RecAlloc<U, POCCA, POCMA, POCS, Selects>;
    };
    explicit RecAlloc(Heap* h, std::size_t max = static_cast<std::size_t>(-1)) noexcept
        : heap(h)
        , max_objects(max)
    {
    }
    template <typename U>
    RecAlloc(const RecAlloc<U, POCCA, POCMA, POCS, Selects>& o) noexcept
        : heap(o.heap)
        , max_objects(o.max_objects)
    {
    }
    T* allocate(std::size_t n)
    {
        void* p = n > (std::size_t(1) << 40) / sizeof(T) ? nullptr : heap->get(n * sizeof(T), alignof(T));
#if VH_EXC
        if (p == nullptr)
        {
            throw std::bad_alloc();
        }
#endif
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n)
    {
        heap->put(p, n * sizeof(T), alignof(T));
    }
    std::size_t max_size() const noexcept
    {
        return std::min(max_objects, static_cast<std::size_t>(-1) / sizeof(T));
    }
    friend bool operator==(const RecAlloc& a, const RecAlloc& b) noexcept
    {
        return a.heap == b.heap;
    }
    friend bool operator!=(const RecAlloc& a, const RecAlloc& b) noexcept
    {
        return a.heap != b.heap;
    }
    Heap*       heap;
    std::size_t max_objects;
};

}  // namespace vh

// The process-wide default resources under concurrency. Every case is a process of its own, so that the first use of the
// singletons happens in the threads as well.
#include "vh.hpp"
#include <atomic>
#include <cetl/pf17/memory_resource.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#include <sys/wait.h>
#include <thread>
using vh::Rng;
namespace pmr = cetl::pf17::pmr;

/// A resource published by one thread and used by others. `tag` is plain data written before publication.
struct Res : pmr::memory_resource
{
    int   tag = -1;
    void* do_allocate(std::size_t, std::size_t) override
    {
        return nullptr;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
    std::size_t do_max_size() const noexcept override
    {
        return static_cast<std::size_t>(tag) + 1000;
    }
};
constexpr int MAXT = 4, MAXOPS = 24;
struct Event
{
    int           kind;  // 0 read, 1 replace, 2 replace by null
    int           store;  // what was stored (-1: the general-purpose one)
    int           got;    // what was read or replaced
    std::uint64_t begin, end;
    const void*   built_in;  // the resource seen which no thread has stored
};
alignas(Res) static char storage[MAXT][MAXOPS][sizeof(Res)];
static Res                substitute;  // stands in for the built-in general-purpose resource
static Event              ev[MAXT][MAXOPS];
static int                n_ev[MAXT];
static std::atomic<int>   gate{0};
static std::atomic<std::uint64_t> ticks{1};

static std::uint64_t tick()
{
    return ticks.fetch_add(1, std::memory_order_relaxed);  // no ordering for others
}

constexpr int GP = -1, UNKNOWN = -2, BAD = -3;
static int name(pmr::memory_resource* r)
{
    const char* p = reinterpret_cast<const char*>(r);
    if (p >= &storage[0][0][0] && p < &storage[0][0][0] + sizeof storage)
    {
        const auto i   = static_cast<std::size_t>(p - &storage[0][0][0]) / sizeof(Res);
        const int  tag = static_cast<int>(i);
        // Using what was published is ordered after its construction.
        return r->max_size() == static_cast<std::size_t>(tag) + 1000 ? tag : BAD;
    }
    return r == nullptr ? BAD : UNKNOWN;
}

struct Shape
{
    int  threads, ops;
    int  mode;  // 0 default resource, 1 new_delete resource, 2 singletons only
    bool substituted;
};

static void body(int t, const Shape& sh, std::uint64_t seed)
{
    Rng g(seed);
    gate.fetch_add(1, std::memory_order_relaxed);
    while (gate.load(std::memory_order_relaxed) < sh.threads)
    {
    }
    pmr::memory_resource* const gp = sh.mode == 0 ? pmr::new_delete_resource() : nullptr;
    for (int i = 0; i < sh.ops; ++i)
    {
        Event& e = ev[t][i];
        e        = Event{static_cast<int>(g.below(5)), -9, UNKNOWN, 0, 0, nullptr};
        e.kind   = e.kind < 2 ? 0 : e.kind < 4 ? 1 : 2;
        if (sh.mode == 2)
        {
            e.kind = 3;
            pmr::memory_resource* a = pmr::null_memory_resource();
            pmr::memory_resource* b = pmr::new_delete_resource();
            pmr::memory_resource* c = pmr::get_default_resource();
            e.got                   = (a != nullptr && b != nullptr && b == c && a != b && a->max_size() == 0) ? 1 : 0;
            e.begin                 = reinterpret_cast<std::uint64_t>(a);
            e.end                   = reinterpret_cast<std::uint64_t>(b);
            continue;
        }
        pmr::memory_resource* put = nullptr;
        if (e.kind == 1)
        {
            Res* const r = new (storage[t][i]) Res;
            r->tag       = t * MAXOPS + i;
            e.store      = r->tag;
            put          = r;
        }
        else if (e.kind == 2)
        {
            e.store = GP;
        }
        e.begin                   = tick();
        pmr::memory_resource* got = nullptr;
        if (sh.mode == 0)
        {
            got = e.kind == 0 ? pmr::get_default_resource() : pmr::set_default_resource(put);
        }
        else
        {
            got = e.kind == 0 ? pmr::new_delete_resource() : pmr::deviant::set_new_delete_resource(put);
        }
        e.end = tick();
        e.got = name(got);
        if (e.got == UNKNOWN)
        {
            // Must be the built-in one; in mode 1 there is no independent way to name it, so compare afterwards.
            e.got      = (sh.mode == 0 && got != gp) ? BAD : GP;
            e.built_in = got;
        }
    }
    n_ev[t] = sh.ops;
}

[[noreturn]] static void child(const Shape& sh, std::uint64_t seed)
{
    pmr::memory_resource* first = nullptr;
    if (sh.substituted)
    {
        // The general-purpose resource is another one from the beginning.
        first = pmr::deviant::set_new_delete_resource(&substitute);
        VH_CHECK(first != nullptr && first != &substitute, "default.initial", "nothing was replaced");
        (void) pmr::set_default_resource(nullptr);
        VH_CHECK(pmr::new_delete_resource() == &substitute, "default.substitute", "the replacement is not in effect");
        VH_CHECK(pmr::get_default_resource() == &substitute, "default.substitute",
                 "null restored something other than the general-purpose resource");
    }
    std::vector<std::thread> th;
    for (int t = 0; t < sh.threads; ++t)
    {
        th.emplace_back(body, t, sh, vh::mix(seed + static_cast<std::uint64_t>(t)));
    }
    for (auto& x : th)
    {
        x.join();
    }
    // ---- judge the history
    if (sh.mode == 2)
    {
        for (int t = 0; t < sh.threads; ++t)
        {
            for (int i = 0; i < n_ev[t]; ++i)
            {
                VH_CHECK(ev[t][i].got == 1 && ev[t][i].begin == ev[0][0].begin && ev[t][i].end == ev[0][0].end, "default.singleton", "thread %d saw another object", t);
            }
        }
        std::fflush(stdout);
        _exit(0);
    }
    pmr::memory_resource* const last = sh.mode == 0 ? pmr::get_default_resource() : pmr::new_delete_resource();
    int                         final = name(last);
    if (final == UNKNOWN)
    {
        final = GP;
    }
    if (final == GP && sh.mode == 0)
    {
        VH_CHECK(last == pmr::new_delete_resource(), "default.unknown", "the last resource is not the general-purpose one");
    }
    // Replacements form one order: what went in (plus the initial one) equals what came out (plus the final one).
    std::multiset<int>   in{GP}, out{final};
    std::vector<Event*>  sets, reads;
    const void*          built_in = nullptr;
    for (int t = 0; t < sh.threads; ++t)
    {
        for (int i = 0; i < n_ev[t]; ++i)
        {
            Event& e = ev[t][i];
            VH_CHECK(e.got != BAD, "default.unknown", "thread %d got something nobody stored", t);
            VH_CHECK(e.built_in == nullptr || built_in == nullptr || e.built_in == built_in, "default.singleton",
                     "thread %d saw another built-in resource", t);
            built_in = e.built_in != nullptr ? e.built_in : built_in;
            if (e.kind == 0)
            {
                reads.push_back(&e);
            }
            else
            {
                sets.push_back(&e);
                in.insert(e.store);
                out.insert(e.got);
            }
        }
    }
    VH_CHECK(in == out, "default.order", "the values replaced and the values stored do not form one order");
    // Unique values: who replaced v, who stored v.
    std::map<int, Event*> stored_by, replaced_by;
    for (Event* e : sets)
    {
        if (e->store != GP)
        {
            stored_by[e->store] = e;
        }
        if (e->got != GP)
        {
            replaced_by[e->got] = e;
        }
    }
    for (Event* e : sets)
    {
        // A replacement cannot return a value whose store began after it ended.
        const auto it = stored_by.find(e->got);
        VH_CHECK(e->got == GP || (it != stored_by.end() && it->second->begin < e->end), "default.future", "replaced a value stored later");
    }
    for (Event* e : reads)
    {
        if (e->got == GP)
        {
            continue;
        }
        const auto s = stored_by.find(e->got);
        VH_CHECK(s != stored_by.end() && s->second->begin < e->end, "default.future", "read a value stored later");
        const auto r = replaced_by.find(e->got);
        VH_CHECK(r == replaced_by.end() || r->second->end > e->begin, "default.stale", "read a value that had been replaced before");
    }
    // The chain also bounds reads of the general-purpose resource: if it was stored only initially, it is gone for good.
    bool only_initial = true;
    for (Event* e : sets)
    {
        only_initial = only_initial && e->store != GP;
    }
    if (only_initial)
    {
        for (Event* r : sets)
        {
            if (r->got == GP)
            {
                for (Event* e : reads)
                {
                    VH_CHECK(e->got != GP || e->begin < r->end, "default.stale", "read the initial resource after it had been replaced");
                }
            }
        }
    }
    std::fflush(stdout);
    _exit(0);
}

static void run_case(Rng& g)
{
    Shape sh;
    sh.threads = static_cast<int>(g.range(2, MAXT));
    sh.ops     = static_cast<int>(g.range(1, MAXOPS));
    sh.mode    = g.chance(1, 8) ? 2 : g.chance(1, 4) ? 1 : 0;
    sh.substituted           = sh.mode == 0 && g.chance(1, 3);
    const std::uint64_t seed = g.next();
    vh::op("%d threads, %d operations each, mode %d%s", sh.threads, sh.ops, sh.mode, sh.substituted ? ", substituted" : "");
    std::fflush(stdout);
    std::fflush(stderr);
    const pid_t pid = ::fork();
    if (pid == 0)
    {
        ::alarm(60);
        substitute.tag = 7;
        child(sh, seed);
    }
    int st = 0;
    while (::waitpid(pid, &st, 0) < 0)
    {
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    {
        if (WIFEXITED(st))
        {
            vh::dump_context();
            _exit(WEXITSTATUS(st));  // already reported by the child
        }
        vh::fail("default.crash", "status %d", st);
    }
    vh::nontrivial();
    vh::feel(seed);
    vh::count("thread_operations", static_cast<std::uint64_t>(sh.threads * sh.ops));
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("default", 100, run_case);
    return vh::finish();
}

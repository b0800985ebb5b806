// Programs written against the names that mean either the library's or the standard's types, depending on the language
// standard. What they observe goes into a digest that the driver compares between all builds.
#include "vh.hpp"

#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pf17/cetlpf.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#include <cetl/pf20/cetlpf.hpp>
#include <cetl/pmr/buffer_memory_resource_delegate.hpp>
#include <cetl/pmr/function.hpp>
#include <cetl/pmr/interface_ptr.hpp>
#include <cetl/pmr/memory.hpp>
#include <cetl/unbounded_variant.hpp>
#include <cetl/variable_length_array.hpp>
#include <cetl/visit_helpers.hpp>

#include <algorithm>
#include <iomanip>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <vector>

using vh::Rng;
using vh::observe;

/// The names under test: those that stand for the types of the standard when it has them or, with OWN, always the
/// library's own types.
#ifdef OWN
#    include <cetl/pf17/array_memory_resource.hpp>
#    include <cetl/pf17/byte.hpp>
#    include <cetl/pf17/optional.hpp>
#    include <cetl/pf17/string_view.hpp>
#    include <cetl/pf17/sys/memory_resource.hpp>
#    include <cetl/pf17/variant.hpp>
#    include <cetl/pf20/span.hpp>
namespace nn
{
using namespace cetl::pf17;
using cetl::pf20::dynamic_extent;
using cetl::pf20::span;
}  // namespace nn
#else
namespace nn = cetl;
#endif

static void text(const std::string& s)
{
    observe(s.size());
    for (char c : s)
    {
        observe(static_cast<unsigned char>(c));
    }
}
static std::string word(Rng& rng)
{
    std::string s;
    for (auto n = rng.below(rng.chance(1, 4) ? 40 : 4); n > 0; --n)
    {
        s += static_cast<char>('a' + rng.below(3));
    }
    return s;
}
/// What a call ends with: 0 or the kind of exception.
template <typename F>
int outcome(F f)
{
#if VH_EXC
    try
    {
        f();
        return 0;
    }
    catch (const nn::bad_optional_access&)
    {
        return 1;
    }
    catch (const nn::bad_variant_access&)
    {
        return 2;
    }
    catch (const std::bad_function_call&)
    {
        return 3;
    }
    catch (const std::out_of_range&)
    {
        return 4;
    }
    catch (const std::length_error&)
    {
        return 5;
    }
    catch (const std::bad_alloc&)
    {
        return 6;
    }
    catch (int)
    {
        return 7;
    }
    catch (const std::exception&)
    {
        return 8;
    }
#else
    f();
    return 0;
#endif
}

// ------------------------------------------------------------------------------------------------ memory
/// Records every request, may refuse.
class Res final : public nn::pmr::memory_resource
{
public:
    bool        refuse = false;
    bool        seen   = false;  ///< Observe requests too.
    std::size_t live   = 0;

private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        if (seen)
        {
            observe(n * 64 + a);
        }
        if (refuse || n > 1000000)
        {
#if VH_EXC
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        ++live;
        void* const p = std::malloc(n == 0 ? 1 : n);
        std::memset(p, 0xA5, n);
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        if (seen)
        {
            observe(n * 64 + a + 1000003);
        }
        if (p != nullptr)
        {
            --live;
            std::memset(p, 0x5A, n);
            std::free(p);
        }
    }
    bool do_is_equal(const nn::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
#if defined(OWN) || __cplusplus < CETL_CPP_STANDARD_17
    std::size_t do_max_size() const noexcept override
    {
        return static_cast<std::size_t>(-1);
    }
    void* do_reallocate(void*, std::size_t, std::size_t, std::size_t) override
    {
        return nullptr;
    }
#endif
};
template <typename T>
using Alloc = nn::pmr::polymorphic_allocator<T>;

struct Probe  ///< Becomes the default resource for a while.
{
    nn::pmr::memory_resource* old;
    explicit Probe(Res& r)
        : old(nn::pmr::set_default_resource(&r))
    {
    }
    ~Probe()
    {
        nn::pmr::set_default_resource(old);
    }
};

struct alignas(16) Wide
{
    int v[4];
};

static void memory(Rng& rng)
{
    Res a, b;
    a.seen = b.seen = true;
    VH_CHECK(nn::pmr::get_default_resource() == nn::pmr::new_delete_resource(), "neutral.default", "not the general-purpose resource");
    {
        const Probe p(b);
        observe(nn::pmr::get_default_resource() == &b);
        Alloc<int>  x(&a), y(nn::pmr::get_default_resource());
        Alloc<Wide> w(x), z(y);
        observe(x == y);
        observe(x == w);
        observe(w != z);
        observe(x.resource() == &a);
        for (auto k = rng.range(1, 6); k > 0; --k)
        {
            const auto n = rng.below(20);
            vh::op("allocate %d", static_cast<int>(n));
            vh::feel(n);
            if (rng.chance(1, 2))
            {
                int* q = x.allocate(n);
                x.deallocate(q, n);
            }
            else
            {
                Wide* q = z.allocate(n);
                observe(reinterpret_cast<std::uintptr_t>(q) % 16 == 0);
                z.deallocate(q, n);
            }
        }
#if VH_EXC
        observe(static_cast<std::uint64_t>(outcome([&] { (void) x.allocate(static_cast<std::size_t>(-1)); })));
        observe(static_cast<std::uint64_t>(outcome([&] { (void) z.allocate(static_cast<std::size_t>(-1) / 16 + 2); })));
        a.refuse = true;
        observe(static_cast<std::uint64_t>(outcome([&] { (void) x.allocate(3); })));
        a.refuse = false;
        observe(static_cast<std::uint64_t>(outcome([&] { (void) nn::pmr::null_memory_resource()->allocate(8, 8); })));
#endif
        // containers
        std::vector<int, Alloc<int>> v(x);
        std::list<std::string, Alloc<std::string>> l{Alloc<std::string>(&a)};
        std::map<int, std::string, std::less<int>, Alloc<std::pair<const int, std::string>>> m{Alloc<std::pair<const int, std::string>>(&b)};
        for (auto k = rng.range(0, 20); k > 0; --k)
        {
            v.push_back(static_cast<int>(rng.below(100)));
            l.push_front(word(rng));
            const auto key = static_cast<int>(rng.below(10));
            m[key]         = word(rng);
        }
        // The library never falls back on the default resource, so copies name theirs.
        const std::vector<int, Alloc<int>> v2(v, y);
        auto       l2 = std::move(l);
        auto       m2 = std::move(m);
        observe(v2 == v);
        observe(v2.get_allocator().resource() == &b);
        for (auto& s : l2)
        {
            text(s);
        }
        for (auto& kv : m2)
        {
            text(kv.second);
        }
        // construction in place by allocators of elements that use allocators
        std::vector<std::vector<int, Alloc<int>>, Alloc<std::vector<int, Alloc<int>>>> vv{Alloc<std::vector<int, Alloc<int>>>(&a)};
        vv.reserve(2);
        vv.emplace_back(3, 7);
        vv.emplace_back();
        observe(vv[0].get_allocator().resource() == &a);
        observe(vv[1].get_allocator().resource() == &a);
        observe(vv[0].size());
    }
    VH_CHECK(a.live == 0 && b.live == 0, "neutral.leak", "memory left behind");
    observe(nn::pmr::set_default_resource(nullptr) == nn::pmr::new_delete_resource());
    observe(nn::pmr::get_default_resource() == nn::pmr::new_delete_resource());
    void* const p = nn::pmr::new_delete_resource()->allocate(24, 8);
    std::memset(p, 1, 24);
    nn::pmr::new_delete_resource()->deallocate(p, 24, 8);
    observe(*nn::pmr::new_delete_resource() == *nn::pmr::null_memory_resource());
    vh::nontrivial();
}

/// A memory area in front of another resource.
static void delegate(Rng& rng)
{
    Res                      up;
    alignas(16) unsigned char area[64];
    const std::size_t         size = rng.below(sizeof area) + 1;
    cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<nn::pmr::memory_resource> d(area, size, &up, 60);
    std::vector<std::pair<void*, std::size_t>> held;
    for (auto k = rng.range(1, 12); k > 0; --k)
    {
        if (!held.empty() && rng.chance(1, 3))
        {
            const auto i = rng.below(held.size());
            d.deallocate(held[i].first, held[i].second);
            held.erase(held.begin() + static_cast<std::ptrdiff_t>(i));
            continue;
        }
        const auto n = rng.below(VH_EXC ? 80 : 60) + 1;
        void*      p = nullptr;
        observe(static_cast<std::uint64_t>(outcome([&] { p = d.allocate(n, 8); })));
        vh::op("delegate %d", static_cast<int>(n));
        vh::feel(n);
        observe(p >= static_cast<void*>(area) && p < static_cast<void*>(area + size));
        observe(up.live);
        if (p != nullptr)
        {
            std::memset(p, 3, n);
            held.emplace_back(p, n);
        }
    }
    for (auto& h : held)
    {
        d.deallocate(h.first, h.second);
    }
    VH_CHECK(up.live == 0, "neutral.leak", "memory left behind");
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ names
namespace zoo
{
struct Plain
{};
struct NoMove
{
    NoMove(NoMove&&) = delete;
};
struct Throws
{
    Throws(Throws&&) {}
    Throws& operator=(Throws&&) { return *this; }
};
struct Swaps
{
    Swaps(Swaps&&) = delete;
};
inline void swap(Swaps&, Swaps&) noexcept {}
struct Answers  ///< Its swap returns something.
{
    Answers(Answers&&) = delete;
};
inline int swap(Answers&, Answers&)
{
    return 1;
}
struct Hidden
{
    Hidden(Hidden&&) = delete;
    friend void swap(Hidden&, Hidden&) = delete;
};
template <int N>
struct Number : std::integral_constant<int, N>
{};
template <typename T, typename = void>
struct HasX : std::false_type
{};
template <typename T>
struct HasX<T, nn::void_t<decltype(std::declval<T>().x), typename T::type>> : std::true_type
{};
struct WithX
{
    using type = int;
    int x;
};
}  // namespace zoo

template <typename T>
void see_swappable()
{
    observe(nn::is_swappable<T>::value * 2U + nn::is_nothrow_swappable<T>::value);
    observe(nn::is_swappable_v<T> * 2U + nn::is_nothrow_swappable_v<T>);
}
template <typename... Ts>
void see_logic()
{
    observe(static_cast<std::uint64_t>(nn::conjunction<Ts...>::value));
    observe(static_cast<std::uint64_t>(nn::disjunction<Ts...>::value));
    observe(static_cast<std::uint64_t>(nn::conjunction_v<Ts...>));
    observe(static_cast<std::uint64_t>(nn::disjunction_v<Ts...>));
}

static void names(Rng& rng)
{
    vh::op("names");
    see_swappable<int>();
    see_swappable<const int>();
    see_swappable<int&>();
    see_swappable<const int&>();
    see_swappable<void>();
    see_swappable<int[3]>();
    see_swappable<int[]>();
    see_swappable<int()>();
    see_swappable<std::string>();
    see_swappable<std::string[2][2]>();
    see_swappable<zoo::Plain>();
    see_swappable<zoo::NoMove>();
    see_swappable<zoo::Throws>();
    see_swappable<zoo::Throws[2]>();
    see_swappable<zoo::Swaps>();
    see_swappable<zoo::Swaps[2]>();
    see_swappable<zoo::Answers>();
    see_swappable<zoo::Hidden>();
    see_swappable<nn::optional<int>>();
    see_swappable<nn::optional<zoo::Throws>>();
    see_swappable<nn::variant<int, std::string>>();
    see_swappable<nn::variant<int, zoo::Throws>>();
    see_swappable<nn::span<int>>();
    see_swappable<nn::string_view>();
    see_logic<>();
    see_logic<std::true_type>();
    see_logic<std::false_type>();
    see_logic<std::true_type, std::false_type>();
    see_logic<std::false_type, std::true_type>();
    see_logic<std::false_type, std::true_type, std::false_type>();
    see_logic<std::true_type, std::true_type, std::true_type>();
    see_logic<zoo::Number<3>, zoo::Number<2>>();
    see_logic<zoo::Number<0>, zoo::Number<2>, zoo::Number<5>>();
    see_logic<zoo::Number<4>, zoo::Number<0>, zoo::Number<5>>();
    // what decides is looked at, what follows is not
    observe(nn::conjunction<std::false_type, zoo::Plain>::value);
    observe(nn::disjunction<std::true_type, zoo::Plain>::value);
    observe((std::is_base_of<zoo::Number<0>, nn::conjunction<zoo::Number<2>, zoo::Number<0>, zoo::Number<7>>>::value));
    observe((std::is_base_of<zoo::Number<2>, nn::disjunction<zoo::Number<0>, zoo::Number<2>, zoo::Number<7>>>::value));
    observe(nn::negation<zoo::Number<2>>::value + 2U * nn::negation<zoo::Number<0>>::value + 4U * nn::negation_v<std::true_type>);
    observe((std::is_same<decltype(nn::negation<zoo::Number<2>>::value), const bool>::value));
    observe(zoo::HasX<zoo::WithX>::value + 2U * zoo::HasX<zoo::Plain>::value);
    observe(nn::variant_npos == static_cast<std::size_t>(-1));
    observe(std::is_same<std::underlying_type_t<nn::byte>, unsigned char>::value + 2U * std::is_enum<nn::byte>::value);
    observe((std::is_default_constructible<nn::nullopt_t>::value));
    observe((std::is_convertible<std::string, nn::string_view>::value) + 2U * (std::is_convertible<nn::string_view, std::string>::value) +
            4U * (std::is_same<nn::string_view, nn::basic_string_view<char>>::value));
    observe((std::is_same<decltype(nn::in_place), const nn::in_place_t>::value));
    observe((nn::variant_size_v<nn::variant<int, char, int>>));
    observe((std::is_same<nn::variant_alternative<2, nn::variant<int, char, long>>::type, long>::value));
    // bytes are storage
    nn::byte            raw[8];
    const std::uint64_t v = rng.next();
    std::memcpy(raw, &v, sizeof v);
    for (const nn::byte b : nn::span<const nn::byte>(raw))
    {
        observe(static_cast<unsigned char>(b));
    }
    vh::feel(v);
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ own resources
/// Upstream of the library's own resources: blocks at known places.
class Pit final : public cetl::pf17::pmr::memory_resource
{
public:
    bool        refuse = false;
    std::size_t live   = 0;
    std::size_t top    = 0;
    alignas(64) unsigned char area[1 << 16];

private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        observe(n * 64 + a);
        top = (top + a - 1) / a * a;
        if (refuse || n > sizeof area - top)
        {
#if VH_EXC
            throw std::bad_alloc();
#else
            return nullptr;
#endif
        }
        ++live;
        top += n;
        return area + top - n;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        observe(n * 64 + a + 1000003);
        live -= p != nullptr;
    }
    bool do_is_equal(const memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};

/// Where a block lies, by what is independent of the addresses.
static void place(const void* p, const unsigned char* area, std::size_t size, const Pit& pit)
{
    const auto* const c = static_cast<const unsigned char*>(p);
    const std::less<const unsigned char*> before{};
    if (p == nullptr)
    {
        observe(7);
    }
    else if (!before(c, area) && !before(area + size, c))
    {
        observe(1000 + static_cast<std::uint64_t>(c - area));
    }
    else if (!before(c, pit.area) && !before(pit.area + sizeof pit.area, c))
    {
        observe(2000000 + static_cast<std::uint64_t>(c - pit.area));
    }
    else
    {
        observe(8);
    }
}

struct Held
{
    unsigned char* p;
    std::size_t    n, a;
    unsigned char  mark;
};

static void drive(Rng& rng, cetl::pf17::pmr::memory_resource& r, const unsigned char* area, std::size_t size, Pit& pit, bool returns)
{
    std::vector<Held> held;
    unsigned char     mark = 1;
    for (auto k = rng.range(1, 14); k > 0; --k)
    {
        const auto n = rng.chance(1, 12) ? rng.below(900) : rng.below(40) + 1;
        const auto a = std::size_t{1} << rng.below(6);
        pit.refuse   = rng.chance(1, 8);
        vh::feel(n * 64 + a);
        if (!held.empty() && rng.chance(1, 3))
        {
            const auto i = rng.below(held.size());
            vh::op("return %d", static_cast<int>(i));
            r.deallocate(held[i].p, held[i].n, held[i].a);
            if (returns)
            {
                held.erase(held.begin() + static_cast<std::ptrdiff_t>(i));
            }
        }
        else if (!held.empty() && rng.chance(1, 5))
        {
            const auto i = rng.below(held.size());
            vh::op("reallocate %d", static_cast<int>(i));
            void* q = nullptr;
            observe(static_cast<std::uint64_t>(outcome([&] { q = r.reallocate(held[i].p, held[i].n, n == 0 ? 1 : n, held[i].a); })));
            place(q, area, size, pit);
            if (q != nullptr)
            {
                held[i].p = static_cast<unsigned char*>(q);
                held[i].n = std::min(held[i].n, n == 0 ? std::size_t{1} : n);
                observe(std::all_of(held[i].p, held[i].p + held[i].n, [&](unsigned char c) { return c == held[i].mark; }));
                held[i].n = n == 0 ? 1 : n;
                std::memset(held[i].p, held[i].mark, held[i].n);
            }
        }
        else
        {
            vh::op("allocate %d %d", static_cast<int>(n), static_cast<int>(a));
            void* q = nullptr;
            observe(static_cast<std::uint64_t>(outcome([&] { q = r.allocate(n, a); })));
            place(q, area, size, pit);
            if (q != nullptr)
            {
                std::memset(q, ++mark, n);
                held.push_back(Held{static_cast<unsigned char*>(q), n, a, mark});
            }
        }
        for (auto& h : held)
        {
            observe(std::all_of(h.p, h.p + h.n, [&](unsigned char c) { return c == h.mark; }));
        }
        observe(cetl::pf17::pmr::deviant::memory_resource_traits<cetl::pf17::pmr::memory_resource>::max_size(r));
    }
    pit.refuse = false;
    if (returns)
    {
        for (auto& h : held)
        {
            r.deallocate(h.p, h.n, h.a);
        }
    }
}

static void resources(Rng& rng)
{
    static Pit pits[8];
    static int next = 0;
    Pit&       pit  = pits[next];
    next            = (next + 1) % 8;
    pit.top         = 0;
    alignas(64) unsigned char area[256];
    const std::size_t         size = rng.below(sizeof area) + 1;
    switch (rng.below(3))
    {
    case 0:
    {
        cetl::pf17::pmr::UnsynchronizedBufferMemoryResource r(area, size, &pit, rng.below(2000));
        observe(r.size());
        observe(r.data() == area);
        drive(rng, r, area, size, pit, true);
        break;
    }
    case 1:
    {
        alignas(64) cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<48> r(&pit, rng.below(2000));
        observe(r.size());
        drive(rng, r, static_cast<const unsigned char*>(r.data()), 48, pit, true);
        break;
    }
    default:
    {
        const bool                                 buffered = rng.chance(2, 3);
        cetl::pf17::pmr::monotonic_buffer_resource r(buffered ? area : nullptr, buffered ? size : rng.below(80), &pit);
        observe(r.upstream_resource() == &pit);
        drive(rng, r, area, buffered ? size : 0, pit, false);
        r.release();
        observe(pit.live);
        drive(rng, r, area, buffered ? size : 0, pit, false);
    }
    }
    VH_CHECK(pit.live == 0, "neutral.leak", "blocks left behind");
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ vocabulary types
template <typename O>
void see(const O& o)
{
    observe(o.has_value());
}
static void see_string(const nn::optional<std::string>& o)
{
    observe(o.has_value());
    if (o)
    {
        text(*o);
    }
}
struct Thrower  ///< Throws on request.
{
    int  v;
    explicit Thrower(int x)
        : v(x)
    {
#if VH_EXC
        if (x < 0)
        {
            throw 1;
        }
#endif
    }
    Thrower(const Thrower& o)
        : v(o.v)
    {
#if VH_EXC
        if (v > 90)
        {
            throw 1;
        }
#endif
    }
    Thrower& operator=(const Thrower& o)
    {
#if VH_EXC
        if (o.v > 90)
        {
            throw 1;
        }
#endif
        v = o.v;
        return *this;
    }
    ~Thrower() = default;
    bool operator==(const Thrower& o) const
    {
        return v == o.v;
    }
    bool operator<(const Thrower& o) const
    {
        return v < o.v;
    }
};
static Thrower thrower(Rng& rng)
{
    return Thrower(static_cast<int>(rng.below(VH_EXC ? 100 : 90)));
}

static void optionals(Rng& rng)
{
    nn::optional<int>         i[2];
    nn::optional<std::string> s[3];
    nn::optional<Thrower>     t[2];
    for (auto k = rng.range(4, 30); k > 0; --k)
    {
        const auto op = rng.below(18);
        const auto x = rng.below(2), y = rng.below(2);
        vh::op("optional %d %d %d", static_cast<int>(op), static_cast<int>(x), static_cast<int>(y));
        vh::feel(op * 4 + x * 2 + y);
        switch (op)
        {
        case 0: i[x] = static_cast<int>(rng.below(5)); break;
        case 1: s[x] = word(rng); break;
        case 2: s[x] = s[y]; break;
        case 3: s[x].reset(); break;
        case 4: s[x] = nn::nullopt; break;
        case 5: s[x].emplace(rng.below(5), 'q'); break;
        case 6: text(s[x].emplace({'a', 'b'})); break;
        case 7:
            s[2] = std::move(s[x]);
            see(s[x]);
            s[x].reset();
            break;
        case 8: s[x].swap(s[2]); break;
        case 9: i[0].swap(i[1]); break;
        case 10: s[x] = {}; break;
        case 11: i[x] = i[y].value_or(3) + 1; break;
        case 12: observe(static_cast<std::uint64_t>(outcome([&] {
            const int v = VH_EXC || rng.chance(1, 2) ? static_cast<int>(rng.below(VH_EXC ? 100 : 90)) : 5;
            t[x].emplace(VH_EXC && v % 7 == 0 ? -1 : v);
        }))); break;
        case 13:
        {
            bool ok = true;
#if VH_EXC
            try
            {
#endif
                t[x] = t[y];
#if VH_EXC
            }
            catch (int)
            {
                ok = false;
            }
#endif
            observe(ok);
            break;
        }
        case 14: s[x] = nn::make_optional<std::string>(rng.below(4), 'z'); break;
        case 15:
        {
            const nn::optional<const char*> p(rng.chance(1, 2) ? nn::optional<const char*>("abc") : nn::nullopt);
            s[x] = p;
            break;
        }
        case 16:
        {
            const nn::optional<std::string> c(nn::in_place, rng.below(4), 'y');
            s[x] = c;
            text(nn::optional<std::string>(s[2]).value_or("none"));
            break;
        }
        default:
#if VH_EXC
            observe(static_cast<std::uint64_t>(outcome([&] { text(s[x].value()); })));
            observe(static_cast<std::uint64_t>(outcome([&] { text(std::move(s[2]).value()); })));
#endif
            break;
        }
        for (auto& o : s)
        {
            see_string(o);
        }
        observe(static_cast<std::uint64_t>(i[0].value_or(-1)) * 8 + static_cast<std::uint64_t>(i[1].value_or(-1)));
        observe(t[0].has_value() * 1000U + (t[0] ? static_cast<unsigned>(t[0]->v) : 0U));
        observe(static_cast<std::uint64_t>(i[0] == i[1]) + 2 * static_cast<std::uint64_t>(i[0] < i[1]) + 4 * static_cast<std::uint64_t>(i[0] >= i[1]) + 8 * static_cast<std::uint64_t>(i[0] != i[1]) +
                16 * static_cast<std::uint64_t>(i[0] > i[1]) + 32 * static_cast<std::uint64_t>(i[0] <= i[1]));
        observe(static_cast<std::uint64_t>(i[0] == 2) + 2 * static_cast<std::uint64_t>(2 < i[0]) + 4 * static_cast<std::uint64_t>(i[0] >= 2) + 8 * static_cast<std::uint64_t>(nn::nullopt == i[0]) +
                16 * static_cast<std::uint64_t>(i[0] < nn::nullopt) + 32 * static_cast<std::uint64_t>(2 != i[0]));
        observe(static_cast<std::uint64_t>(s[0] == s[1]) + 2 * static_cast<std::uint64_t>(s[0] < s[1]) + 4 * static_cast<std::uint64_t>(s[1] > std::string("b")));
    }
    vh::nontrivial();
}

using Var = nn::variant<int, std::string, Thrower, double, nn::monostate>;
static void see(const Var& v)
{
    observe(v.index());
    observe(v.valueless_by_exception());
    if (!v.valueless_by_exception())
    {
        nn::visit(cetl::make_overloaded([](int x) { observe(static_cast<std::uint64_t>(x)); },
                                          [](const std::string& s) { text(s); },
                                          [](const Thrower& t) { observe(static_cast<std::uint64_t>(t.v)); },
                                          [](double d) { observe(static_cast<std::uint64_t>(d * 2)); },
                                          [](nn::monostate) { observe(99); }),
                    v);
    }
    observe(nn::holds_alternative<std::string>(v));
    observe(nn::get_if<2>(&v) != nullptr);
    observe(nn::get_if<int>(&v) != nullptr);
}
static void variants(Rng& rng)
{
    Var v[3];
    for (auto k = rng.range(4, 30); k > 0; --k)
    {
        const auto op = rng.below(16);
        const auto x = rng.below(3), y = rng.below(3);
        vh::op("variant %d %d %d", static_cast<int>(op), static_cast<int>(x), static_cast<int>(y));
        vh::feel(op * 16 + x * 4 + y);
        const int out = outcome([&] {
            switch (op)
            {
            case 0: v[x] = static_cast<int>(rng.below(9)); break;
            case 1: v[x] = word(rng); break;
            case 2: v[x] = 0.5 * static_cast<double>(rng.below(9)); break;
            case 3: v[x] = thrower(rng); break;
            case 4: v[x] = v[y]; break;
            case 5:
            {
                const Var c(v[y]);
                v[x] = c;
                break;
            }
            case 6: v[x].emplace<2>(VH_EXC && rng.chance(1, 4) ? -1 : static_cast<int>(rng.below(90))); break;
            case 7: text(v[x].emplace<std::string>(rng.below(5), 'e')); break;
            case 8: v[x].emplace<1>({'l', 'i'}); break;
            case 9: v[x] = "literal"; break;
            case 10:
            {
                Var m(std::move(v[y]));
                v[x] = std::move(m);
                if (x != y)
                {
                    observe(v[y].index());
                    v[y].emplace<4>();
                }
                break;
            }
            case 11: v[x].emplace<nn::monostate>(); break;
            case 12: v[x] = Var(nn::in_place_type_t<std::string>{}, rng.below(3), 'p'); break;
            case 13: v[x] = Var(nn::in_place_index_t<0>{}, 6); break;
            case 14:
                if (!v[x].valueless_by_exception() && !v[y].valueless_by_exception())
                {
                    observe(nn::visit([](const auto& a, const auto& b) -> std::uint64_t { return (sizeof(a) > 8) * 2U + (sizeof(b) > 8); }, v[x], v[y]));
                }
#if VH_EXC
                else
                {
                    nn::visit([](const auto&, const auto&) { observe(5); }, v[x], v[y]);
                }
#endif
                break;
            default:
#if VH_EXC
                text(nn::get<std::string>(v[x]));
                observe(static_cast<std::uint64_t>(nn::get<0>(v[y])));
#endif
                break;
            }
        });
        observe(static_cast<std::uint64_t>(out));
        for (auto& e : v)
        {
            see(e);
        }
        using Plain = nn::variant<int, std::string, char>;
        const auto plain = [](const Var& e) -> Plain {
            return e.index() == 0 ? Plain(nn::get<0>(e)) : e.index() == 1 ? Plain(nn::get<1>(e)) : Plain('c');
        };
        const Plain p = plain(v[x]), q = plain(v[y]);
        observe(static_cast<std::uint64_t>(p == q) + 2 * static_cast<std::uint64_t>(p < q) + 4 * static_cast<std::uint64_t>(p >= q) + 8 * static_cast<std::uint64_t>(p != q) + 16 * static_cast<std::uint64_t>(p > q) +
                32 * static_cast<std::uint64_t>(p <= q));
    }
    observe(nn::variant_size<Var>::value);
    observe((std::is_same<nn::variant_alternative_t<1, Var>, std::string>::value));
    vh::nontrivial();
}

static void views(Rng& rng)
{
    // one random choice per statement: the order within one may differ
    std::string a = word(rng);
    if (rng.chance(1, 4))
    {
        a += '\0';
    }
    a += word(rng);
    const auto        from = rng.below(a.size() + 1);
    const auto        len  = rng.below(4);
    const std::string b    = rng.chance(1, 2) ? a.substr(from, len) : word(rng);
    nn::string_view v(a), w(b.data(), b.size());
    vh::op("views %d %d", static_cast<int>(a.size()), static_cast<int>(b.size()));
    vh::feel(a.size() * 100 + b.size());
    for (std::size_t p = 0; p <= a.size() + 1; ++p)
    {
        observe(v.find(w, p));
        observe(v.find('b', p));
        if (p <= a.size())
        {
            const auto n = rng.chance(1, 3) ? nn::string_view::npos : rng.below(6);
            const auto s = v.substr(p, n);
            text(std::string(s.data(), s.size()));
            char      out[64];
            observe(v.copy(out, rng.below(40), p));
        }
#if VH_EXC
        else
        {
            observe(static_cast<std::uint64_t>(outcome([&] { (void) v.substr(p); })));
            char c;
            observe(static_cast<std::uint64_t>(outcome([&] { (void) v.copy(&c, 1, p); })));
        }
#endif
    }
    const int c = v.compare(w);
    observe(c < 0 ? 1U : c > 0 ? 2U : 0U);
    observe(static_cast<std::uint64_t>(v == w) + 2 * static_cast<std::uint64_t>(v < w) + 4 * static_cast<std::uint64_t>(v >= w) + 8 * static_cast<std::uint64_t>(v != w) + 16 * static_cast<std::uint64_t>(v > w) +
            32 * static_cast<std::uint64_t>(v <= w));
    observe(v == "ab");
    observe(std::string("b") < v);
    if (!v.empty())
    {
        observe(static_cast<unsigned char>(v.front()) * 256U + static_cast<unsigned char>(v.back()));
        const auto k = rng.below(v.size() + 1);
        auto       x = v;
        x.remove_prefix(k);
        x.remove_suffix(rng.below(x.size() + 1));
        text(std::string(x.begin(), x.end()));
        x.swap(v);
        observe(v.size());
    }
    std::ostringstream o;
    switch (rng.below(4))
    {
    case 0: o << std::left; break;
    case 1: o << std::right; break;
    case 2: o << std::internal; break;
    default: break;
    }
    o << std::setfill('*') << std::setw(static_cast<int>(rng.below(12))) << w << '|' << v << std::setw(3) << nn::string_view();
    text(o.str());
    vh::nontrivial();
}

static void spans(Rng& rng)
{
    std::vector<int> base(rng.below(12));
    for (auto& x : base)
    {
        x = static_cast<int>(rng.below(100));
    }
    nn::span<int> s(base.data(), base.size());
    vh::op("span %zu", base.size());
    for (auto k = rng.range(1, 8); k > 0; --k)
    {
        const auto n = s.size();
        const auto x = rng.below(n + 1), y = rng.below(n - x + 1);
        vh::feel(x * 16 + y);
        switch (rng.below(5))
        {
        case 0: s = s.first(n - x); break;
        case 1: s = s.last(n - x); break;
        case 2: s = s.subspan(x); break;
        case 3: s = s.subspan(x, y); break;
        default:
            if (n >= 2)
            {
                const nn::span<int, 2>       f(s.first<2>());
                const nn::span<const int, 2> c(f);
                const nn::span<const int>    d(c);
                observe(static_cast<std::uint64_t>(d[0] + c.back()));
                f[1] = static_cast<int>(rng.below(7));
                observe(f.size_bytes() + f.subspan<1>().size());
            }
        }
        observe(s.size());
        observe(static_cast<std::uint64_t>(s.data() - base.data()));
        observe(s.empty());
        for (int v : s)
        {
            observe(static_cast<std::uint64_t>(v));
        }
        for (auto it = s.rbegin(); it != s.rend(); ++it)
        {
            observe(static_cast<std::uint64_t>(*it));
        }
    }
    for (int v : base)
    {
        observe(static_cast<std::uint64_t>(v));
    }
    std::array<int, 3>           arr{{1, 2, 3}};
    int                          raw[3] = {4, 5, 6};
    const nn::span<int, 3>     a3(arr), r3(raw);
    const nn::span<const int>  ad(arr), rd(raw);
    observe(static_cast<std::uint64_t>(a3[0] + r3[1] + ad[2] + rd[0]));
    observe((nn::span<int, 3>::extent == 3) + 2 * (nn::span<int>::extent == nn::dynamic_extent));
    vh::nontrivial();
}

// ------------------------------------------------------------------------------------------------ the library's own
template <typename T>
struct Make;
template <>
struct Make<int>
{
    static int of(Rng& rng)
    {
        return static_cast<int>(rng.below(50));
    }
    static void see(int x)
    {
        observe(static_cast<std::uint64_t>(x));
    }
};
template <>
struct Make<std::string>
{
    static std::string of(Rng& rng)
    {
        return word(rng);
    }
    static void see(const std::string& s)
    {
        text(s);
    }
};
template <>
struct Make<bool>
{
    static bool of(Rng& rng)
    {
        return rng.chance(1, 2);
    }
    static void see(bool b)
    {
        observe(b);
    }
};
template <typename T>
void arrays_of(Rng& rng)
{
    using A = cetl::VariableLengthArray<T, Alloc<T>>;
    Res res[2];
    {
        A v[3] = {A{Alloc<T>(&res[0])}, A{20, Alloc<T>(&res[0])}, A{Alloc<T>(&res[1])}};
        for (auto k = rng.range(4, 40); k > 0; --k)
        {
            const auto op = rng.below(15);
            const auto x = rng.below(3), y = rng.below(3);
            vh::op("array %d %d %d", static_cast<int>(op), static_cast<int>(x), static_cast<int>(y));
            vh::feel(op * 16 + x * 4 + y);
            const bool limited = v[x].max_size() < 100;
            const int out = outcome([&] {
                switch (op)
                {
                case 0:
                case 1:
                case 2:
                    if (VH_EXC || !limited || v[x].size() < v[x].max_size())
                    {
                        v[x].push_back(Make<T>::of(rng));
                    }
                    break;
                case 3:
                {
                    const auto n = rng.below(18);
                    if (VH_EXC || !limited || n <= v[x].max_size())
                    {
                        v[x].resize(n);
                    }
                    break;
                }
                case 4:
                {
                    const auto n = rng.below(18);
                    v[x].resize(n, Make<T>::of(rng));
                    break;
                }
                case 5: v[x].reserve(rng.below(18)); break;
                case 6:
                    if (!v[x].empty())
                    {
                        v[x].pop_back();
                    }
                    break;
                case 7: v[x].clear(); break;
                case 8: v[x].shrink_to_fit(); break;
                case 9:
                    if (v[y].size() <= v[x].max_size())
                    {
                        v[x] = v[y];
                    }
                    break;
                case 10:
                    if (x != y && v[y].size() <= v[x].max_size())
                    {
                        v[x] = std::move(v[y]);
                        v[y].clear();
                    }
                    break;
                case 11:
                {
                    const A c(v[x], Alloc<T>(&res[y % 2]));
                    observe(c.size());
                    observe(c == v[x]);
                    observe(c.get_allocator().resource() == &res[y % 2]);
                    break;
                }
                case 12: v[x].shrink_to_fit(); break;
                case 13:
                {
                    const auto n = rng.below(10);
                    v[x].assign(n, Make<T>::of(rng));
                    break;
                }
                default:
#if VH_EXC
                    Make<T>::see(v[x].at(rng.below(10)));
#endif
                    break;
                }
            });
            observe(static_cast<std::uint64_t>(out));
            for (auto& a : v)
            {
                observe(a.size());
                observe(a.capacity());
                observe(a.empty());
                for (std::size_t i = 0; i < a.size(); ++i)
                {
                    Make<T>::see(a[i]);
                }
            }
            observe(v[0] == v[1]);
            observe(v[1] != v[2]);
        }
    }
    VH_CHECK(res[0].live == 0 && res[1].live == 0, "neutral.leak", "memory left behind");
    vh::nontrivial();
}

namespace cetl
{
template <>
constexpr type_id type_id_getter<int>() noexcept
{
    return {1};
}
template <>
constexpr type_id type_id_getter<std::string>() noexcept
{
    return {2};
}
template <>
constexpr type_id type_id_getter<Wide>() noexcept
{
    return {3};
}
}  // namespace cetl

struct Face
{
    virtual ~Face()           = default;
    virtual int value() const = 0;
};
struct Body final : Face
{
    explicit Body(int x)
        : v(x)
    {
#if VH_EXC
        if (x < 0)
        {
            throw 1;
        }
#endif
    }
    int value() const override
    {
        return v;
    }
    int v;
};

template <typename A>
void see_any(const A& a)
{
    observe(a.has_value());
    observe(a.type_size());
    if (auto* p = cetl::get_if<int>(&a))
    {
        observe(static_cast<std::uint64_t>(*p));
    }
    if (auto* p = cetl::get_if<std::string>(&a))
    {
        text(*p);
    }
    if (auto* p = cetl::get_if<Wide>(&a))
    {
        observe(static_cast<std::uint64_t>(p->v[3]));
    }
}
static void own_types(Rng& rng)
{
    Res res;
    {
        using Any  = cetl::unbounded_variant<16, true, true, 16, nn::pmr::memory_resource>;
        using Fun  = cetl::pmr::function<int(int), 16, nn::pmr::memory_resource>;
        Any a(&res), b(&res);
        Fun f(&res), g(&res);
        for (auto k = rng.range(3, 16); k > 0; --k)
        {
            const auto op = rng.below(11);
            vh::op("own %d", static_cast<int>(op));
            vh::feel(op);
            const int out = outcome([&] {
                switch (op)
                {
                case 0: a = static_cast<int>(rng.below(100)); break;
                case 1: b = word(rng); break;
                case 2: b = Wide{{1, 2, 3, static_cast<int>(rng.below(9))}}; break;
                case 3: a = b; break;
                case 4: a.swap(b); break;
                case 5: b.reset(); break;
                case 6:
                {
                    const std::string w = word(rng);
                    const auto        d = static_cast<int>(w.size());
                    f                   = [w, d](int x) { return x * 3 + d; };
                    break;
                }
                case 7: g = f; break;
                case 8: f = nullptr; break;
                case 9: std::swap(f, g); break;
                default:
                {
                    auto p = cetl::pmr::InterfaceFactory::make_unique<Face>(Alloc<Body>(&res), VH_EXC && rng.chance(1, 3) ? -1 : 4);
                    observe(static_cast<std::uint64_t>(p->value()));
                    Alloc<Body> own(&res);
                    auto        q = cetl::pmr::Factory::make_unique(own, 8);
                    observe(static_cast<std::uint64_t>(q->value()));
                    break;
                }
                }
            });
            observe(static_cast<std::uint64_t>(out));
            see_any(a);
            see_any(b);
            observe(static_cast<bool>(f) * 2U + static_cast<bool>(g));
            if (f)
            {
                observe(static_cast<std::uint64_t>(f(4)));
            }
#if VH_EXC
            else
            {
                observe(static_cast<std::uint64_t>(outcome([&] { (void) f(4); })));
            }
#endif
            if (g)
            {
                observe(static_cast<std::uint64_t>(g(5)));
            }
            observe(res.live);
        }
    }
    VH_CHECK(res.live == 0, "neutral.leak", "memory left behind");
    vh::nontrivial();
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("memory", 10, memory);
    vh::suite("delegate", 10, delegate);
    vh::suite("resources", 20, resources);
    vh::suite("names", 1, names);
    vh::suite("optionals", 20, optionals);
    vh::suite("variants", 20, variants);
    vh::suite("views", 20, views);
    vh::suite("spans", 10, spans);
    vh::suite("arrays", 20, [](Rng& rng) {
        switch (rng.below(3))
        {
        case 0: arrays_of<int>(rng); break;
        case 1: arrays_of<std::string>(rng); break;
        default: arrays_of<bool>(rng);
        }
    });
    vh::suite("own", 20, own_types);
    return vh::finish();
}

// One set of objects of all kinds, made by one thread and then read by several at once through const operations only.
// Every thread performs its own random sequence of operations and digests the results; afterwards one thread alone
// repeats the same sequences and must see the same. The first case of a process finds all statics of the library unused.
#include "vh.hpp"

#include <cetl/cetl.hpp>
#include <cetl/pf17/cetlpf.hpp>
#include <cetl/pf17/memory_resource.hpp>
#include <cetl/pf17/optional.hpp>
#include <cetl/pf17/string_view.hpp>
#include <cetl/pf17/sys/memory_resource.hpp>
#include <cetl/pf17/variant.hpp>
#include <cetl/pf20/span.hpp>
#include <cetl/pmr/function.hpp>
#include <cetl/pmr/interface_ptr.hpp>
#include <cetl/pmr/memory.hpp>
#include <cetl/rtti.hpp>
#include <cetl/unbounded_variant.hpp>
#include <cetl/variable_length_array.hpp>
#include <cetl/visit_helpers.hpp>

#include <atomic>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

using vh::Rng;
namespace pmr = cetl::pf17::pmr;

/// Hands out memory to several threads.
struct SafeRes final : pmr::memory_resource
{
    std::mutex                                  mutex;
    std::size_t                                 live = 0;
    void* do_allocate(std::size_t n, std::size_t) override
    {
        const std::lock_guard<std::mutex> lock(mutex);
        ++live;
        return ::operator new(n);
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override
    {
        const std::lock_guard<std::mutex> lock(mutex);
        --live;
        ::operator delete(p);
    }
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
    std::size_t do_max_size() const noexcept override
    {
        return 1000000;
    }
};

struct Digest
{
    std::uint64_t v = 0;
    void          add(std::uint64_t x)
    {
        v = vh::mix(v ^ vh::mix(x));
    }
    void text(const std::string& s)
    {
        add(s.size());
        for (char c : s)
        {
            add(static_cast<unsigned char>(c));
        }
    }
};

struct Shape : cetl::rtti_helper<cetl::type_id_type<1, 2, 3>>
{
    virtual int area() const = 0;
};
struct Other : cetl::rtti_helper<cetl::type_id_type<1, 2, 4>>
{
};
struct Square final : cetl::rtti_helper<cetl::type_id_type<1, 2, 5>, Shape, Other>
{
    explicit Square(int s)
        : side(s)
    {
    }
    int area() const override
    {
        return side * side;
    }
    int side;
};

struct Big
{
    explicit Big(std::int64_t x)
        : v{x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, x + 7}
    {
    }
    std::int64_t v[8];
};

namespace cetl
{
template <>
constexpr type_id type_id_getter<int>() noexcept
{
    return {1};
}
template <>
constexpr type_id type_id_getter<std::string>() noexcept
{
    return {2};
}
template <>
constexpr type_id type_id_getter<Big>() noexcept
{
    return {3};
}
template <>
constexpr type_id type_id_getter<double>() noexcept
{
    return {4};
}
}  // namespace cetl

using IntAlloc    = pmr::polymorphic_allocator<int>;
using StringAlloc = pmr::polymorphic_allocator<std::string>;
using BoolAlloc   = pmr::polymorphic_allocator<bool>;
using Ints        = cetl::VariableLengthArray<int, IntAlloc>;
using Strings     = cetl::VariableLengthArray<std::string, StringAlloc>;
using Bits        = cetl::VariableLengthArray<bool, BoolAlloc>;
using Any         = cetl::unbounded_variant<64>;
using AnyPmr      = cetl::unbounded_variant<16, true, true, alignof(std::max_align_t), pmr::memory_resource>;
using AnyHeap     = cetl::unbounded_variant<0, true, true, alignof(std::max_align_t), pmr::memory_resource>;
using Func        = cetl::pmr::function<std::int64_t(int), 32>;
using FuncPmr     = cetl::pmr::function<std::int64_t(int), 16, pmr::memory_resource>;
using Var         = cetl::pf17::variant<int, std::string, Big, double>;
using Small       = cetl::pf17::variant<int, char>;
using Opt         = cetl::pf17::optional<std::string>;
using OptInt      = cetl::pf17::optional<int>;
using View        = cetl::pf17::basic_string_view<char>;
using Span        = cetl::pf20::span<const int>;
using Span4       = cetl::pf20::span<const int, 4>;
using ShapePtr    = cetl::pmr::InterfacePtr<Shape>;

static std::string word(Rng& rng)
{
    std::string s;
    for (auto n = rng.below(30); n > 0; --n)
    {
        s += static_cast<char>('a' + rng.below(3));
    }
    return s;
}

struct Objects
{
    explicit Objects(Rng& rng)
        : ints(rng.chance(1, 2) ? Ints(IntAlloc(&res)) : Ints(100, IntAlloc(&res)))
        , ints2{IntAlloc(&res)}
        , strings{StringAlloc(&res)}
        , strings2{StringAlloc(&res)}
        , bits{BoolAlloc(&res)}
        , bits2{BoolAlloc(&res)}
        , anyp{&res}
        , anyh{&res}
        , base(static_cast<int>(rng.below(1000)))
        , func{[this](int x) -> std::int64_t { return base + x; }}
        , funcp{&res}
        , alloc(&res)
        , alloc2(rng.chance(1, 2) ? IntAlloc(&res) : IntAlloc(pmr::null_memory_resource()))
        , square(7)
        , buffer(storage, sizeof storage, pmr::null_memory_resource())
    {
        for (auto n = rng.below(20); n > 0; --n)
        {
            ints.push_back(static_cast<int>(rng.below(4)));
            strings.push_back(word(rng));
        }
        for (auto n = rng.below(60); n > 0; --n)
        {
            bits.push_back(rng.chance(1, 2));
        }
        ints2    = ints;
        strings2 = strings;
        bits2    = bits;
        if (rng.chance(1, 2))
        {
            ints2.push_back(1);
            strings2.push_back("x");
            bits2.push_back(true);
        }
        switch (rng.below(4))
        {
        case 0: any = static_cast<int>(rng.below(100)); break;
        case 1: any = word(rng); break;
        case 2: any = Big(5); break;
        default: break;
        }
        switch (rng.below(4))
        {
        case 0: anyp = static_cast<int>(rng.below(100)); break;
        case 1: anyp = word(rng); break;
        case 2: anyp = Big(6); break;
        default: break;
        }
        switch (rng.below(4))
        {
        case 0: anyh = static_cast<int>(rng.below(100)); break;
        case 1: anyh = word(rng); break;
        case 2: anyh = Big(7); break;
        default: break;
        }
        const std::string w = word(rng);
        if (rng.chance(3, 4))
        {
            funcp = [w](int x) -> std::int64_t { return static_cast<std::int64_t>(w.size()) * 1000 + x; };
        }
        switch (rng.below(4))
        {
        case 0: var = word(rng); break;
        case 1: var.emplace<2>(9); break;
        case 2: var = 0.5; break;
        default: var = 3; break;
        }
        var2 = var;
        if (rng.chance(1, 2))
        {
            small = 'x';
        }
        if (rng.chance(1, 2))
        {
            opt = word(rng);
        }
        if (rng.chance(1, 2))
        {
            opt2 = opt;
        }
        if (rng.chance(1, 2))
        {
            opti = static_cast<int>(rng.below(10));
        }
        text   = word(rng) + word(rng);
        needle = word(rng).substr(0, 2);
        view   = View(text.data(), text.size());
        needv  = View(needle.data(), needle.size());
        for (int i = 0; i < 12; ++i)
        {
            raw[i] = static_cast<int>(rng.below(50));
        }
        span = Span(raw, 4 + rng.below(9));
        shape = cetl::pmr::InterfaceFactory::make_unique<Shape>(pmr::polymorphic_allocator<Square>(&res), static_cast<int>(rng.below(30)));
    }

    mutable SafeRes res;  // the only object that is used by several threads, and safe for that
    Ints            ints, ints2;
    Strings         strings, strings2;
    Bits            bits, bits2;
    Any             any;
    AnyPmr          anyp;
    AnyHeap         anyh;
    int             base;
    Func            func;
    FuncPmr         funcp;
    Var             var{}, var2{};
    Small           small{};
    Opt             opt, opt2;
    OptInt          opti;
    std::string     text, needle;
    View            view, needv;
    int             raw[12];
    Span            span;
    IntAlloc        alloc, alloc2;
    Square          square;
    ShapePtr        shape;
    unsigned char   storage[64];
    pmr::monotonic_buffer_resource buffer;
};

#if VH_EXC
template <typename E, typename F>
void expects(Digest& d, F f)
{
    try
    {
        f();
        d.add(1);
    }
    catch (const E& e)
    {
        d.add(2 + (e.what() != nullptr));
    }
}
#endif

template <typename A>
void read_any(const A& a, Digest& d)
{
    d.add(a.has_value());
    d.add(a.valueless_by_exception());
    d.add(a.type_size());
    for (auto x : a.type_id())
    {
        d.add(x);
    }
    if (auto* p = cetl::get_if<int>(&a))
    {
        d.add(static_cast<std::uint64_t>(*p));
        d.add(static_cast<std::uint64_t>(cetl::get<int>(a)));
        d.add(static_cast<std::uint64_t>(cetl::get<const int&>(a)));
    }
    if (auto* p = cetl::get_if<std::string>(&a))
    {
        d.text(*p);
        d.text(cetl::get<std::string>(a));
    }
    if (auto* p = cetl::get_if<Big>(&a))
    {
        d.add(static_cast<std::uint64_t>(p->v[7]));
    }
    const A copy(a);
    d.add(copy.has_value());
    if (auto* p = cetl::get_if<std::string>(&copy))
    {
        d.text(*p);
    }
    A other(copy);
    other = a;
    d.add(other.type_size());
#if VH_EXC
    expects<std::exception>(d, [&] { (void) cetl::get<double>(a); });
#endif
}
template <typename V>
void read_array(const V& v, const V& w, Digest& d, Rng& rng)
{
    d.add(v.size());
    d.add(v.capacity());
    d.add(v.max_size());
    d.add(v.empty());
    d.add(v == w);
    d.add(v != w);
    d.add(v.get_allocator() == w.get_allocator());
    if (!v.empty())
    {
        const auto k = rng.below(v.size());
#if VH_EXC
        d.add(v[k] == v.at(k));
#else
        d.add(v[k] == v[0]);
#endif
        d.add(v.front() == v.back());
    }
    d.add(static_cast<std::uint64_t>(std::count(v.begin(), v.end(), v.empty() ? typename V::value_type{} : v[0])));
    d.add(static_cast<std::uint64_t>(v.cend() - v.cbegin()));
    const V copy(v);
    d.add(copy == v);
    V other(copy, v.get_allocator());
    other = w;
    d.add(other == w);
#if VH_EXC
    expects<std::out_of_range>(d, [&] { (void) v.at(v.size() + rng.below(9)); });
#endif
}
static void show(Digest& d, const Ints& v)
{
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        d.add(static_cast<std::uint64_t>(v.data()[i]));
    }
}

constexpr int OPS = 14;
static void perform(const Objects& o, std::uint64_t op, Rng& rng, Digest& d)
{
    switch (op)
    {
    case 0:
        read_array(o.ints, o.ints2, d, rng);
        show(d, o.ints);
        break;
    case 1: read_array(o.strings, o.strings2, d, rng); break;
    case 2:
        read_array(o.bits, o.bits2, d, rng);
        for (auto it = o.bits.cbegin(); it != o.bits.cend(); ++it)
        {
            d.add(*it);
        }
        break;
    case 3: read_any(o.any, d); break;
    case 4: read_any(o.anyp, d); break;
    case 5: read_any(o.anyh, d); break;
    case 6:
    {
        d.add(static_cast<bool>(o.func));
        const int x = static_cast<int>(rng.below(50));
        d.add(static_cast<std::uint64_t>(o.func(x)));
        d.add(static_cast<bool>(o.funcp));
        d.add(o.funcp.get_memory_resource() == &o.res);
        const Func f(o.func);
        d.add(static_cast<std::uint64_t>(f(x)));
        const FuncPmr p(o.funcp);
        FuncPmr       q(&o.res);
        q = p;
        if (o.funcp)
        {
            d.add(static_cast<std::uint64_t>(o.funcp(x)));
            d.add(static_cast<std::uint64_t>(q(x)));
        }
        else
        {
#if VH_EXC
            expects<std::bad_function_call>(d, [&] { (void) o.funcp(x); });
#endif
        }
        break;
    }
    case 7:
    {
        using cetl::pf17::get_if;
        d.add(o.var.index());
        d.add(cetl::pf17::holds_alternative<std::string>(o.var));
        if (auto* p = get_if<std::string>(&o.var))
        {
            d.text(*p);
            d.text(cetl::pf17::get<1>(o.var));
        }
        d.add(o.var.valueless_by_exception());
        d.add(cetl::pf17::visit(cetl::make_overloaded([](int x) { return static_cast<std::uint64_t>(x); },
                                                      [](const std::string& s) { return static_cast<std::uint64_t>(s.size()); },
                                                      [](const Big& b) { return static_cast<std::uint64_t>(b.v[3]); },
                                                      [](double) { return static_cast<std::uint64_t>(77); }),
                                o.var));
        d.add(cetl::pf17::visit([](const auto& a, const auto& b) -> std::uint64_t { return sizeof a * 100 + sizeof b; }, o.var, o.small));
        const Var copy(o.var);
        Var       other(copy);
        other = o.var2;
        d.add(copy.index() + other.index());
        d.add(static_cast<std::uint64_t>(o.small == Small{}) + static_cast<std::uint64_t>(o.small < Small{'y'}) * 2U +
              static_cast<std::uint64_t>(o.small != Small{'x'}) * 4U);
#if VH_EXC
        expects<cetl::pf17::bad_variant_access>(d, [&] { (void) cetl::pf17::get<3>(o.var); });
#endif
        break;
    }
    case 8:
    {
        d.add(o.opt.has_value());
        d.add(static_cast<bool>(o.opti));
        d.text(o.opt.value_or("none"));
        d.add(static_cast<std::uint64_t>(o.opti.value_or(99)));
        d.add(o.opt == o.opt2);
        d.add(o.opt < o.opt2);
        d.add(o.opti > 4);
        d.add(o.opti == cetl::pf17::nullopt);
        if (o.opt)
        {
            d.text(*o.opt);
            d.add(o.opt->size());
            d.text(o.opt.value());
        }
        const Opt copy(o.opt);
        Opt       other(copy);
        other = o.opt2;
        d.add(copy.has_value() + other.has_value());
#if VH_EXC
        expects<cetl::pf17::bad_optional_access>(d, [&] { (void) o.opti.value(); });
#endif
        break;
    }
    case 9:
    {
        const auto k = rng.below(o.view.size() + 1);
        d.add(o.view.find(o.needv, k));
        d.add(o.view.size() + o.view.length());
        d.add(o.view.substr(k).size());
        d.add(static_cast<std::uint64_t>(o.view.compare(o.needv) < 0));
        d.add(o.view == o.needv);
        d.add(o.view < o.needv);
        d.text(std::string(o.view.begin(), o.view.end()));
        char out[8];
        d.add(o.view.copy(out, 8, k));
#if VH_EXC
        expects<std::out_of_range>(d, [&] { (void) o.view.substr(o.view.size() + 1); });
#endif
        break;
    }
    case 10:
    {
        const auto k = rng.below(o.span.size() + 1);
        const Span s = o.span.subspan(k);
        std::uint64_t n = 0;
        for (int x : s)
        {
            n += static_cast<std::uint64_t>(x);
        }
        d.add(n);
        const Span4 f(o.span.first<4>());
        d.add(static_cast<std::uint64_t>(f.front() + f.back() + o.span[k == 0 ? 0 : k - 1]));
        d.add(o.span.size_bytes() + o.span.last(k).size());
        break;
    }
    case 11:
    {
        d.add(o.alloc == o.alloc2);
        d.add(o.alloc != o.alloc2);
        d.add(o.alloc.max_size());
        d.add(o.alloc.resource() == &o.res);
        d.add(o.alloc.select_on_container_copy_construction().resource() == &o.res);
        pmr::polymorphic_allocator<Big> own(o.alloc);
        Big* const                      b = own.allocate(3);
        own.construct(b, 5);
        d.add(static_cast<std::uint64_t>(b->v[4]));
        own.destroy(b);
        own.deallocate(b, 3);
        d.add(o.buffer.max_size());
        d.add(o.buffer.is_equal(o.buffer));
        d.add(o.buffer.upstream_resource() == pmr::null_memory_resource());
        break;
    }
    case 12:
    {
        d.add(static_cast<std::uint64_t>(o.shape->area()));
        d.add(static_cast<bool>(o.shape));
        const Shape& s = *o.shape;
        d.add(cetl::rtti_cast<const Square*>(&s) != nullptr);
        d.add(cetl::rtti_cast<const Other*>(&s) != nullptr);
        const Other& x = o.square;
        d.add(cetl::rtti_cast<const Shape*>(&x) == &o.square);
        for (auto b : s._get_type_id_())
        {
            d.add(b);
        }
        // separate objects by the shared resource
        const auto own = cetl::pmr::InterfaceFactory::make_unique<Shape>(pmr::polymorphic_allocator<Square>(&o.res), 3);
        d.add(static_cast<std::uint64_t>(own->area()));
        break;
    }
    default:
    {
        auto* const r = pmr::get_default_resource();
        d.add(r == pmr::new_delete_resource());
        void* const p = r->allocate(48, 8);
        static_cast<unsigned char*>(p)[47] = 1;
        r->deallocate(p, 48, 8);
        d.add(pmr::null_memory_resource()->max_size());
        d.add(*r == *pmr::null_memory_resource());
        pmr::monotonic_buffer_resource m(64);
        d.add(m.allocate(16, 8) != nullptr);
        break;
    }
    }
}

static std::uint64_t sequence(const Objects& o, std::uint64_t seed, int ops)
{
    Rng    rng(seed);
    Digest d;
    for (int i = 0; i < ops; ++i)
    {
        perform(o, rng.below(OPS), rng, d);
    }
    return d.v;
}

static void run_case(Rng& rng)
{
    const std::uint64_t made    = rng.next();
    const unsigned      threads = static_cast<unsigned>(rng.range(2, 5));
    const int           ops     = static_cast<int>(rng.range(8, 40));
    Rng                 maker(made);
    const std::unique_ptr<const Objects> o(new Objects(maker));
    const std::size_t                    live = o->res.live;
    std::vector<std::uint64_t>           seeds(threads), got(threads);
    std::vector<std::thread>             pool;
    std::atomic<unsigned>                gate{0};
    vh::op("%u threads, %d operations each", threads, ops);
    vh::feel(made);
    vh::nontrivial();
    for (unsigned t = 0; t < threads; ++t)
    {
        // some threads do the same
        seeds[t] = (t > 0 && rng.chance(1, 3)) ? seeds[t - 1] : rng.next();
        pool.emplace_back([&, t] {
            gate.fetch_add(1, std::memory_order_relaxed);
            while (gate.load(std::memory_order_relaxed) < threads)
            {
            }
            got[t] = sequence(*o, seeds[t], ops);
        });
    }
    for (auto& t : pool)
    {
        t.join();
    }
    for (unsigned t = 0; t < threads; ++t)
    {
        VH_CHECK(sequence(*o, seeds[t], ops) == got[t], "shared.result", "thread %u saw what one thread alone does not", t);
    }
    VH_CHECK(o->res.live == live, "shared.leak", "memory left behind");
    // a set made anew in the same way gives the same results: reading changed nothing
    {
        Rng           again(made);
        const Objects n(again);
        VH_CHECK(sequence(n, seeds[0], ops) == got[0], "shared.changed", "reading changed an object");
    }
    vh::count("threads", threads);
    vh::count("const_operations", threads * static_cast<unsigned>(ops));
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("shared", 100, run_case);
    return vh::finish();
}

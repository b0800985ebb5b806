// Monitors of cetl::pf20::span: every span and sub-span is compared with a model that is a plain address, count pair.
// Arrays lie in heap blocks of exactly their size, so that AddressSanitizer sees any access outside of them.
// -DCELL=0 int, 1 a structure of 12 bytes, 2 char, 3 over-aligned
#include "vh.hpp"

#include "cetl/pf20/span.hpp"

#include <algorithm>
#include <array>
#include <memory>
#include <numeric>
#include <type_traits>
#include <vector>
#if __cplusplus >= 202002L
#    include <span>
#endif

#ifndef CELL
#    define CELL 0
#endif

using vh::Rng;

#if CELL == 0
using Cell = int;
static Cell make(std::uint64_t x)
{
    return static_cast<int>(x);
}
static bool same(const Cell& a, std::uint64_t x)
{
    return a == static_cast<int>(x);
}
#elif CELL == 2
using Cell = char;
static Cell make(std::uint64_t x)
{
    return static_cast<char>(x);
}
static bool same(const Cell& a, std::uint64_t x)
{
    return a == static_cast<char>(x);
}
#else
#    if CELL == 3
struct alignas(32) Cell
#    else
struct Cell
#    endif
{
    std::uint32_t a, b, c;
};
static Cell make(std::uint64_t x)
{
    return Cell{static_cast<std::uint32_t>(x), static_cast<std::uint32_t>(x >> 3), 7};
}
static bool same(const Cell& a, std::uint64_t x)
{
    return a.a == static_cast<std::uint32_t>(x) && a.b == static_cast<std::uint32_t>(x >> 3) && a.c == 7;
}
#endif

struct Pf
{
    template <typename T, std::size_t N>
    using Span                        = cetl::pf20::span<T, N>;
    static constexpr std::size_t DYN  = cetl::pf20::dynamic_extent;
};
#if __cplusplus >= 202002L
struct Std
{
    template <typename T, std::size_t N>
    using Span                        = std::span<T, N>;
    static constexpr std::size_t DYN  = std::dynamic_extent;
};
#endif

/// The underlying object: known values, which every write through a span changes here as well.
class Block
{
public:
    Block(Rng& rng, std::size_t n)
        : n_(n)
        , mem_(new Cell[n == 0 ? 1 : n])
        , val_(n)
        , rng_(rng)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            val_[i] = rng.next();
            mem_[i] = make(val_[i]);
        }
    }
    Cell* at(std::size_t i = 0)
    {
        return mem_.get() + i;
    }
    std::size_t size() const
    {
        return n_;
    }
    std::uint64_t fresh(std::size_t i)
    {
        val_[i] = rng_.next();
        return val_[i];
    }
    std::uint64_t value(std::size_t i) const
    {
        return val_[i];
    }
    void check(const char* what)
    {
        for (std::size_t i = 0; i < n_; ++i)
        {
            VH_CHECK(same(mem_[i], val_[i]), "span.write", "%s: cell %zu of %zu has another value than was written", what, i, n_);
        }
    }
    void adopt(Cell* p)  ///< The cells are elsewhere.
    {
        std::copy(mem_.get(), mem_.get() + n_, p);
    }

private:
    std::size_t             n_;
    std::unique_ptr<Cell[]> mem_;
    std::vector<std::uint64_t> val_;
    Rng&                    rng_;
};

template <typename S>
void write(const S& s, std::size_t i, const Cell& c, std::false_type)
{
    s[i] = c;
}
template <typename S>
void write(const S&, std::size_t, const Cell&, std::true_type)
{
}

/// The span denotes the n cells of the block from p on.
template <typename S>
void require(const S& s, Block& block, const Cell* p, std::size_t n, Rng& rng, const char* what)
{
    using E = typename S::element_type;
    const std::size_t off = p == nullptr ? 0 : static_cast<std::size_t>(p - block.at());
    VH_CHECK(s.size() == n && s.size_bytes() == n * sizeof(Cell) && s.empty() == (n == 0), "span.size", "%s: %zu elements for %zu", what, s.size(), n);
    VH_CHECK(s.data() == p, "span.data", "%s: starts elsewhere", what);
    VH_CHECK((S::extent == static_cast<std::size_t>(-1) || S::extent == n), "span.extent", "%s: wrong extent", what);
    VH_CHECK(s.end() - s.begin() == static_cast<std::ptrdiff_t>(n) && s.rend() - s.rbegin() == static_cast<std::ptrdiff_t>(n), "span.range", "%s: wrong distance", what);
    std::size_t i = 0;
    for (auto& c : s)
    {
        static_assert(std::is_same<decltype(c), E&>::value, "constness of elements");
        VH_CHECK(&c == p + i && &s[i] == p + i, "span.element", "%s: element %zu is elsewhere", what, i);
        VH_CHECK(same(c, block.value(off + i)), "span.value", "%s: element %zu has another value", what, i);
        ++i;
    }
    VH_CHECK(i == n, "span.range", "%s: %zu elements instead of %zu", what, i, n);
    for (auto it = s.rbegin(); it != s.rend(); ++it)
    {
        --i;
        VH_CHECK(&*it == p + i, "span.reverse", "%s: element %zu is elsewhere in reverse", what, i);
    }
    VH_CHECK(i == 0, "span.reverse", "%s: wrong number of elements in reverse", what);
    if (n > 0)
    {
        VH_CHECK(&s.front() == p && &s.back() == p + (n - 1), "span.ends", "%s: first or last element", what);
        const std::size_t k = rng.below(n);
        if (!std::is_const<E>::value)
        {
            write(s, k, make(block.fresh(off + k)), std::is_const<E>{});
            block.check(what);
        }
    }
    vh::count("spans", 1);
}

template <std::size_t N>
using Const = std::integral_constant<std::size_t, N>;

/// f(Const<0>), ... f(Const<N - 1>)
template <typename F, std::size_t... Is>
void each_impl(F&& f, std::index_sequence<Is...>)
{
    const int x[] = {0, (f(Const<Is>{}), 0)...};
    (void) x;
}
template <std::size_t N, typename F>
void each(F&& f)
{
    each_impl(f, std::make_index_sequence<N>{});
}
/// f(Const<n>) for a number only known now.
template <std::size_t Max, typename F>
void with(std::size_t n, F&& f)
{
    each<Max + 1>([&](auto k) {
        if (k.value == n)
        {
            f(k);
        }
    });
}

/// All sub-spans of a span of static extent.
template <typename I, typename E, std::size_t N>
void fixed(Rng& rng)
{
    static constexpr std::size_t DYN = I::DYN;
    using S                          = typename I::template Span<E, N>;
    Block b(rng, N);
    E* const p = b.at();
    const S s(p, N);
    require(s, b, p, N, rng, "a fixed span");
    const S t(p, static_cast<E*>(p + N));
    require(t, b, p, N, rng, "a fixed span of a range");
    const S u(s);
    require(u, b, p, N, rng, "a copy");
    S v(t);
    v = u;
    require(v, b, p, N, rng, "an assigned span");
    const typename I::template Span<E, DYN> d(s);
    require(d, b, p, N, rng, "a dynamic span of a fixed one");
    const S back(d);
    require(back, b, p, N, rng, "a fixed span of a dynamic one");
    const typename I::template Span<const E, N> c(s);
    require(c, b, p, N, rng, "a constant span");
    const typename I::template Span<const E, DYN> cd(s);
    require(cd, b, p, N, rng, "a constant dynamic span");
    const typename I::template Span<const E, N> cb(d);
    require(cb, b, p, N, rng, "a constant fixed span of a dynamic one");
    each<N + 1>([&](auto k) {
        constexpr std::size_t K = decltype(k)::value;
        require(s.template first<K>(), b, p, K, rng, "first<>");
        require(s.first(K), b, p, K, rng, "first()");
        require(s.template last<K>(), b, p + (N - K), K, rng, "last<>");
        require(s.last(K), b, p + (N - K), K, rng, "last()");
        require(d.template first<K>(), b, p, K, rng, "first<> of a dynamic span");
        require(d.template last<K>(), b, p + (N - K), K, rng, "last<> of a dynamic span");
        require(s.template subspan<K>(), b, p + K, N - K, rng, "subspan<>");
        require(s.subspan(K), b, p + K, N - K, rng, "subspan()");
        require(s.subspan(K, DYN), b, p + K, N - K, rng, "subspan() to the end");
        require(d.template subspan<K>(), b, p + K, N - K, rng, "subspan<> of a dynamic span");
        static_assert(decltype(s.template first<K>())::extent == K && decltype(s.template last<K>())::extent == K, "");
        static_assert(decltype(s.template subspan<K>())::extent == N - K, "");
        static_assert(decltype(s.first(K))::extent == DYN && decltype(d.template subspan<K>())::extent == DYN, "");
        each<N - K + 1>([&](auto m) {
            constexpr std::size_t M = decltype(m)::value;
            require(s.template subspan<K, M>(), b, p + K, M, rng, "subspan<,>");
            require(s.subspan(K, M), b, p + K, M, rng, "subspan(,)");
            require(d.template subspan<K, M>(), b, p + K, M, rng, "subspan<,> of a dynamic span");
            static_assert(decltype(s.template subspan<K, M>())::extent == M, "");
        });
    });
    vh::op("fixed %zu", N);
    vh::feel(N * 2 + std::is_const<E>::value);
    if (N > 1)
    {
        vh::nontrivial();
    }
}

template <typename I>
void extents(Rng& rng)
{
    const bool c = rng.chance(1, 3);
    switch (rng.below(5))
    {
    case 0: c ? fixed<I, const Cell, 0>(rng) : fixed<I, Cell, 0>(rng); break;
    case 1: c ? fixed<I, const Cell, 1>(rng) : fixed<I, Cell, 1>(rng); break;
    case 2: c ? fixed<I, const Cell, 2>(rng) : fixed<I, Cell, 2>(rng); break;
    case 3: c ? fixed<I, const Cell, 3>(rng) : fixed<I, Cell, 3>(rng); break;
    default: c ? fixed<I, const Cell, 5>(rng) : fixed<I, Cell, 5>(rng); break;
    }
}

/// Random chains of sub-spans of a dynamic span, with writes in between.
template <typename I>
void chains(Rng& rng)
{
    static constexpr std::size_t DYN = I::DYN;
    using D = typename I::template Span<Cell, DYN>;
    using C = typename I::template Span<const Cell, DYN>;
    Block       b(rng, rng.below(rng.chance(1, 50) ? 3000 : rng.chance(1, 8) ? 200 : 20));
    Cell*       p = b.at();
    std::size_t n = b.size();
    D           s(p, n);
    if (n > 1)
    {
        vh::nontrivial();
    }
    vh::feel(n);
    const int steps = static_cast<int>(rng.range(1, 12));
    for (int k = 0; k < steps; ++k)
    {
        require(s, b, p, n, rng, "a dynamic span");
        const std::size_t x = rng.below(n + 1);
        const std::size_t y = rng.below(n - x + 1);
        const std::size_t op = rng.below(12);
        vh::op("%zu: %zu %zu of %zu", op, x, y, n);
        vh::feel(op * 1000003 + x * 1009 + y);
        switch (op)
        {
        case 0:
            s = s.first(n - x);
            n -= x;
            break;
        case 1:
            s = s.last(n - x);
            p += x;
            n -= x;
            break;
        case 2:
            s = s.subspan(x);
            p += x;
            n -= x;
            break;
        case 3:
            s = s.subspan(x, y);
            p += x;
            n = y;
            break;
        case 4:
            with<6>(n, [&](auto m) {
                const typename I::template Span<Cell, decltype(m)::value> f(s);
                require(f, b, p, n, rng, "a fixed span in between");
                s = D(f);
            });
            break;
        case 5: with<6>(x, [&](auto m) { s = s.template subspan<decltype(m)::value>(); p += m.value; n -= m.value; }); break;
        case 6: with<6>(x, [&](auto m) { s = s.template first<decltype(m)::value>(); n = m.value; }); break;
        case 7: with<6>(x, [&](auto m) { s = s.template last<decltype(m)::value>(); p += n - m.value; n = m.value; }); break;
        case 8:
        {
            const C c(s);
            require(c, b, p, n, rng, "a constant span");
            require(c.subspan(x, y), b, p + x, y, rng, "a part of a constant span");
            break;
        }
        case 9:
        {
            const D r(p, p + n);
            require(r, b, p, n, rng, "a span of a range");
            const Cell* const q = p;
            const C           e(q, q + n);
            require(e, b, p, n, rng, "a span of a constant range");
            s = r;
            break;
        }
        case 10:
        {
            // algorithms reach exactly these cells
            std::vector<Cell> seen(s.begin(), s.end());
            std::reverse(seen.begin(), seen.end());
            VH_CHECK(std::equal(seen.begin(), seen.end(), s.rbegin(), [](const Cell& a, const Cell& c) { return std::memcmp(&a, &c, std::min<std::size_t>(sizeof(Cell), 12)) == 0; }), "span.reverse", "reverse traversal");
            const std::size_t off = static_cast<std::size_t>(p - b.at());
            for (std::size_t i = 0; i < n; ++i)
            {
                s.begin()[static_cast<std::ptrdiff_t>(i)] = make(b.fresh(off + i));
            }
            b.check("writing through iterators");
            break;
        }
        default:
        {
            D o;
            require(o, b, nullptr, 0, rng, "an empty span");
            std::swap(o, s);
            require(s, b, nullptr, 0, rng, "a span swapped");
            require(s.first(0), b, nullptr, 0, rng, "first(0) of nothing");
            require(s.last(0), b, nullptr, 0, rng, "last(0) of nothing");
            require(s.subspan(0), b, nullptr, 0, rng, "subspan(0) of nothing");
            require(s.subspan(0, 0), b, nullptr, 0, rng, "subspan(0, 0) of nothing");
            const typename I::template Span<Cell, 0> z;
            require(z, b, nullptr, 0, rng, "a fixed span of nothing");
            require(D(z), b, nullptr, 0, rng, "a span of a fixed span of nothing");
            s = o;
        }
        }
    }
    require(s, b, p, n, rng, "the last span");
    b.check("the end");
}

/// Spans of built-in and standard arrays.
template <typename I>
void arrays(Rng& rng)
{
    static constexpr std::size_t DYN = I::DYN;
    using D  = typename I::template Span<Cell, DYN>;
    using C  = typename I::template Span<const Cell, DYN>;
    using D4 = typename I::template Span<Cell, 4>;
    using C4 = typename I::template Span<const Cell, 4>;
    struct Both
    {
        Cell                raw[4];
        std::array<Cell, 4> arr;
    };
    const std::unique_ptr<Both> both(new Both);
    std::uint64_t               v[4];
    for (std::size_t i = 0; i < 4; ++i)
    {
        v[i]         = rng.next();
        both->raw[i] = both->arr[i] = make(v[i]);
    }
    const auto& craw = static_cast<const Both&>(*both).raw;
    const auto& carr = static_cast<const Both&>(*both).arr;
    const auto  look = [&](const auto& s, const Cell* p, const char* what) {
        VH_CHECK(s.size() == 4 && s.data() == p && s.size_bytes() == 4 * sizeof(Cell), "span.array", "%s: wrong place or size", what);
        std::size_t i = 0;
        for (const auto& c : s)
        {
            VH_CHECK(&c == p + i && same(c, v[i]), "span.array", "%s: wrong element", what);
            ++i;
        }
        VH_CHECK(i == 4, "span.array", "%s: wrong range", what);
        vh::count("spans", 1);
    };
    look(D(both->raw), both->raw, "a span of an array");
    look(D4(both->raw), both->raw, "a fixed span of an array");
    look(C(both->raw), both->raw, "a constant span of an array");
    look(C4(both->raw), both->raw, "a constant fixed span of an array");
    look(C(craw), both->raw, "a span of a constant array");
    look(C4(craw), both->raw, "a fixed span of a constant array");
    look(D(both->arr), both->arr.data(), "a span of a standard array");
    look(D4(both->arr), both->arr.data(), "a fixed span of a standard array");
    look(C(both->arr), both->arr.data(), "a constant span of a standard array");
    look(C4(both->arr), both->arr.data(), "a constant fixed span of a standard array");
    look(C(carr), both->arr.data(), "a span of a constant standard array");
    look(C4(carr), both->arr.data(), "a fixed span of a constant standard array");
    std::array<const Cell, 4> fix{{make(v[0]), make(v[1]), make(v[2]), make(v[3])}};
    look(C(fix), fix.data(), "a span of a standard array of constants");
    look(C4(fix), fix.data(), "a fixed span of a standard array of constants");
    // implicit conversions in a call
    const auto call = [&](C s, const Cell* p) { look(s, p, "an argument"); };
    call(both->raw, both->raw);
    call(both->arr, both->arr.data());
    call(carr, both->arr.data());
    call(D(both->raw), both->raw);
    call(D4(both->arr), both->arr.data());
    // writes arrive
    const std::size_t   k = rng.below(4);
    const std::uint64_t w = rng.next();
    D(both->raw)[k]       = make(w);
    D4(both->arr)[k]      = make(w);
    VH_CHECK(same(both->raw[k], w) && same(both->arr[k], w), "span.array", "a write did not arrive");
    VH_CHECK((std::is_same<typename C::value_type, Cell>::value && std::is_same<typename C::element_type, const Cell>::value), "span.types", "types");
    vh::op("arrays");
    vh::feel(v[0]);
    vh::nontrivial();
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("extents", 20, extents<Pf>);
    vh::suite("chains", 40, chains<Pf>);
    vh::suite("arrays", 10, arrays<Pf>);
#if __cplusplus >= 202002L
    vh::suite("known.reference_extents", 20, extents<Std>);
    vh::suite("known.reference_chains", 40, chains<Std>);
    vh::suite("known.reference_arrays", 10, arrays<Std>);
#endif
    return vh::finish();
}

// Arrays built from ranges of other types, through iterators which are not pointers: every element must be the converted
// value of its place, whatever the sizes of the types involved.
#include "vh.hpp"
#include <cetl/variable_length_array.hpp>
#include <algorithm>
#include <cstdint>
#include <deque>
#include <iterator>
#include <string>
#include <vector>
using vh::Rng;

/// Random access iterator which computes its values and returns them by value.
template <typename U>
struct Computed
{
    using iterator_category = std::random_access_iterator_tag;
    using value_type        = U;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const U*;
    using reference         = U;
    const U*       base = nullptr;
    std::ptrdiff_t at   = 0;
    Computed()          = default;
    Computed(const U* b, std::ptrdiff_t k)
        : base(b)
        , at(k)
    {
    }
    U              operator*() const
    {
        return base[at];
    }
    U operator[](std::ptrdiff_t k) const
    {
        return base[at + k];
    }
    Computed& operator+=(std::ptrdiff_t k)
    {
        at += k;
        return *this;
    }
    Computed& operator-=(std::ptrdiff_t k)
    {
        at -= k;
        return *this;
    }
    Computed& operator++()
    {
        ++at;
        return *this;
    }
    Computed operator++(int)
    {
        return Computed{base, at++};
    }
    Computed& operator--()
    {
        --at;
        return *this;
    }
    Computed operator--(int)
    {
        return Computed{base, at--};
    }
    friend Computed operator+(const Computed& a, std::ptrdiff_t k)
    {
        return Computed{a.base, a.at + k};
    }
    friend Computed operator+(std::ptrdiff_t k, const Computed& a)
    {
        return Computed{a.base, a.at + k};
    }
    friend Computed operator-(const Computed& a, std::ptrdiff_t k)
    {
        return Computed{a.base, a.at - k};
    }
    friend std::ptrdiff_t operator-(const Computed& a, const Computed& b)
    {
        return a.at - b.at;
    }
#define COMPARE(op)                                              \
    friend bool operator op(const Computed& a, const Computed& b) \
    {                                                            \
        return a.at op b.at;                                     \
    }
    COMPARE(==)
    COMPARE(!=)
    COMPARE(<)
    COMPARE(>)
    COMPARE(<=)
    COMPARE(>=)
#undef COMPARE
};

/// Same size and alignment as the number it stands for, but another value.
struct Minus
{
    std::int32_t v;
    explicit operator std::int32_t() const
    {
        return -v;
    }
};
/// Constructed from numbers, holding twice the number.
struct Twice
{
    std::int32_t v;
    Twice(std::int32_t x)
        : v(2 * x)
    {
    }
    friend bool operator==(const Twice& a, const Twice& b)
    {
        return a.v == b.v;
    }
};

template <typename E>
using Store = std::conditional_t<std::is_same<E, bool>::value, unsigned char, E>;
template <typename E>
using A = vh::RecAlloc<Store<E>, false, false, false>;
template <typename E>
using V = cetl::VariableLengthArray<E, A<E>>;

template <typename E, typename It, typename U>
void build(Rng& g, const char* how, It first, It last, const std::vector<U>& from)
{
    vh::Heap heap;
    vh::op("%s n=%zu", how, from.size());
    vh::feel(from.size());
    {
        const bool bounded = g.chance(1, 2);
        const auto make    = [&] {
            return bounded ? V<E>(first, last, from.size() + g.below(3), A<E>(&heap)) : V<E>(first, last, A<E>(&heap));
        };
        V<E>              a = make();
        const std::size_t n = from.size();
        VH_CHECK(a.size() == n, "ranges.size", "%zu elements from a range of %zu", a.size(), n);
        for (std::size_t k = 0; k < n; ++k)
        {
            VH_CHECK(a[k] == static_cast<E>(from[k]), "ranges.value", "element %zu of %zu is not that of the range", k, n);
        }
        vh::nontrivial();
    }
    heap.check_empty("end of case");
}

template <typename E, typename U>
void all(Rng& g, const std::vector<U>& from)
{
    switch (g.below(5))
    {
    case 0:
        build<E>(g, "pointers", from.data(), from.data() + from.size(), from);
        break;
    case 1:
        build<E>(g, "vector", from.begin(), from.end(), from);
        break;
    case 2:
    {
        const std::deque<U> d(from.begin(), from.end());
        build<E>(g, "deque", d.begin(), d.end(), from);
        break;
    }
    case 3:
        build<E>(g, "reverse", from.rbegin(), from.rend(), std::vector<U>(from.rbegin(), from.rend()));
        break;
    default:
        build<E>(g,
                 "computed",
                 Computed<U>{from.data(), 0},
                 Computed<U>{from.data(), static_cast<std::ptrdiff_t>(from.size())},
                 from);
        break;
    }
}

template <typename U, typename F>
std::vector<U> some(Rng& g, F f)
{
    std::vector<U> v;
    for (std::size_t n = g.chance(1, 8) ? g.below(400) : g.below(24); n > 0; --n)
    {
        const int x = static_cast<int>(g.range(-100, 100));
        vh::feel(static_cast<std::size_t>(x + 100));
        v.push_back(f(x));
    }
    return v;
}

void ranges(Rng& g)
{
    const auto kind = g.below(10);
    vh::feel(kind);
    switch (kind)
    {
    case 0:
        all<std::int32_t>(g, some<float>(g, [](int x) { return static_cast<float>(x); }));
        break;
    case 1:
        all<float>(g, some<std::int32_t>(g, [](int x) { return x; }));
        break;
    case 2:
        all<std::int64_t>(g, some<double>(g, [](int x) { return static_cast<double>(x); }));
        break;
    case 3:
        all<std::int32_t>(g, some<std::int8_t>(g, [](int x) { return static_cast<std::int8_t>(x); }));
        break;
    case 4:
        all<std::int8_t>(g, some<std::int8_t>(g, [](int x) { return static_cast<std::int8_t>(x); }));
        break;
    case 5:
        all<std::string>(g, some<const char*>(g, [](int x) { return x < 0 ? "below" : "a text which does not fit inside the string"; }));
        break;
    case 6:
        all<std::string>(g, some<std::string>(g, [](int x) { return std::string(static_cast<std::size_t>(x + 100), 'y'); }));
        break;
    case 7:
        all<std::int32_t>(g, some<Minus>(g, [](int x) { return Minus{x}; }));
        break;
    case 8:
        all<Twice>(g, some<std::int32_t>(g, [](int x) { return x; }));
        break;
    default:
        all<std::int64_t>(g, some<std::int64_t>(g, [](int x) { return std::int64_t(x) * 0x10000000001; }));
        break;
    }
}

/// Iterators over bits used in the way of algorithms which keep them in variables.
void iterators(Rng& g)
{
    using B = V<bool>;
    vh::Heap heap;
    {
        B                 a{A<bool>(&heap)};
        std::vector<bool> m;
        for (std::size_t n = g.below(40); n > 0; --n)
        {
            const bool b = g.chance(1, 2);
            vh::feel(b ? 1 : 0);
            a.push_back(b);
            m.push_back(b);
        }
        vh::op("iterators n=%zu", m.size());
        B::iterator       i;
        B::const_iterator c;
        i = a.begin();
        c = static_cast<const B&>(a).begin();
        for (std::size_t k = 0; k < m.size(); ++k)
        {
            VH_CHECK(static_cast<bool>(*i) == m[k] && static_cast<bool>(*c) == m[k], "ranges.iterator", "bit %zu differs", k);
            B::iterator before = i++;
            *before            = !m[k];
            VH_CHECK(static_cast<bool>(a[k]) != m[k], "ranges.iterator", "bit %zu did not change", k);
            *before = m[k];
            ++c;
        }
        VH_CHECK(i == a.end() && c == static_cast<const B&>(a).end(), "ranges.iterator", "the end was not reached");
        if (!m.empty())
        {
            const auto x = static_cast<std::ptrdiff_t>(g.below(m.size()));
            VH_CHECK(std::count(a.begin(), a.end(), true) == std::count(m.begin(), m.end(), true), "ranges.count", "other bits set");
            std::fill(a.begin() + x, a.end(), x % 2 == 0);
            std::fill(m.begin() + x, m.end(), x % 2 == 0);
            for (std::size_t k = 0; k < m.size(); ++k)
            {
                VH_CHECK(static_cast<bool>(a[k]) == m[k], "ranges.fill", "bit %zu differs", k);
            }
        }
        vh::nontrivial();
    }
    heap.check_empty("end of case");
}

void bits(Rng& g)
{
    vh::feel(77);
    if (g.chance(1, 4))
    {
        iterators(g);
        return;
    }
    if (g.chance(1, 2))
    {
        all<bool>(g, some<int>(g, [](int x) { return x % 2 == 0 ? 0 : x; }));
    }
    else
    {
        all<bool>(g, some<unsigned char>(g, [](int x) { return static_cast<unsigned char>(x > 0 ? x : 0); }));
    }
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("ranges", 100, ranges);
    vh::suite("bitranges", 100, bits);
    return vh::finish();
}

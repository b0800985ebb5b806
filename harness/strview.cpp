// Monitors of cetl::pf17::basic_string_view: every query, comparison, search, substring, copy, removal and formatted
// output is compared with std::basic_string over the same characters. Each view lies in a heap block of exactly its
// size, so that AddressSanitizer sees any character read outside of it.
// -DCHARS=0 char, 1 wchar_t, 2 char16_t, 3 char with case-insensitive traits, 4 char with reversed order
#include "vh.hpp"

#include "cetl/pf17/string_view.hpp"

#include <algorithm>
#include <cstring>
#include <iomanip>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#if __cplusplus >= 201703L
#    include <string_view>
#endif

#ifndef CHARS
#    define CHARS 0
#endif

using vh::Rng;

/// Upper and lower case are the same character.
struct CaseTraits : std::char_traits<char>
{
    static char low(char c)
    {
        return (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c;
    }
    static bool eq(char a, char b)
    {
        return low(a) == low(b);
    }
    static bool lt(char a, char b)
    {
        return static_cast<unsigned char>(low(a)) < static_cast<unsigned char>(low(b));
    }
    static int compare(const char* a, const char* b, std::size_t n)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            if (lt(a[i], b[i]))
            {
                return -1;
            }
            if (lt(b[i], a[i]))
            {
                return 1;
            }
        }
        return 0;
    }
    static const char* find(const char* s, std::size_t n, const char& c)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            if (eq(s[i], c))
            {
                return s + i;
            }
        }
        return nullptr;
    }
};

/// The order of characters is reversed, and texts end at '$'.
struct ReverseTraits : std::char_traits<char>
{
    static bool lt(char a, char b)
    {
        return static_cast<unsigned char>(b) < static_cast<unsigned char>(a);
    }
    static int compare(const char* a, const char* b, std::size_t n)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            if (lt(a[i], b[i]))
            {
                return -5;
            }
            if (lt(b[i], a[i]))
            {
                return 5;
            }
        }
        return 0;
    }
    static std::size_t length(const char* s)
    {
        std::size_t n = 0;
        while (s[n] != '$')
        {
            ++n;
        }
        return n;
    }
};

#if CHARS == 0
using Ch     = char;
using Tr     = std::char_traits<char>;
#elif CHARS == 1
using Ch = wchar_t;
using Tr = std::char_traits<wchar_t>;
#elif CHARS == 2
using Ch = char16_t;
using Tr = std::char_traits<char16_t>;
#elif CHARS == 3
using Ch = char;
using Tr = CaseTraits;
#else
using Ch = char;
using Tr = ReverseTraits;
#endif
#if CHARS == 4
static const Ch END = static_cast<Ch>('$');
#else
static const Ch END = Ch(0);
#endif
using String = std::basic_string<Ch, Tr>;

struct Pf
{
    using View                         = cetl::pf17::basic_string_view<Ch, Tr>;
    static constexpr bool        clamp = true;
};
#if __cplusplus >= 201703L
struct Std
{
    using View                         = std::basic_string_view<Ch, Tr>;
    static constexpr bool        clamp = false;
};
#endif

static int sign(int x)
{
    return (x > 0) - (x < 0);
}

/// A text in a heap block of exactly its size.
struct Text
{
    std::unique_ptr<Ch[]> mem;
    std::size_t           n    = 0;
    bool                  null = false;

    explicit Text(const String& s)
        : mem(new Ch[s.size() == 0 ? 1 : s.size()])
        , n(s.size())
    {
        std::copy(s.begin(), s.end(), mem.get());
    }
    Text() : null(true) {}
    const Ch* at() const
    {
        return mem.get();
    }
    template <typename V>
    V view() const
    {
        return null ? V() : V(mem.get(), n);
    }
};

static String random_text(Rng& rng, std::size_t max)
{
    const std::size_t n = rng.below(max + 1);
    String            s;
    static const char few[]  = {'a', 'b', 'A', '\0', 'z'};
    const unsigned    kind   = static_cast<unsigned>(rng.below(4));
    for (std::size_t i = 0; i < n; ++i)
    {
        switch (kind)
        {
        case 0: s.push_back(static_cast<Ch>(few[rng.below(2)])); break;
        case 1: s.push_back(static_cast<Ch>(few[rng.below(5)])); break;
        case 2: s.push_back(static_cast<Ch>(rng.below(256))); break;
        default: s.push_back(static_cast<Ch>(rng.next())); break;
        }
    }
    return s;
}

/// Another text, likely to share something with the given one.
static String related(Rng& rng, const String& s)
{
    String t;
    switch (rng.below(6))
    {
    case 0: t = s; break;
    case 1:
        if (!s.empty())
        {
            const std::size_t p = rng.below(s.size());
            t                   = s.substr(p, rng.below(s.size() - p + 1));
        }
        break;
    case 2:
        t = s;
        if (!t.empty())
        {
            t[rng.below(t.size())] = static_cast<Ch>(rng.next());
        }
        break;
    case 3: t = s + random_text(rng, 2); break;
    case 4:
        if (!s.empty())
        {
            t = s.substr(rng.below(s.size()));
            if (!t.empty() && rng.chance(1, 2))
            {
                t[t.size() - 1] = static_cast<Ch>(t[t.size() - 1] ^ 1);
            }
        }
        break;
    default: t = random_text(rng, 6); break;
    }
    return t;
}

template <typename V>
void require_view(const V& v, const Ch* data, std::size_t n, const char* what)
{
    VH_CHECK(v.size() == n && v.length() == n && v.empty() == (n == 0), "strview.size", "%s: %zu characters for %zu", what,
             v.size(), n);
    VH_CHECK(v.data() == data, "strview.data", "%s: wrong start", what);
    VH_CHECK(v.begin() == data && v.cbegin() == data && static_cast<std::size_t>(v.end() - v.begin()) == n && v.cend() == v.end(),
             "strview.iterators", "%s: wrong range", what);
    std::size_t i = 0;
    for (const Ch& c : v)
    {
        VH_CHECK(&c == data + i && &v[i] == &c && &v.at(i) == &c, "strview.element", "%s: element %zu is elsewhere", what, i);
        ++i;
    }
    VH_CHECK(i == n, "strview.iterators", "%s: %zu elements for %zu", what, i, n);
    if (n > 0)
    {
        VH_CHECK(&v.front() == data && &v.back() == data + (n - 1), "strview.ends", "%s: first or last element", what);
    }
    vh::count("views", 1);
}

template <typename F>
void require_out_of_range(Rng& rng, F&& f, const char* what)
{
#if VH_EXC
    (void) rng;
    bool thrown = false;
    try
    {
        f();
    }
    catch (const std::out_of_range&)
    {
        thrown = true;
    }
    VH_CHECK(thrown, "strview.out-of-range", "%s beyond the end is accepted", what);
    vh::count("refusals", 1);
#else
    if (rng.chance(1, 300))
    {
        VH_CHECK(vh::terminates(f), "strview.out-of-range", "%s beyond the end is accepted", what);
        vh::count("refusals", 1);
    }
#endif
}

static std::size_t random_pos(Rng& rng, std::size_t n)
{
    switch (rng.below(8))
    {
    case 0: return n;
    case 1: return n + 1;
    case 2: return static_cast<std::size_t>(-1);
    case 3: return n + rng.below(5);
    case 4: return static_cast<std::size_t>(-1) - rng.below(4);
    default: return rng.below(n + 1);
    }
}

template <typename I>
void queries(Rng& rng)
{
    using V = typename I::View;
    const bool   null = rng.chance(1, 12);
    const String s    = null ? String() : random_text(rng, rng.chance(1, 50) ? 700 : rng.chance(1, 10) ? 70 : 9);
    const Text   a    = null ? Text() : Text(s);
    const V      v    = a.template view<V>();
    vh::op("text %zu %d", s.size(), int(null));
    std::uint64_t h = vh::mix(s.size() * 2 + null);
    for (const Ch c : s)
    {
        h = vh::mix(h ^ static_cast<std::uint64_t>(c));
    }
    vh::feel(h);
    if (s.size() > 1)
    {
        vh::nontrivial();
    }
    require_view(v, a.at(), s.size(), "a view");
    VH_CHECK(V::npos == String::npos, "strview.npos", "the position of nothing");
    // copies
    V w(v);
    require_view(w, a.at(), s.size(), "a copy");
    w = V();
    require_view(w, nullptr, 0, "a default view");
    w = v;
    require_view(w, a.at(), s.size(), "an assigned view");
    V u;
    u.swap(w);
    require_view(w, nullptr, 0, "a swapped view");
    require_view(u, a.at(), s.size(), "a swapped view");
    {
        using std::swap;
        swap(u, w);
        require_view(u, nullptr, 0, "a view swapped by the free function");
        require_view(w, a.at(), s.size(), "a view swapped by the free function");
        swap(u, w);
    }
    VH_CHECK(u.max_size() == w.max_size() && u.max_size() >= s.size() && u.max_size() >= 1000000U && u.max_size() <= SIZE_MAX / 2 / sizeof(typename V::value_type),
             "string_view.max_size",
             "%zu",
             static_cast<std::size_t>(u.max_size()));
    {
        // from a text which ends at the terminator, and from a string
        String            ended(s);
        const std::size_t stop = std::min(ended.find(END), ended.size());
        ended.push_back(END);
        const Text z(ended);
        const V    zv(z.at());
        require_view(zv, z.at(), stop, "a view of a terminated text");
        const V sv(s);
        require_view(sv, s.data(), s.size(), "a view of a string");
    }
    for (int k = 0; k < 12; ++k)
    {
        const std::size_t pos   = random_pos(rng, s.size());
        const std::size_t count = random_pos(rng, s.size());
        vh::op("pos %zu count %zu", pos, count);
        if (pos <= s.size())
        {
            const std::size_t r = std::min(count, s.size() - pos);
            require_view(v.substr(pos, count), a.at() == nullptr ? nullptr : a.at() + pos, r, "a substring");
            require_view(v.substr(pos), a.at() == nullptr ? nullptr : a.at() + pos, s.size() - pos, "a substring to the end");
            const std::unique_ptr<Ch[]> out(new Ch[r + 1]);
            std::fill_n(out.get(), r + 1, static_cast<Ch>(77));
            const std::size_t copied = v.copy(out.get(), count, pos);
            VH_CHECK(copied == r, "strview.copy", "copied %zu characters instead of %zu", copied, r);
            VH_CHECK(std::equal(out.get(), out.get() + r, s.begin() + static_cast<std::ptrdiff_t>(pos)) && out[r] == static_cast<Ch>(77), "strview.copy", "wrong characters were copied");
            if (pos == 0)
            {
                std::fill_n(out.get(), r, static_cast<Ch>(77));
                VH_CHECK(v.copy(out.get(), r) == r && std::equal(out.get(), out.get() + r, s.begin()), "strview.copy", "wrong characters were copied from the start");
            }
            V p(v);
            p.remove_prefix(pos);
            require_view(p, a.at() == nullptr ? nullptr : a.at() + pos, s.size() - pos, "a view without prefix");
            V q(v);
            q.remove_suffix(pos);
            require_view(q, a.at(), s.size() - pos, "a view without suffix");
            q.remove_prefix(q.size() / 2);
            require_view(q, a.at() == nullptr ? nullptr : a.at() + (s.size() - pos) / 2, s.size() - pos - (s.size() - pos) / 2, "a view without prefix and suffix");
        }
        else
        {
            Ch out[2] = {};
            require_out_of_range(rng, [&] { (void) v.substr(pos, count); }, "substr");
            require_out_of_range(rng, [&] { (void) v.copy(out, 1, pos); }, "copy");
        }
        if (pos >= s.size())
        {
            require_out_of_range(rng, [&] { (void) v.at(pos); }, "at");
        }
    }
}

template <typename I>
void relations(Rng& rng)
{
    using V = typename I::View;
    const String s  = random_text(rng, rng.chance(1, 40) ? 600 : rng.chance(1, 10) ? 50 : 9);
    const String t  = related(rng, s);
    const Text   a  = s.empty() && rng.chance(1, 2) ? Text() : Text(s);
    const Text   b  = t.empty() && rng.chance(1, 2) ? Text() : Text(t);
    const V      x  = a.template view<V>();
    const V      y  = b.template view<V>();
    const int    c  = sign(s.compare(t));
    std::uint64_t h = vh::mix(s.size());
    for (const Ch ch : s + t)
    {
        h = vh::mix(h ^ static_cast<std::uint64_t>(ch));
    }
    vh::feel(h);
    vh::op("compare %zu %zu", s.size(), t.size());
    if (!s.empty() && !t.empty())
    {
        vh::nontrivial();
    }
    VH_CHECK(sign(x.compare(y)) == c, "strview.compare", "compare gives %d", x.compare(y));
    VH_CHECK(sign(y.compare(x)) == -c, "strview.compare", "the reverse comparison gives %d", y.compare(x));
    VH_CHECK((x == y) == (c == 0) && (x != y) == (c != 0), "strview.equal", "(in)equality");
    VH_CHECK((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0), "strview.order", "order");
    VH_CHECK(x == x && !(x < x) && x.compare(x) == 0, "strview.equal", "a view and itself");
    // with strings and terminated texts on either side
    VH_CHECK((x == V(t)) == (c == 0) && (s == y) == (c == 0) && (s < y) == (c < 0) && (x >= t) == (c >= 0), "strview.mixed", "comparison with a string");
    String z(t);
    const int d = sign(s.compare(t.substr(0, std::min(t.find(END), t.size()))));
    z.push_back(END);
    VH_CHECK((x == z.c_str()) == (d == 0) && (z.c_str() > x) == (d < 0) && (x < z.c_str()) == (d < 0), "strview.mixed", "comparison with a terminated text");
    // parts of the same memory
    const std::size_t i = rng.below(s.size() + 1);
    const std::size_t j = rng.below(s.size() + 1);
    VH_CHECK(sign(x.substr(i).compare(x.substr(j))) == sign(s.substr(i).compare(s.substr(j))), "strview.compare", "two parts of a text");
    vh::count("comparisons", 12);
}

template <typename I>
void searches(Rng& rng)
{
    using V = typename I::View;
    const String s = random_text(rng, rng.chance(1, 60) ? 700 : rng.chance(1, 12) ? 60 : 8);
    const Text   a = s.empty() && rng.chance(1, 2) ? Text() : Text(s);
    const V      v = a.template view<V>();
    std::uint64_t h = vh::mix(s.size());
    for (const Ch ch : s)
    {
        h = vh::mix(h ^ static_cast<std::uint64_t>(ch));
    }
    for (int k = 0; k < 10; ++k)
    {
        String t = related(rng, s);
        if (rng.chance(1, 8))
        {
            t.clear();
        }
        const Text b = t.empty() && rng.chance(1, 2) ? Text() : Text(t);
        const V    w = b.template view<V>();
        const Ch   c = (!s.empty() && rng.chance(1, 2)) ? s[rng.below(s.size())] : static_cast<Ch>(rng.chance(1, 2) ? 'A' : rng.next());
        h = vh::mix(h ^ static_cast<std::uint64_t>(c) ^ t.size());
        vh::op("find %zu in %zu", t.size(), s.size());
        for (std::size_t p = 0; p <= s.size() + 3; ++p)
        {
            const std::size_t pos = p < s.size() + 2 ? p : random_pos(rng, s.size());
            VH_CHECK(v.find(w, pos) == s.find(t, pos), "strview.find", "a text of %zu in %zu from %zu is found at %zu, not %zu",
                     t.size(), s.size(), pos, v.find(w, pos), s.find(t, pos));
            VH_CHECK(v.find(c, pos) == s.find(c, pos), "strview.find-char", "a character in %zu from %zu is found at %zu, not %zu",
                     s.size(), pos, v.find(c, pos), s.find(c, pos));
        }
        VH_CHECK(v.find(w) == s.find(t) && v.find(c) == s.find(c), "strview.find", "a search from the start");
        VH_CHECK(v.find(t) == s.find(t), "strview.find", "a search for a string");
        vh::count("searches", 2 * (s.size() + 4));
    }
    vh::feel(h);
    if (s.size() > 1)
    {
        vh::nontrivial();
    }
}

#if CHARS != 2
/// A stream buffer with room for a limited number of characters.
class Limited : public std::basic_streambuf<Ch, Tr>
{
public:
    explicit Limited(std::size_t n) : left_(n) {}
    std::vector<Ch> out;

protected:
    typename Tr::int_type overflow(typename Tr::int_type c) override
    {
        if (left_ == 0 || Tr::eq_int_type(c, Tr::eof()))
        {
            return Tr::eof();
        }
        --left_;
        out.push_back(Tr::to_char_type(c));
        return c;
    }
    std::streamsize xsputn(const Ch* s, std::streamsize n) override
    {
        std::streamsize k = 0;
        for (; k < n && left_ > 0; ++k, --left_)
        {
            out.push_back(s[k]);
        }
        return k;
    }

private:
    std::size_t left_;
};

template <typename I>
void output(Rng& rng)
{
    using V           = typename I::View;
    using Flags       = std::ios_base::fmtflags;
    const String s    = random_text(rng, rng.chance(1, 20) ? 300 : 9);
    const Text   a    = s.empty() && rng.chance(1, 2) ? Text() : Text(s);
    const V      v    = a.template view<V>();
    const bool   full = rng.chance(1, 6);
    Limited      bx(full ? rng.below(12) : 1000);
    Limited      by(bx);
    std::basic_ostream<Ch, Tr> x(&bx);
    std::basic_ostream<Ch, Tr> y(&by);
    static const Flags ADJUST[] = {Flags{}, std::ios_base::left, std::ios_base::right, std::ios_base::internal,
                                   std::ios_base::left | std::ios_base::right, std::ios_base::left | std::ios_base::internal};
    const Flags             f     = ADJUST[rng.below(6)];
    const std::streamsize   width = static_cast<std::streamsize>(rng.below(14));
    const Ch                fill  = static_cast<Ch>(rng.chance(1, 2) ? '*' : 32 + rng.below(90));
    const bool              bad   = rng.chance(1, 12);
    const bool              loud  = VH_EXC && rng.chance(1, 8);
    for (auto* os : {&x, &y})
    {
        os->setf(f, std::ios_base::adjustfield);
        os->width(width);
        os->fill(fill);
        if (bad)
        {
            os->setstate(std::ios_base::failbit);
        }
    }
    vh::op("output %zu width %d flags %x", s.size(), int(width), unsigned(f));
    vh::feel(vh::mix(s.size() * 64 + static_cast<std::uint64_t>(width)) ^ static_cast<std::uint64_t>(f) * 8 + bad * 4 + full * 2 + loud);
    vh::nontrivial();
    int threw[2] = {0, 0};
#if VH_EXC
    if (loud && !bad)
    {
        x.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        y.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    }
    try
    {
        auto& r = (x << v);
        VH_CHECK(&r == &x, "strview.output", "the stream is not returned");
    }
    catch (const std::ios_base::failure&)
    {
        threw[0] = 1;
    }
    try
    {
        y << s;
    }
    catch (const std::ios_base::failure&)
    {
        threw[1] = 1;
    }
#else
    auto& r = (x << v);
    VH_CHECK(&r == &x, "strview.output", "the stream is not returned");
    y << s;
#endif
    VH_CHECK(bx.out == by.out, "strview.output", "%zu characters were written instead of %zu, or other ones", bx.out.size(),
             by.out.size());
    // which bits of the state are set, and what becomes of the width, when the buffer fails is left open by the standard
    VH_CHECK((!bad && y.fail()) || x.width() == y.width(), "strview.output-width", "the width is %d afterwards, not %d", int(x.width()), int(y.width()));
    VH_CHECK(x.fail() == y.fail() && threw[0] == threw[1], "strview.output-state", "the state is %d afterwards, not %d",
             int(x.rdstate()), int(y.rdstate()));
    VH_CHECK(x.flags() == y.flags() && x.fill() == y.fill(), "strview.output-flags", "flags or fill were changed");
    vh::count("outputs", 1);
}
#endif

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("queries", 40, queries<Pf>);
    vh::suite("relations", 40, relations<Pf>);
    vh::suite("searches", 40, searches<Pf>);
#if CHARS != 2
    vh::suite("output", 40, output<Pf>);
#endif
#if __cplusplus >= 201703L
    vh::suite("known.reference_queries", 40, queries<Std>);
    vh::suite("known.reference_relations", 40, relations<Std>);
    vh::suite("known.reference_searches", 40, searches<Std>);
#    if CHARS != 2
    vh::suite("known.reference_output", 40, output<Std>);
#    endif
#endif
    return vh::finish();
}

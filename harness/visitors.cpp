// Overloaded visitors with state: visitors handed over are moved and never copied, calls reach the best overload of all
// visitors, and its state, through visits of one and of two variants.
#include <cetl/visit_helpers.hpp>
#include "vh.hpp"
#include <cetl/pf17/variant.hpp>
#include <memory>
#include <string>
#if __cplusplus >= 201703L
#    include <variant>
#endif
using vh::Rng;

static int g_copies = 0;
static int g_alive  = 0;
/// A part of a visitor which counts its calls and can be seen being copied.
struct State
{
    std::uint64_t calls = 0, sum = 0;
    int           mark;
    explicit State(int m)
        : mark(m)
    {
        ++g_alive;
    }
    State(const State& o)
        : calls(o.calls)
        , sum(o.sum)
        , mark(o.mark)
    {
        ++g_copies;
        ++g_alive;
    }
    State(State&& o) noexcept
        : calls(o.calls)
        , sum(o.sum)
        , mark(o.mark)
    {
        o.mark = -1;
        ++g_alive;
    }
    State& operator=(const State&) = delete;
    ~State()
    {
        --g_alive;
    }
    int hit(std::uint64_t x)
    {
        ++calls;
        sum += x;
        return mark;
    }
};
struct OnInt : State
{
    using State::State;
    int operator()(int x)
    {
        return hit(static_cast<std::uint64_t>(x));
    }
};
struct OnText : State
{
    using State::State;
    int operator()(const std::string& s)
    {
        return hit(s.size());
    }
};
struct OnDouble : State
{
    using State::State;
    int operator()(double d)
    {
        return hit(static_cast<std::uint64_t>(d));
    }
};
struct OnRest : State
{
    using State::State;
    template <typename T>
    int operator()(const T&)
    {
        return hit(1);
    }
    template <typename T, typename U>
    int operator()(const T&, const U&)
    {
        return hit(2);
    }
};
struct OnTwo : State
{
    using State::State;
    int operator()(int a, const std::string& b)
    {
        return hit(static_cast<std::uint64_t>(a) + b.size());
    }
};
/// Cannot be copied at all.
struct OnChar
{
    std::unique_ptr<int> mark;
    int operator()(char)
    {
        return *mark;
    }
};
static_assert(!std::is_copy_constructible<OnChar>::value, "");

template <bool Std>
struct Lib
{
    template <typename... T>
    using variant = cetl::pf17::variant<T...>;
    template <typename... A>
    static decltype(auto) visit(A&&... a)
    {
        return cetl::pf17::visit(std::forward<A>(a)...);
    }
};
#if __cplusplus >= 201703L
template <>
struct Lib<true>
{
    template <typename... T>
    using variant = std::variant<T...>;
    template <typename... A>
    static decltype(auto) visit(A&&... a)
    {
        return std::visit(std::forward<A>(a)...);
    }
};
#endif

/// Marks 1 to 6 in the order int, text, double, rest, two, char.
template <typename L, typename O>
void drive(Rng& g, O& o, bool one_double, const char* how)
{
    using V = typename L::template variant<int, std::string, double, char, long>;
    VH_CHECK(g_copies == 0, "visitors.copied", "%s: a visitor was copied %d times", how, g_copies);
    std::uint64_t calls[7] = {}, sum[7] = {};
    const int     n = static_cast<int>(g.range(1, 12));
    for (int k = 0; k < n; ++k)
    {
        const auto which = g.below(5);
        const int  x     = static_cast<int>(g.below(1000));
        V          v;
        int        want = 0;
        std::uint64_t add = 0;
        switch (which)
        {
        case 0:
            v    = x;
            want = 1;
            add  = static_cast<std::uint64_t>(x);
            break;
        case 1:
            v    = std::string(static_cast<std::size_t>(x % 50), 'q');
            want = 2;
            add  = static_cast<std::uint64_t>(x % 50);
            break;
        case 2:
            v    = static_cast<double>(x);
            want = one_double ? 3 : 4;
            add  = one_double ? static_cast<std::uint64_t>(x) : 1;
            break;
        case 3:
            v    = 'c';
            want = 6;
            break;
        default:
            v    = static_cast<long>(x);
            want = 4;
            add  = 1;
            break;
        }
        vh::feel(which);
        int got;
        if (g.chance(1, 4))
        {
            V          w     = std::string(static_cast<std::size_t>(x % 9), 'r');
            const bool other = g.chance(1, 2);
            if (other)
            {
                w = 7;
            }
            const bool exact = which == 0 && !other;
            want             = exact ? 5 : 4;
            add              = exact ? static_cast<std::uint64_t>(x + x % 9) : 2;
            vh::op("%s: visit two, %zu and %s", how, static_cast<std::size_t>(which), other ? "int" : "text");
            got = g.chance(1, 2) ? L::visit(o, v, w) : L::visit(o, static_cast<const V&>(v), std::move(w));
            vh::nontrivial();
        }
        else
        {
            vh::op("%s: visit %zu", how, static_cast<std::size_t>(which));
            got = g.chance(1, 2) ? L::visit(o, v) : L::visit(o, static_cast<const V&>(v));
        }
        VH_CHECK(got == want, "visitors.choice", "%s: alternative %zu went to visitor %d, %d expected", how, static_cast<std::size_t>(which), got, want);
        ++calls[want];
        sum[want] += add;
    }
    const auto see = [&](const State& s, int m) {
        VH_CHECK(s.mark == m && s.calls == calls[m] && s.sum == sum[m],
                 "visitors.state",
                 "%s: visitor %d has mark %d, %llu calls",
                 how,
                 m,
                 s.mark,
                 static_cast<unsigned long long>(s.calls));
    };
    see(static_cast<const OnInt&>(o), 1);
    see(static_cast<const OnText&>(o), 2);
    see(static_cast<const OnRest&>(o), 4);
    see(static_cast<const OnTwo&>(o), 5);
    VH_CHECK(g_copies == 0, "visitors.copied", "%s: a visit copied a visitor %d times", how, g_copies);
}

OnChar on_char()
{
    return OnChar{std::unique_ptr<int>(new int(6))};
}

template <typename L>
void visitors(Rng& g)
{
    g_copies = 0;
    g_alive  = 0;
    const auto order = g.below(4);
    vh::feel(order);
    switch (order)
    {
    case 0:
    {
        auto o = cetl::make_overloaded(OnInt(1), OnText(2), OnDouble(3), OnRest(4), OnTwo(5), on_char());
        drive<L>(g, o, true, "in order");
        break;
    }
    case 1:
    {
        auto o = cetl::make_overloaded(on_char(), OnTwo(5), OnRest(4), OnText(2), OnInt(1));
        drive<L>(g, o, false, "reversed");
        break;
    }
    case 2:
    {
        OnRest rest(4);
        OnInt  on_int(1);
        auto   o = cetl::make_overloaded(OnTwo(5), std::move(rest), on_char(), OnDouble(3), std::move(on_int), OnText(2));
        VH_CHECK(rest.mark == -1 && on_int.mark == -1, "visitors.left", "a visitor handed over was not moved");
        auto p = std::move(o);
        vh::nontrivial();
        drive<L>(g, p, true, "moved");
        break;
    }
    default:
    {
        auto o = cetl::make_overloaded(OnText(2), on_char(), OnInt(1), OnTwo(5), OnRest(4));
        auto p = std::move(o);
        drive<L>(g, p, false, "rest last");
        break;
    }
    }
    VH_CHECK(g_alive == 0, "visitors.leak", "%d visitors are left", g_alive);
}

/// A single visitor, copies and reference results.
void single(Rng& g)
{
    g_copies     = 0;
    g_alive      = 0;
    const int  x = static_cast<int>(g.below(1000));
    {
        vh::op("single x=%d", x);
        vh::feel(static_cast<std::size_t>(x));
        vh::nontrivial();
        auto o = cetl::make_overloaded(OnInt(x + 1));
        auto c = o;
        VH_CHECK(g_copies == 1, "visitors.copied", "a copy made %d copies", g_copies);
        VH_CHECK(c(3) == x + 1 && c.calls == 1 && o.calls == 0, "visitors.state", "a copy shares its state");
        auto m = std::move(o);
        VH_CHECK(g_copies == 1 && m(2) == x + 1 && m.sum == 2, "visitors.state", "a moved visitor lost its state");
    }
    {
        int        a = 0, b = 0;
        auto       o = cetl::make_overloaded([&a](int) -> int& { return a; }, [&b](const std::string&) -> int& { return b; });
        cetl::pf17::variant<int, std::string> v(5);
        cetl::pf17::visit(o, v) = x;
        v                       = std::string("t");
        cetl::pf17::visit(o, v) = x + 1;
        VH_CHECK(a == x && b == x + 1, "visitors.reference", "results are not references to the originals");
    }
    VH_CHECK(g_alive == 0, "visitors.leak", "%d visitors are left", g_alive);
}

int main(int argc, char** argv)
{
    vh::init(argc, argv);
    vh::suite("visitors", 100, visitors<Lib<false>>);
    vh::suite("single", 10, single);
#ifdef REFERENCE
    vh::suite("known.reference_visitors", 100, visitors<Lib<true>>);
#endif
    return vh::finish();
}

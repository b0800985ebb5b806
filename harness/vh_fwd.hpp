// Value categories: what a wrapper hands to the constructor or assignment of the value it holds.
#pragma once
#include "vh.hpp"

namespace vfwd
{
/// A constructor argument that knows whether it has been moved from.
struct Arg
{
    int  v;
    bool gone;
    explicit Arg(int x)
        : v(x)
        , gone(false)
    {
    }
    Arg(const Arg& o)
        : v(o.v)
        , gone(o.gone)
    {
    }
    Arg(Arg&& o) noexcept
        : v(o.v)
        , gone(o.gone)
    {
        o.gone = true;
    }
    Arg& operator=(const Arg& o) = default;
};
inline char cat(Arg&)
{
    return 'l';
}
inline char cat(const Arg&)
{
    return 'c';
}
inline char cat(Arg&&)
{
    return 'r';
}
inline char cat(const Arg&&)
{
    return 'k';
}
template <typename A>
using if_arg = std::enable_if_t<std::is_same<std::decay_t<A>, Arg>::value, int>;

struct NoDtor
{};
struct WithDtor
{
    WithDtor()                           = default;
    WithDtor(const WithDtor&)            = default;
    WithDtor& operator=(const WithDtor&) = default;
    ~WithDtor() {}
};
/// Remembers by which constructor or assignment it got its value, and from what.
/// `how` is a history: letters of the arguments, '(' and ',' by construction, '=' by assignment; "C", "M" for copies and moves of another sink.
template <typename Base, bool NxMove = false>
struct Sink : Base
{
    char how[16];
    int  len;
    int  sum;
    Sink()
        : len(0)
        , sum(0)
    {
        note('0');
    }
    template <typename A, if_arg<A> = 0>
    Sink(A&& a)
        : len(0)
        , sum(a.v)
    {
        note('1');
        take(std::forward<A>(a));
    }
    template <typename A, typename B, if_arg<A> = 0, if_arg<B> = 0>
    Sink(A&& a, B&& b)
        : len(0)
        , sum(a.v + 3 * b.v)
    {
        note('2');
        take(std::forward<A>(a));
        take(std::forward<B>(b));
    }
    template <typename... A>
    Sink(std::initializer_list<int> il, A&&... a)
        : len(0)
        , sum(0)
    {
        note('i');
        for (const int x : il)
        {
            sum = sum * 5 + x;
        }
        const int dummy[] = {0, (sum += a.v, take(std::forward<A>(a)), 0)...};
        (void) dummy;
    }
    Sink(const Sink& o)
        : Base()
        , len(0)
        , sum(o.sum)
    {
        note('C');
    }
    Sink(Sink&& o) noexcept(NxMove)
        : Base()
        , len(0)
        , sum(o.sum)
    {
        note('M');
        o.sum = -1;
    }
    template <typename A, if_arg<A> = 0>
    Sink& operator=(A&& a)
    {
        len = 0;
        sum = a.v;
        note('=');
        take(std::forward<A>(a));
        return *this;
    }
    Sink& operator=(const Sink& o)
    {
        len = 0;
        sum = o.sum;
        note('=');
        note('C');
        return *this;
    }
    Sink& operator=(Sink&& o) noexcept(NxMove)
    {
        const int s = o.sum;
        o.sum       = -1;
        len         = 0;
        sum         = s;
        note('=');
        note('M');
        return *this;
    }
    std::string str() const { return std::string(how, static_cast<std::size_t>(len)); }

private:
    void note(char c)
    {
        if (len < static_cast<int>(sizeof how))
        {
            how[len++] = c;
        }
    }
    template <typename A>
    void take(A&& a)
    {
        note(cat(std::forward<A>(a)));
        const Arg kept(std::forward<A>(a));
        (void) kept;
    }
};

/// The value must have come about the way it says.
template <typename S>
void expect(const S& s, const char* what, const std::string& how, int sum)
{
    VH_CHECK(s.str() == how, "forwarding", "%s: made by \"%s\", not \"%s\"", what, s.str().c_str(), how.c_str());
    VH_CHECK(s.sum == sum, "forwarding-value", "%s: %d instead of %d", what, s.sum, sum);
    vh::count("forwardings");
    vh::nontrivial();
}
/// Only what was given as an rvalue may have been moved from.
inline void intact(const Arg& a, char c, const char* what)
{
    VH_CHECK(a.gone == (c == 'r'), "forwarding-source", "%s: an argument of category %c has %sbeen moved from", what, c, a.gone ? "" : "not ");
}

/// Calls f(a, b, categories, sum) with the arguments of all pairs of categories.
template <typename F>
void pairs(vh::Rng& rng, const char* what, F f)
{
    const int x = static_cast<int>(rng.below(100)), y = static_cast<int>(rng.below(100));
#define VFWD_PAIR(A, CA, B, CB)                                                                                        \
    {                                                                                                                  \
        Arg        a(x), b(y);                                                                                         \
        const Arg& ca = a;                                                                                             \
        const Arg& cb = b;                                                                                             \
        (void) ca;                                                                                                     \
        (void) cb;                                                                                                     \
        f(A, B, std::string{CA, CB}, x + 3 * y);                                                                       \
        intact(a, CA, what);                                                                                           \
        intact(b, CB, what);                                                                                           \
    }
    VFWD_PAIR(a, 'l', b, 'l')
    VFWD_PAIR(a, 'l', cb, 'c')
    VFWD_PAIR(a, 'l', std::move(b), 'r')
    VFWD_PAIR(ca, 'c', b, 'l')
    VFWD_PAIR(ca, 'c', std::move(b), 'r')
    VFWD_PAIR(std::move(a), 'r', b, 'l')
    VFWD_PAIR(std::move(a), 'r', cb, 'c')
    VFWD_PAIR(std::move(a), 'r', std::move(b), 'r')
    VFWD_PAIR(std::move(ca), 'k', std::move(cb), 'k')
#undef VFWD_PAIR
}
/// Calls f(a, category, value) with one argument of every category.
template <typename F>
void singles(vh::Rng& rng, const char* what, F f)
{
    const int x = static_cast<int>(rng.below(100));
#define VFWD_ONE(A, CA)                                                                                                \
    {                                                                                                                  \
        Arg        a(x);                                                                                               \
        const Arg& ca = a;                                                                                             \
        (void) ca;                                                                                                     \
        f(A, std::string{CA}, x);                                                                                      \
        intact(a, CA, what);                                                                                           \
    }
    VFWD_ONE(a, 'l')
    VFWD_ONE(ca, 'c')
    VFWD_ONE(std::move(a), 'r')
    VFWD_ONE(std::move(ca), 'k')
#undef VFWD_ONE
}
/// Calls f(list, a, categories, sum) with a list and one argument of every category.
template <typename F>
void lists(vh::Rng& rng, const char* what, F f)
{
    const int p = static_cast<int>(rng.below(9)), q = static_cast<int>(rng.below(9));
    singles(rng, what, [&](auto&& a, const std::string& c, int v) {
        const std::initializer_list<int> il = {p, q};
        f(il, std::forward<decltype(a)>(a), c, 5 * p + q + v);
    });
}

// ------------------------------------------------------------------------------------------------ what types offer
inline bool& explode_now()
{
    static bool x = false;
    return x;
}
inline void explode()
{
#if VH_EXC
    if (explode_now())
    {
        throw 5;
    }
#endif
}
/// Each special member separately: 1 may throw, 2 never throws.
template <int CC, int MC, int CA, int MA>
struct Special
{
    int v = 1;
    Special() = default;
    explicit Special(int x)
        : v(x)
    {
    }
    Special(const Special& o) noexcept(CC == 2)
        : v(o.v)
    {
        explode();
    }
    Special(Special&& o) noexcept(MC == 2)
        : v(o.v)
    {
        explode();
    }
    Special& operator=(const Special& o) noexcept(CA == 2)
    {
        explode();
        v = o.v;
        return *this;
    }
    Special& operator=(Special&& o) noexcept(MA == 2)
    {
        explode();
        v = o.v;
        return *this;
    }
};
/// No copies or moves at all.
struct Fixed
{
    Fixed()             = default;
    Fixed(const Fixed&) = delete;
    Fixed& operator=(const Fixed&) = delete;
};
struct MoveOnly
{
    MoveOnly()           = default;
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
};
struct NoAssign
{
    NoAssign()                = default;
    NoAssign(const NoAssign&) = default;
    NoAssign& operator=(const NoAssign&) = delete;
};
struct NoMoveAssign
{
    NoMoveAssign()               = default;
    NoMoveAssign(NoMoveAssign&&) = default;
    NoMoveAssign& operator=(NoMoveAssign&&) = delete;
};
struct CopyAssignOnly
{
    CopyAssignOnly()                      = default;
    CopyAssignOnly(const CopyAssignOnly&) = delete;
    CopyAssignOnly& operator=(const CopyAssignOnly&) = default;
};
struct MoveAssignOnly
{
    MoveAssignOnly()                      = default;
    MoveAssignOnly(const MoveAssignOnly&) = delete;
    MoveAssignOnly& operator=(MoveAssignOnly&&) = default;
};
/// Values having one comparison operator only.
template <int Op>
struct OneOp
{
    int k;
};
inline bool operator==(const OneOp<0>& a, const OneOp<0>& b)
{
    return a.k == b.k;
}
inline bool operator!=(const OneOp<1>& a, const OneOp<1>& b)
{
    return a.k != b.k;
}
inline bool operator<(const OneOp<2>& a, const OneOp<2>& b)
{
    return a.k < b.k;
}
inline bool operator<=(const OneOp<3>& a, const OneOp<3>& b)
{
    return a.k <= b.k;
}
inline bool operator>(const OneOp<4>& a, const OneOp<4>& b)
{
    return a.k > b.k;
}
inline bool operator>=(const OneOp<5>& a, const OneOp<5>& b)
{
    return a.k >= b.k;
}
#define OPERATION(NAME, OP)                                                                                            \
    struct NAME                                                                                                        \
    {                                                                                                                  \
        template <typename A, typename B>                                                                              \
        auto operator()(const A& a, const B& b) const -> decltype(a OP b)                                              \
        {                                                                                                              \
            return a OP b;                                                                                             \
        }                                                                                                              \
    };
OPERATION(Eq, ==)
OPERATION(Ne, !=)
OPERATION(Lt, <)
OPERATION(Le, <=)
OPERATION(Gt, >)
OPERATION(Ge, >=)
#undef OPERATION
template <typename F, typename A, typename B, typename = void>
struct Applies : std::false_type
{};
template <typename F, typename A, typename B>
struct Applies<F, A, B, decltype(void(std::declval<F>()(std::declval<const A&>(), std::declval<const B&>())))> : std::true_type
{};
}  // namespace vfwd

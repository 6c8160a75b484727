// C20: enum sets, opt-in enum operators and enum ranges agree with integer arithmetic.
#include <cstdint>
#include "pbt.hpp"
#include "kl/enum_set.hpp"
#include "kl/enum_traits.hpp"

const char* const property_rule =
    "both operands are non-zero and different (algebra), or the queried integer has another type or signedness than the enum's underlying type (ranges)";

namespace en {
enum class U8 : std::uint8_t {};
enum class S8 : std::int8_t {};
enum class U16 : std::uint16_t {};
enum class S16 : std::int16_t {};
enum class U32 : std::uint32_t {};
enum class S32 : std::int32_t {};
enum class U64 : std::uint64_t {};
enum class S64 : std::int64_t {};
enum Unsc : std::uint16_t { unsc_a = 1, unsc_b = 2 };
// opted in to nothing, or to one family of operators
enum class None : int {};
enum class Mask : int {};
enum class Shift : int {};
enum class Index : int {};
} // namespace en

#define OPT_IN(E)                                                                                \
    template <>                                                                                  \
    struct kl::enum_traits<en::E> : kl::enum_trait_support_indexing,                             \
                                    kl::enum_trait_support_bitmask,                              \
                                    kl::enum_trait_support_bitshift                              \
    {                                                                                            \
    };
OPT_IN(U8)
OPT_IN(S8)
OPT_IN(U16)
OPT_IN(S16)
OPT_IN(U32)
OPT_IN(S32)
OPT_IN(U64)
OPT_IN(S64)
template <>
struct kl::enum_traits<en::Mask> : kl::enum_trait_support_bitmask
{
};
template <>
struct kl::enum_traits<en::Shift> : kl::enum_trait_support_bitshift
{
};
template <>
struct kl::enum_traits<en::Index> : kl::enum_trait_support_indexing
{
};

// which operators exist for E
template <typename E, typename = void>
struct has_mask : std::false_type
{
};
template <typename E>
struct has_mask<E, std::void_t<decltype(std::declval<E>() | std::declval<E>(), std::declval<E>() & std::declval<E>(),
                                        std::declval<E>() ^ std::declval<E>(), ~std::declval<E>(), std::declval<E&>() |= std::declval<E>(),
                                        std::declval<E&>() &= std::declval<E>(), std::declval<E&>() ^= std::declval<E>())>> : std::true_type
{
};
#define ANY_OP(trait, expr)                                                                        \
    template <typename E, typename = void>                                                         \
    struct trait : std::false_type                                                                 \
    {                                                                                              \
    };                                                                                             \
    template <typename E>                                                                          \
    struct trait<E, std::void_t<decltype(expr)>> : std::true_type                                  \
    {                                                                                              \
    };
ANY_OP(op_or, std::declval<E>() | std::declval<E>())
ANY_OP(op_and, std::declval<E>() & std::declval<E>())
ANY_OP(op_xor, std::declval<E>() ^ std::declval<E>())
ANY_OP(op_not, ~std::declval<E>())
ANY_OP(op_or_eq, std::declval<E&>() |= std::declval<E>())
ANY_OP(op_and_eq, std::declval<E&>() &= std::declval<E>())
ANY_OP(op_xor_eq, std::declval<E&>() ^= std::declval<E>())
ANY_OP(op_shl, std::declval<E>() << 1)
ANY_OP(op_shr, std::declval<E>() >> 1)
ANY_OP(op_shl_eq, std::declval<E&>() <<= 1)
ANY_OP(op_shr_eq, std::declval<E&>() >>= 1)
ANY_OP(op_plus, +std::declval<E>())
ANY_OP(op_inc, ++std::declval<E&>())
ANY_OP(op_inc_post, std::declval<E&>()++)

namespace {

template <typename E>
auto N(E e)
{
    return static_cast<std::underlying_type_t<E>>(e);
}

template <typename U>
std::string show(U v)
{
    std::ostringstream ss;
    ss << +v;
    return ss.str();
}

#define SAME(expr, want, op)                                                                     \
    do                                                                                           \
    {                                                                                            \
        auto got_ = (expr);                                                                      \
        auto want_ = (want);                                                                     \
        if (got_ != want_)                                                                       \
            PBT_FAIL(name << " " op ": " << show(a) << ", " << show(b) << " gives "              \
                          << show(got_) << ", integers give " << show(want_));                   \
    } while (0)

template <typename E>
void set_algebra(const char* name, std::underlying_type_t<E> a, std::underlying_type_t<E> b)
{
    using U = std::underlying_type_t<E>;
    using Set = kl::enum_set<E>;
    const E ea = static_cast<E>(a), eb = static_cast<E>(b);
    const Set sa{ea}, sb{eb};
    const U o = static_cast<U>(a | b), n = static_cast<U>(a & b), x = static_cast<U>(a ^ b), inv = static_cast<U>(~a);

    PBT_CHECK((kl::is_enum_set_v<Set> && !kl::is_enum_set_v<E>), "is_enum_set");
    SAME(Set{}.underlying_value(), U{}, "default");
    SAME(sa.underlying_value(), a, "underlying_value");
    SAME(N(sa.value()), a, "value");
    SAME(static_cast<bool>(sa), a != 0, "bool");

    SAME((sa | sb).underlying_value(), o, "set|set");
    SAME((sa | eb).underlying_value(), o, "set|enum");
    SAME((ea | sb).underlying_value(), o, "enum|set");
    SAME((sa & sb).underlying_value(), n, "set&set");
    SAME((sa & eb).underlying_value(), n, "set&enum");
    SAME((ea & sb).underlying_value(), n, "enum&set");
    SAME((sa ^ sb).underlying_value(), x, "set^set");
    SAME((sa ^ eb).underlying_value(), x, "set^enum");
    SAME((ea ^ sb).underlying_value(), x, "enum^set");
    SAME((~sa).underlying_value(), inv, "~set");

#define COMPOUND(op, rhs, want)                                                                  \
    do                                                                                           \
    {                                                                                            \
        Set t = sa;                                                                              \
        Set& r = (t op rhs);                                                                     \
        SAME(t.underlying_value(), want, "set" #op #rhs);                                        \
        SAME(&r == &t, true, #op " returns its left operand");                                   \
    } while (0)
    COMPOUND(|=, sb, o);
    COMPOUND(|=, eb, o);
    COMPOUND(&=, sb, n);
    COMPOUND(&=, eb, n);
    COMPOUND(^=, sb, x);
    COMPOUND(^=, eb, x);
    {
        Set t = sa;
        t |= t;
        SAME(t.underlying_value(), a, "self |=");
        t &= t;
        SAME(t.underlying_value(), a, "self &=");
        t ^= t;
        SAME(t.underlying_value(), U{}, "self ^=");
    }

    SAME(sa == sb, a == b, "==");
    SAME(sa == eb, a == b, "== enum");
    SAME(ea == sb, a == b, "enum ==");
    SAME(sa != sb, a != b, "!=");
    SAME(sa != eb, a != b, "!= enum");
    SAME(ea != sb, a != b, "enum !=");
    SAME(sa < sb, a < b, "<");
    SAME(sa < eb, a < b, "< enum");
    SAME(ea < sb, a < b, "enum <");

    SAME(sa.test(eb), n == b, "test");
    SAME(sa.has_all(eb), n == b, "has_all enum");
    SAME(sa.has_all(sb), n == b, "has_all set");
    SAME(sa.has_any(eb), n != 0, "has_any enum");
    SAME(sa.has_any(sb), n != 0, "has_any set");
}

template <typename E>
void opt_in_ops(const char* name, std::underlying_type_t<E> a, std::underlying_type_t<E> b)
{
    using U = std::underlying_type_t<E>;
    const E ea = static_cast<E>(a), eb = static_cast<E>(b);
    const U o = static_cast<U>(a | b), n = static_cast<U>(a & b), x = static_cast<U>(a ^ b), inv = static_cast<U>(~a);
    SAME(N(ea | eb), o, "enum|enum");
    SAME(N(ea & eb), n, "enum&enum");
    SAME(N(ea ^ eb), x, "enum^enum");
    SAME(N(~ea), inv, "~enum");
    SAME(check_mask(ea, eb), n != 0, "check_mask");
    namespace ops = kl::enums::operators;
    SAME(N(ops::operator|(ea, eb)), o, "operators::|");
    SAME(N(ops::operator&(ea, eb)), n, "operators::&");
    SAME(N(ops::operator^(ea, eb)), x, "operators::^");
    SAME(N(ops::operator~(ea)), inv, "operators::~");
#define ECOMPOUND(op, want)                                                                      \
    do                                                                                           \
    {                                                                                            \
        E t = ea;                                                                                \
        E& r = (t op eb);                                                                        \
        SAME(N(t), want, "enum" #op);                                                            \
        SAME(&r == &t, true, "enum" #op " returns its left operand");                            \
        E t2 = ea;                                                                               \
        E& r2 = ops::operator op(t2, eb);                                                        \
        SAME(N(t2), want, "operators::" #op);                                                    \
        SAME(&r2 == &t2, true, "operators::" #op " returns its left operand");                   \
    } while (0)
    ECOMPOUND(|=, o);
    ECOMPOUND(&=, n);
    ECOMPOUND(^=, x);

    PBT_CHECK((std::is_same_v<decltype(+ea), U> || std::is_same_v<decltype(+ea), decltype(+a)>), "type of unary plus");
    SAME(static_cast<U>(+ea), a, "unary +");
    SAME(static_cast<U>(kl::underlying_cast(ea)), a, "underlying_cast");
    if (std::is_unsigned_v<U> || a != std::numeric_limits<U>::max())
    {
        const U inc = static_cast<U>(a + 1);
        E t = ea;
        E& r = ++t;
        SAME(N(t), inc, "++enum");
        SAME(&r == &t, true, "++enum returns its operand");
        E u = ea;
        E old = u++;
        SAME(N(u), inc, "enum++");
        SAME(N(old), a, "enum++ result");
        E v = ea;
        ops::operator++(v);
        SAME(N(v), inc, "operators::++");
    }
}

template <typename E>
void shifts(const char* name, std::underlying_type_t<E> a, int b)
{
    using U = std::underlying_type_t<E>;
    namespace ops = kl::enums::operators;
    const E ea = static_cast<E>(a);
    using W = std::make_unsigned_t<U>;
    if (std::is_unsigned_v<U> || a >= 0)
    {
        unsigned __int128 wide = static_cast<unsigned __int128>(static_cast<W>(a)) << b;
        bool fits = wide <= static_cast<unsigned __int128>(std::numeric_limits<U>::max());
        if (std::is_unsigned_v<U> || fits)
        {
            const U want = static_cast<U>(static_cast<W>(wide));
            SAME(N(ea << b), want, "<<");
            SAME(N(ops::operator<<(ea, b)), want, "operators::<<");
            E t = ea;
            E& r = (t <<= b);
            SAME(N(t), want, "<<=");
            SAME(&r == &t, true, "<<= returns its left operand");
            E t2 = ea;
            ops::operator<<=(t2, b);
            SAME(N(t2), want, "operators::<<=");
        }
    }
    {
        const U want = static_cast<U>(a >> b);
        SAME(N(ea >> b), want, ">>");
        SAME(N(ops::operator>>(ea, b)), want, "operators::>>");
        E t = ea;
        E& r = (t >>= b);
        SAME(N(t), want, ">>=");
        SAME(&r == &t, true, ">>= returns its left operand");
        E t2 = ea;
        ops::operator>>=(t2, b);
        SAME(N(t2), want, "operators::>>=");
    }
}

template <typename E>
void algebra(pbt::Choices& c, const char* name)
{
    using U = std::underlying_type_t<E>;
    c.label(name);
    unsigned n = 1 + static_cast<unsigned>(c.draw(4));
    for (unsigned i = 0; i < n; ++i)
    {
        U a = c.integer<U>();
        U b = c.chance(1, 4) ? static_cast<U>(a & c.integer<U>()) : c.integer<U>();
        int s = static_cast<int>(c.below(sizeof(U) * 8));
        c.log() << name << " " << show(a) << " " << show(b) << " shift " << s << "\n";
        if (a && b && a != b)
            c.nontrivial();
        set_algebra<E>(name, a, b);
        opt_in_ops<E>(name, a, b);
        shifts<E>(name, a, s);
    }
}

// --- ranges ------------------------------------------------------------------------------------
using I128 = __int128;

template <typename E, std::underlying_type_t<E> Lo, std::underlying_type_t<E> Hi, bool Open>
struct Rng
{
    using T = kl::enum_trait_support_range<E, static_cast<E>(Lo), static_cast<E>(Hi), Open>;
    using U = std::underlying_type_t<E>;
    static constexpr I128 lo = Lo;
    static constexpr I128 hi = static_cast<I128>(Hi) + (Open ? 0 : 1); // exclusive

    template <typename I>
    static void query(pbt::Choices& c, const char* name, const char* iname)
    {
        I v;
        if (c.flip())
        {
            // around a bound, wrapped into I
            I128 at = (c.flip() ? lo : hi) + c.range<int>(-2, 2);
            v = static_cast<I>(at);
        }
        else
            v = c.integer<I>();
        bool want = static_cast<I128>(v) >= lo && static_cast<I128>(v) < hi;
        c.log() << name << " in_range " << iname << " " << show(v) << "\n";
        if (!std::is_same_v<I, U>)
            c.nontrivial();
        PBT_EQ(T::in_range(v), want, name << ": in_range(" << iname << " " << show(v) << ")");
    }

    static void run(pbt::Choices& c, const char* name)
    {
        c.label("range");
        PBT_CHECK(T::support_range, "support_range");
        PBT_EQ(static_cast<I128>(T::min_value()) == lo, true, name << " min_value");
        PBT_EQ(static_cast<I128>(T::max_value()) == hi, true, name << " max_value");
        PBT_EQ(static_cast<I128>(N(T::min())) == lo, true, name << " min");
        PBT_EQ(static_cast<I128>(N(T::max())) == hi, true, name << " max");
        PBT_EQ(static_cast<I128>(T::count()) == hi - lo, true, name << " count");
        unsigned n = 1 + static_cast<unsigned>(c.draw(4));
        for (unsigned i = 0; i < n; ++i)
        {
            switch (c.draw(13))
            {
            case 0: query<std::int8_t>(c, name, "int8"); break;
            case 1: query<std::uint8_t>(c, name, "uint8"); break;
            case 2: query<std::int16_t>(c, name, "int16"); break;
            case 3: query<std::uint16_t>(c, name, "uint16"); break;
            case 4: query<std::int32_t>(c, name, "int32"); break;
            case 5: query<std::uint32_t>(c, name, "uint32"); break;
            case 6: query<std::int64_t>(c, name, "int64"); break;
            case 7: query<std::uint64_t>(c, name, "uint64"); break;
            case 8: query<long long>(c, name, "long long"); break;
            case 9: query<unsigned long long>(c, name, "unsigned long long"); break;
            case 10: query<char>(c, name, "char"); break;
            default: {
                U v = c.flip() ? static_cast<U>((c.flip() ? lo : hi) + c.range<int>(-2, 2)) : c.integer<U>();
                bool want = static_cast<I128>(v) >= lo && static_cast<I128>(v) < hi;
                c.log() << name << " in_range enum " << show(v) << "\n";
                PBT_EQ(T::in_range(static_cast<E>(v)), want, name << ": in_range(enum " << show(v) << ")");
                break;
            }
            }
        }
    }
};

template <typename E>
void operators_of(const char* name, bool mask, bool shift, bool index)
{
    bool m = op_or<E>::value || op_and<E>::value || op_xor<E>::value || op_not<E>::value || op_or_eq<E>::value ||
             op_and_eq<E>::value || op_xor_eq<E>::value;
    bool s = op_shl<E>::value || op_shr<E>::value || op_shl_eq<E>::value || op_shr_eq<E>::value;
    bool i = op_plus<E>::value || op_inc<E>::value || op_inc_post<E>::value;
    PBT_EQ(m, mask, name << ": bitmask operators exist");
    PBT_EQ(s, shift, name << ": shift operators exist");
    PBT_EQ(i, index, name << ": index operators exist");
    PBT_EQ(has_mask<E>::value, mask, name << ": all bitmask operators exist");
}
void opt_in_only()
{
    operators_of<en::None>("enum without opt-in", false, false, false);
    operators_of<en::Mask>("bitmask enum", true, false, false);
    operators_of<en::Shift>("bitshift enum", false, true, false);
    operators_of<en::Index>("indexing enum", false, false, true);
    operators_of<en::U8>("enum with all operators", true, true, true);
    PBT_CHECK(!kl::enum_traits<en::None>::support_range, "an enum without opt-in claims to support ranges");
}

template <typename E>
void for_each_check(pbt::Choices& c, const char* name)
{
    using U = std::underlying_type_t<E>;
    c.label("for_each_enum");
    U first = c.integer<U>();
    U last;
    if (c.chance(3, 4))
    {
        I128 l = static_cast<I128>(first) + c.range<int>(-3, 40);
        if (l > std::numeric_limits<U>::max())
            l = std::numeric_limits<U>::max();
        if (l < std::numeric_limits<U>::min())
            l = std::numeric_limits<U>::min();
        last = static_cast<U>(l);
    }
    else
        last = first;
    c.log() << "for_each_enum " << name << " [" << show(first) << ", " << show(last) << ")\n";
    if (first < last)
        c.nontrivial();
    I128 at = first;
    kl::for_each_enum(static_cast<E>(first), static_cast<E>(last), [&](E e) {
        PBT_CHECK(static_cast<I128>(N(e)) == at && at < static_cast<I128>(last), name << ": for_each_enum visited " << show(N(e)));
        ++at;
    });
    PBT_CHECK(first >= last ? at == static_cast<I128>(first) : at == static_cast<I128>(last), name << ": for_each_enum stopped early");
}

void exhaustive8()
{
    // all pairs over both 8 bit types, once per process
    static bool done = false;
    if (done)
        return;
    done = true;
    opt_in_only();
    for (int a = 0; a < 256; ++a)
        for (int b = 0; b < 256; ++b)
        {
            set_algebra<en::U8>("U8", static_cast<std::uint8_t>(a), static_cast<std::uint8_t>(b));
            opt_in_ops<en::U8>("U8", static_cast<std::uint8_t>(a), static_cast<std::uint8_t>(b));
            set_algebra<en::S8>("S8", static_cast<std::int8_t>(a), static_cast<std::int8_t>(b));
            opt_in_ops<en::S8>("S8", static_cast<std::int8_t>(a), static_cast<std::int8_t>(b));
            if (b < 8)
            {
                shifts<en::U8>("U8", static_cast<std::uint8_t>(a), b);
                shifts<en::S8>("S8", static_cast<std::int8_t>(a), b);
            }
        }
}
} // namespace

void property(pbt::Choices& c)
{
    exhaustive8();
    switch (c.draw(3))
    {
    case 0:
        switch (c.draw(9))
        {
        case 0: return algebra<en::U8>(c, "U8");
        case 1: return algebra<en::S8>(c, "S8");
        case 2: return algebra<en::U16>(c, "U16");
        case 3: return algebra<en::S16>(c, "S16");
        case 4: return algebra<en::U32>(c, "U32");
        case 5: return algebra<en::S32>(c, "S32");
        case 6: return algebra<en::U64>(c, "U64");
        case 7: return algebra<en::S64>(c, "S64");
        default: {
            auto a = c.integer<std::uint16_t>(), b = c.integer<std::uint16_t>();
            c.log() << "Unsc " << a << " " << b << "\n";
            if (a && b && a != b)
                c.nontrivial();
            return set_algebra<en::Unsc>("Unsc", a, b);
        }
        }
    case 1:
        switch (c.draw(24))
        {
        case 15: return Rng<en::S8, -5, 1, true>::run(c, "S8[-5,1)");
        case 16: return Rng<en::S32, 0, 1, true>::run(c, "S32[0,1)");
        case 17: return Rng<en::S16, 0, 0, false>::run(c, "S16[0,0]");
        case 18: return Rng<en::S64, -1, 0, true>::run(c, "S64[-1,0)");
        case 19: return Rng<en::S64, std::numeric_limits<std::int64_t>::min(), -1, true>::run(c, "S64[min,-1)");
        case 20: return Rng<en::U8, 0, 1, true>::run(c, "U8[0,1)");
        case 21: return Rng<en::U16, 255, 256, false>::run(c, "U16[255,256]");
        case 22: return Rng<en::S32, 2147483646, 2147483647, true>::run(c, "S32[max-1,max)");
        case 0: return Rng<en::U8, 0, 4, true>::run(c, "U8[0,4)");
        case 1: return Rng<en::U8, 3, 200, false>::run(c, "U8[3,200]");
        case 2: return Rng<en::U8, 200, 254, false>::run(c, "U8[200,254]");
        case 3: return Rng<en::S8, -128, 127, true>::run(c, "S8[-128,127)");
        case 4: return Rng<en::S8, -5, 5, false>::run(c, "S8[-5,5]");
        case 5: return Rng<en::S8, -5, -2, true>::run(c, "S8[-5,-2)");
        case 6: return Rng<en::U16, 1000, 65535, true>::run(c, "U16[1000,65535)");
        case 7: return Rng<en::S16, -300, -1, false>::run(c, "S16[-300,-1]");
        case 8: return Rng<en::U32, 0, 3, false>::run(c, "U32[0,3]");
        case 9: return Rng<en::U32, 2, 4294967295u, true>::run(c, "U32[2,max)");
        case 10: return Rng<en::S32, -2, 3, true>::run(c, "S32[-2,3)");
        case 11: return Rng<en::S32, 1, 10, false>::run(c, "S32[1,10]");
        case 12: return Rng<en::S32, -10, -1, true>::run(c, "S32[-10,-1)");
        case 13: return Rng<en::U64, 5, 0xffffffffffffffffull, true>::run(c, "U64[5,max)");
        case 14: return Rng<en::S64, -7, 9, false>::run(c, "S64[-7,9]");
        default: return Rng<en::S64, 0, std::numeric_limits<std::int64_t>::max(), true>::run(c, "S64[0,max)");
        }
    default:
        switch (c.draw(8))
        {
        case 0: return for_each_check<en::U8>(c, "U8");
        case 1: return for_each_check<en::S8>(c, "S8");
        case 2: return for_each_check<en::U16>(c, "U16");
        case 3: return for_each_check<en::S16>(c, "S16");
        case 4: return for_each_check<en::U32>(c, "U32");
        case 5: return for_each_check<en::S32>(c, "S32");
        case 6: return for_each_check<en::U64>(c, "U64");
        default: return for_each_check<en::S64>(c, "S64");
        }
    }
}

// C19: reflected enums convert to and from text bijectively.
#include <cstdint>
#include <memory>
#include "pbt.hpp"
#include "kl/enum_reflector.hpp"
#include "kl/reflect_enum.hpp"

#include <boost/preprocessor/repetition/enum.hpp>
#include <boost/preprocessor/repetition/repeat.hpp>

const char* const property_rule =
    "the looked-up text is not itself a declared name but derived from one (or is one in a custom-named enum), or the value is outside the declaration";

namespace shapes {

enum class ordinary { alpha, beta, gamma, delta };
KL_REFLECT_ENUM(ordinary, alpha, beta, gamma, delta)

enum class single : std::uint8_t { only };
KL_REFLECT_ENUM(single, only)

enum class shifted { one = 1, two, three };
KL_REFLECT_ENUM(shifted, one, two, three)

enum class holey : std::int16_t { a = 0, ab = 1, abc = 5, b = 6, last = 4000 };
KL_REFLECT_ENUM(holey, a, ab, abc, b, last)

// starts at zero, ends at count - 1, but not in order
enum class shuffled { z0 = 0, z2 = 2, z1 = 1, z3 = 3 };
KL_REFLECT_ENUM(shuffled, z0, z2, z1, z3)

// first is zero, last is count-1, with one value beyond
enum class peaky { p0 = 0, p7 = 7, p1 = 1, p3 = 3 };
KL_REFLECT_ENUM(peaky, p0, p7, p1, p3)

enum class negative : std::int8_t { minus = -128, m1 = -1, zero = 0, plus = 127 };
KL_REFLECT_ENUM(negative, minus, m1, zero, plus)

// as many values as the distance, but starting below zero
enum class offset_neg : int { n = -1, z = 0, p = 1 };
KL_REFLECT_ENUM(offset_neg, n, z, p)

enum unscoped { us_first, us_second, us_third };
KL_REFLECT_ENUM(unscoped, us_first, us_second, us_third)

enum unscoped_u16 : std::uint16_t { uu_a = 10, uu_b = 65535, uu_c = 0 };
KL_REFLECT_ENUM(unscoped_u16, uu_a, uu_b, uu_c)

enum class big_u64 : std::uint64_t { none = 0, top = 0xffffffffffffffffull, high = 0x8000000000000000ull, mid = 0x100000000ull };
KL_REFLECT_ENUM(big_u64, none, (top, the_top), high, (mid, mid_32))

enum class small_u8 : std::uint8_t { q0, q1, q2, q3, q4 };
KL_REFLECT_ENUM(small_u8, q0, (q1, Q1), q2, (q3, q-3), q4)

enum class renamed { A, B, C, D };
// the override of one value equals the identifier of another
KL_REFLECT_ENUM(renamed, (A, B), (B, C), (C, A), (D, D.d/x y))

enum class seqd { s1 = 3, s2 = 9, s3 = 4 };
KL_REFLECT_ENUM_SEQ(seqd, (s1)((s2, second))(s3))

enum class bool_under : bool { no, yes };
KL_REFLECT_ENUM(bool_under, no, yes)

// several names for one value; first is zero and last is count - 1
enum class synonyms { a0 = 0, a1 = 1, a1_again = 1, a3 = 3 };
KL_REFLECT_ENUM(synonyms, a0, a1, a1_again, a3)
enum class synonyms2 : std::uint8_t { b0 = 0, b0_again = 0, b3 = 3, b3_again = 3, b4 = 4 };
KL_REFLECT_ENUM(synonyms2, b0, (b0_again, zero), b3, (b3_again, three), b4)
// starts at zero without holes, and one value follows a gap
enum class gap_end { g0, g1, g2, g9 = 9 };
KL_REFLECT_ENUM(gap_end, g0, g1, g2, g9)
// not in the order of the values, without zero
enum class descending : long { d9 = 9, d5 = 5, d2 = 2 };
KL_REFLECT_ENUM(descending, d9, d5, d2)
// a declared range of zero to count - 1, reversed
enum class reversed { r2 = 2, r1 = 1, r0 = 0 };
KL_REFLECT_ENUM(reversed, r2, r1, r0)
// only some of the values are reflected
enum class partly { k0, k1, k2, k3, k4 };
KL_REFLECT_ENUM(partly, k0, k2, k4)
enum class partly2 { m0, m1, m2, m3 };
KL_REFLECT_ENUM(partly2, m0, m1, m2)

#define ENUMERATOR(z, n, text) BOOST_PP_CAT(text, n)
#define SEQ_ITEM(z, n, text) (BOOST_PP_CAT(text, n))
enum class large { BOOST_PP_ENUM(90, ENUMERATOR, v) };
KL_REFLECT_ENUM_SEQ(large, BOOST_PP_REPEAT(90, SEQ_ITEM, v))

enum class large_u8 : std::uint8_t { BOOST_PP_ENUM(64, ENUMERATOR, w) };
KL_REFLECT_ENUM(large_u8, BOOST_PP_ENUM(64, ENUMERATOR, w))
} // namespace shapes

namespace {

template <typename E>
struct Row
{
    E value;
    std::string name;
};

template <typename E>
struct Table
{
    const char* type;
    std::vector<Row<E>> rows;
    bool custom = false;
    bool synonyms = false;
};

using namespace shapes;

template <typename E>
std::vector<Row<E>> numbered(const char* prefix, int n)
{
    std::vector<Row<E>> r;
    for (int i = 0; i < n; ++i)
        r.push_back({static_cast<E>(i), prefix + std::to_string(i)});
    return r;
}

Table<ordinary> t_ordinary{"ordinary", {{ordinary::alpha, "alpha"}, {ordinary::beta, "beta"}, {ordinary::gamma, "gamma"}, {ordinary::delta, "delta"}}};
Table<single> t_single{"single", {{single::only, "only"}}};
Table<shifted> t_shifted{"shifted", {{shifted(1), "one"}, {shifted(2), "two"}, {shifted(3), "three"}}};
Table<holey> t_holey{"holey", {{holey(0), "a"}, {holey(1), "ab"}, {holey(5), "abc"}, {holey(6), "b"}, {holey(4000), "last"}}};
Table<shuffled> t_shuffled{"shuffled", {{shuffled(0), "z0"}, {shuffled(2), "z2"}, {shuffled(1), "z1"}, {shuffled(3), "z3"}}};
Table<peaky> t_peaky{"peaky", {{peaky(0), "p0"}, {peaky(7), "p7"}, {peaky(1), "p1"}, {peaky(3), "p3"}}};
Table<negative> t_negative{"negative", {{negative(-128), "minus"}, {negative(-1), "m1"}, {negative(0), "zero"}, {negative(127), "plus"}}};
Table<offset_neg> t_offset_neg{"offset_neg", {{offset_neg(-1), "n"}, {offset_neg(0), "z"}, {offset_neg(1), "p"}}};
Table<unscoped> t_unscoped{"unscoped", {{us_first, "us_first"}, {us_second, "us_second"}, {us_third, "us_third"}}};
Table<unscoped_u16> t_unscoped_u16{"unscoped_u16", {{uu_a, "uu_a"}, {uu_b, "uu_b"}, {uu_c, "uu_c"}}};
Table<big_u64> t_big{"big_u64", {{big_u64::none, "none"}, {big_u64::top, "the_top"}, {big_u64::high, "high"}, {big_u64::mid, "mid_32"}}, true};
Table<small_u8> t_small{"small_u8", {{small_u8::q0, "q0"}, {small_u8::q1, "Q1"}, {small_u8::q2, "q2"}, {small_u8::q3, "q-3"}, {small_u8::q4, "q4"}}, true};
Table<renamed> t_renamed{"renamed", {{renamed::A, "B"}, {renamed::B, "C"}, {renamed::C, "A"}, {renamed::D, "D.d/x y"}}, true};
Table<seqd> t_seqd{"seqd", {{seqd::s1, "s1"}, {seqd::s2, "second"}, {seqd::s3, "s3"}}, true};
Table<bool_under> t_bool{"bool_under", {{bool_under::no, "no"}, {bool_under::yes, "yes"}}};
Table<synonyms> t_syn{"synonyms", {{synonyms(0), "a0"}, {synonyms(1), "a1"}, {synonyms(1), "a1_again"}, {synonyms(3), "a3"}}, false, true};
Table<synonyms2> t_syn2{"synonyms2", {{synonyms2(0), "b0"}, {synonyms2(0), "zero"}, {synonyms2(3), "b3"}, {synonyms2(3), "three"}, {synonyms2(4), "b4"}}, true, true};
Table<gap_end> t_gap{"gap_end", {{gap_end(0), "g0"}, {gap_end(1), "g1"}, {gap_end(2), "g2"}, {gap_end(9), "g9"}}};
Table<descending> t_desc{"descending", {{descending(9), "d9"}, {descending(5), "d5"}, {descending(2), "d2"}}};
Table<reversed> t_rev{"reversed", {{reversed(2), "r2"}, {reversed(1), "r1"}, {reversed(0), "r0"}}};
Table<partly> t_partly{"partly", {{partly(0), "k0"}, {partly(2), "k2"}, {partly(4), "k4"}}};
Table<partly2> t_partly2{"partly2", {{partly2(0), "m0"}, {partly2(1), "m1"}, {partly2(2), "m2"}}};
Table<large> t_large{"large", numbered<large>("v", 90)};
Table<large_u8> t_large_u8{"large_u8", numbered<large_u8>("w", 64)};

template <typename E>
std::optional<E> find_name(const Table<E>& t, std::string_view s)
{
    for (auto& r : t.rows)
        if (r.name == s)
            return r.value;
    return std::nullopt;
}

template <typename E>
std::string find_value(const Table<E>& t, E v)
{
    for (auto& r : t.rows)
        if (r.value == v)
            return r.name;
    return std::string("unknown <") + t.type + ">";
}

// The name reported for v: any name declared for it will do when it has several.
template <typename E>
std::string accept(const Table<E>& t, E v, const std::string& want, const char* got)
{
    if (t.synonyms && got)
        for (auto& r : t.rows)
            if (r.value == v && r.name == got)
                return r.name;
    return want;
}

template <typename E>
std::string num(E e)
{
    using U = std::underlying_type_t<E>;
    std::ostringstream ss;
    ss << +static_cast<U>(e);
    return ss.str();
}

std::string str_of(const char* p) { return p ? std::string(p) : std::string("<null>"); }

std::string near_text(pbt::Choices& c, const std::vector<std::string>& names)
{
    std::string s = c.pick(names);
    unsigned muts = static_cast<unsigned>(c.draw(4));
    for (unsigned i = 0; i < muts; ++i)
    {
        switch (c.draw(10))
        {
        case 0: // case flip
            if (!s.empty())
            {
                auto& ch = s[c.below(s.size())];
                if (std::isalpha(static_cast<unsigned char>(ch)))
                    ch ^= 0x20;
            }
            break;
        case 1: // truncate back
            if (!s.empty())
                s.pop_back();
            break;
        case 2:
            if (!s.empty())
                s.erase(0, 1);
            break;
        case 3: // extend
            s += static_cast<char>("\0 abz019_"[c.below(9)]);
            break;
        case 4:
            s.insert(s.begin(), static_cast<char>("\0 abz019_"[c.below(9)]));
            break;
        case 5: // concatenate two
            s += c.pick(names);
            break;
        case 6:
            if (!s.empty())
                s[c.below(s.size())] = static_cast<char>(c.draw(256));
            break;
        case 7: // the identifiers hidden behind custom names, and other spellings
        {
            static const char* const ids[] = {"top", "mid", "q1", "q3", "s2", "renamed::A", "ordinary::alpha", "unknown <ordinary>", "unknown <large>", "0", "1", "D", "(B, bb)", ""};
            s = c.pick(ids);
            break;
        }
        case 8:
            std::reverse(s.begin(), s.end());
            break;
        default:
            if (s.size() > 1)
                std::swap(s[0], s[c.below(s.size())]);
            break;
        }
    }
    return s;
}

template <typename E>
void check_declared(const Table<E>& t)
{
    using R = kl::enum_reflector<E>;
    PBT_EQ(R::count(), t.rows.size(), "count of " << t.type);
    auto vals = R::values();
    PBT_EQ(vals.size(), t.rows.size(), "values() size of " << t.type);
    size_t i = 0;
    for (auto v : vals)
    {
        PBT_CHECK(i < t.rows.size() && v == t.rows[i].value, "values()[" << i << "] of " << t.type << " is " << num(v));
        ++i;
    }
    PBT_EQ(i, t.rows.size(), "values() iteration of " << t.type);
    i = 0;
    for (auto v : R::constexpr_values())
    {
        PBT_CHECK(i < t.rows.size() && v == t.rows[i].value, "constexpr_values()[" << i << "] of " << t.type);
        ++i;
    }
    PBT_EQ(i, t.rows.size(), "constexpr_values() of " << t.type);
    for (auto& r : t.rows)
    {
        PBT_EQ(str_of(R::to_string(r.value)), accept(t, r.value, r.name, R::to_string(r.value)), "to_string of " << t.type << " " << num(r.value));
        PBT_EQ(str_of(kl::to_string(r.value)), accept(t, r.value, r.name, kl::to_string(r.value)), "kl::to_string of " << t.type << " " << num(r.value));
        PBT_EQ(str_of(kl::reflect_enum<E>().to_string(r.value, "dflt")), accept(t, r.value, r.name, R::to_string(r.value, "dflt")), "to_string with default of " << t.type);
        auto b = R::from_string(r.name);
        PBT_CHECK(b && *b == r.value, "from_string of " << t.type << " " << r.name);
        auto b2 = kl::from_string<E>(r.name);
        PBT_CHECK(b2 && *b2 == r.value, "kl::from_string of " << t.type << " " << r.name);
    }
}

template <typename E>
void check(pbt::Choices& c, const Table<E>& t)
{
    using R = kl::enum_reflector<E>;
    using U = std::underlying_type_t<E>;
    c.label(t.type);

    if (c.chance(1, 16))
        check_declared(t);

    std::vector<std::string> names;
    for (auto& r : t.rows)
        names.push_back(r.name);

    unsigned n = 1 + static_cast<unsigned>(c.draw(6));
    for (unsigned i = 0; i < n; ++i)
    {
        if (c.flip())
        {
            std::string s = c.chance(1, 12) ? c.bytes(8) : near_text(c, names);
            // exactly-sized heap copy: a view need not be NUL-terminated
            std::unique_ptr<char[]> heap(new char[s.size() + 1]);
            std::memcpy(heap.get(), s.data(), s.size());
            heap[s.size()] = 'x'; // text continues behind the view
            std::string_view view(heap.get(), s.size());
            c.log() << t.type << " from " << pbt::quote(s) << "\n";
            auto want = find_name(t, s);
            if (!want || t.custom)
                c.nontrivial();
            c.label(want ? "declared name" : "undeclared name");
            auto got = R::from_string(view);
            auto got2 = kl::from_string<E>(view);
            PBT_CHECK(got.has_value() == want.has_value(), t.type << ": from_string(" << pbt::quote(s) << ") " << (got ? "converted to " + num(*got) : "did not convert"));
            PBT_CHECK(!want || *got == *want, t.type << ": from_string(" << pbt::quote(s) << ") gave " << num(*got));
            PBT_CHECK(got == got2, t.type << ": kl::from_string differs for " << pbt::quote(s));
            if (got)
                PBT_EQ(str_of(R::to_string(*got)), accept(t, *got, s, R::to_string(*got)), t.type << ": name -> value -> name");
        }
        else
        {
            U raw;
            if (c.chance(1, 3))
                raw = static_cast<U>(c.pick(t.rows).value);
            else if (c.flip())
                raw = static_cast<U>(static_cast<U>(c.pick(t.rows).value) + static_cast<U>(c.range<int>(-2, 2)));
            else
                raw = c.integer<U>();
            // For an unscoped enum without a fixed underlying type only the bit-field range is a value.
            if constexpr (std::is_same_v<E, unscoped>)
                raw &= 3;
            E v = static_cast<E>(raw);
            std::string want = find_value(t, v);
            bool known = want.rfind("unknown <", 0) != 0;
            c.log() << t.type << " value " << num(v) << " -> " << want << "\n";
            if (!known)
                c.nontrivial();
            c.label(known ? "declared value" : "undeclared value");
            want = accept(t, v, want, R::to_string(v));
            PBT_EQ(str_of(R::to_string(v)), want, t.type << ": to_string(" << num(v) << ")");
            PBT_EQ(str_of(kl::to_string(v)), want, t.type << ": kl::to_string(" << num(v) << ")");
            PBT_EQ(str_of(R::to_string(v, "dflt")), known ? want : "dflt", t.type << ": to_string(" << num(v) << ", default)");
            PBT_EQ(R::to_string(v, nullptr) == nullptr, !known, t.type << ": to_string(" << num(v) << ", nullptr)");
            if (known)
            {
                auto back = R::from_string(R::to_string(v));
                PBT_CHECK(back && *back == v, t.type << ": value -> name -> value for " << num(v));
            }
        }
    }
}
} // namespace

void property(pbt::Choices& c)
{
    switch (c.draw(24))
    {
    case 0: return check(c, t_ordinary);
    case 1: return check(c, t_single);
    case 2: return check(c, t_shifted);
    case 3: return check(c, t_holey);
    case 4: return check(c, t_shuffled);
    case 5: return check(c, t_peaky);
    case 6: return check(c, t_negative);
    case 7: return check(c, t_offset_neg);
    case 8: return check(c, t_unscoped);
    case 9: return check(c, t_unscoped_u16);
    case 10: return check(c, t_big);
    case 11: return check(c, t_small);
    case 12: return check(c, t_renamed);
    case 13: return check(c, t_seqd);
    case 14: return check(c, t_bool);
    case 15: return check(c, t_large);
    case 16: return check(c, t_syn);
    case 17: return check(c, t_syn2);
    case 18: return check(c, t_gap);
    case 19: return check(c, t_desc);
    case 20: return check(c, t_rev);
    case 21: return check(c, t_partly);
    case 22: return check(c, t_partly2);
    default: return check(c, t_large_u8);
    }
}

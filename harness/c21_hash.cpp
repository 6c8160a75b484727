// C21: FNV-1a and SuperFastHash equal their published definitions for all byte strings.
#include <cstdint>
#include <memory>
#include "pbt.hpp"
#include "kl/hash.hpp"

const char* const property_rule = "the string has at least two bytes and contains a byte >= 0x80 or an embedded NUL";

namespace {

std::uint32_t ref_fnv1a(const std::string& s)
{
    std::uint32_t h = 0x811c9dc5u;
    for (char ch : s)
    {
        h ^= static_cast<unsigned char>(ch);
        h *= 0x01000193u;
    }
    return h;
}

// Paul Hsieh's SuperFastHash, portable get16bits (little-endian pairs of unsigned bytes).
// The published tail reads its single byte as signed char.
std::uint32_t ref_hsieh(const std::string& s)
{
    const auto* d = reinterpret_cast<const unsigned char*>(s.data());
    size_t len = s.size();
    if (len == 0)
        return 0;
    auto u16 = [](const unsigned char* p) { return static_cast<std::uint32_t>(p[0]) + 256u * p[1]; };
    // sign extension spelled out with arithmetic
    auto s8 = [](unsigned char b) { return b < 128 ? static_cast<std::uint32_t>(b) : static_cast<std::uint32_t>(b) - 256u; };
    std::uint32_t h = static_cast<std::uint32_t>(len);
    size_t i = 0;
    for (; i + 4 <= len; i += 4)
    {
        h += u16(d + i);
        std::uint32_t t = (u16(d + i + 2) << 11) ^ h;
        h = (h << 16) ^ t;
        h += h >> 11;
    }
    switch (len - i)
    {
    case 3:
        h += u16(d + i);
        h ^= h << 16;
        h ^= s8(d[i + 2]) << 18;
        h += h >> 11;
        break;
    case 2:
        h += u16(d + i);
        h ^= h << 11;
        h += h >> 17;
        break;
    case 1:
        h += s8(d[i]);
        h ^= h << 10;
        h += h >> 1;
        break;
    default:
        break;
    }
    h ^= h << 3;
    h += h >> 5;
    h ^= h << 4;
    h += h >> 17;
    h ^= h << 25;
    h += h >> 6;
    return h;
}

template <size_t N>
std::uint32_t as_literal(const std::string& s)
{
    char buf[N + 1];
    std::memcpy(buf, s.data(), N);
    buf[N] = '\0';
    const char(&lit)[N + 1] = buf;
    return kl::hash::fnv1a(lit);
}

std::uint32_t literal_hash(const std::string& s)
{
    switch (s.size())
    {
    case 0: return as_literal<0>(s);
    case 1: return as_literal<1>(s);
    case 2: return as_literal<2>(s);
    case 3: return as_literal<3>(s);
    case 4: return as_literal<4>(s);
    case 5: return as_literal<5>(s);
    case 6: return as_literal<6>(s);
    case 7: return as_literal<7>(s);
    case 8: return as_literal<8>(s);
    default: return ref_fnv1a(s);
    }
}

// Compile-time results (SuperFastHash only for ASCII, so that a sign-extending implementation still compiles), for strings that exercise every tail and the upper half of the byte range.
using namespace kl::hash::operators;
#define CTH(lit, h)                                                                                 \
    {                                                                                            \
        std::string(lit, sizeof(lit) - 1), std::integral_constant<std::uint32_t, kl::hash::fnv1a(lit)>::value, \
            std::integral_constant<std::uint32_t, lit##_h>::value,                               \
            std::integral_constant<std::uint32_t, kl::hash::fnv1a(lit, sizeof(lit) - 1)>::value, \
            h                                                                                    \
    }
#define CT(lit) CTH(lit, (std::integral_constant<std::uint32_t, kl::hash::hsieh(lit, sizeof(lit) - 1)>::value))
#define CR(lit) CTH(lit, kl::hash::hsieh(lit, sizeof(lit) - 1))
struct Ct
{
    std::string text;
    std::uint32_t a, b, c, h;
};
const Ct& ct_entry(size_t i)
{
    static const Ct table[] = {
        CT(""), CT("a"), CT("ab"), CT("abc"), CT("abcd"), CT("abcde"), CT("foobar"), CT("hello world"),
        CR("\x80"), CR("\xff\xfe"), CR("a\x80z"), CR("\xc3\xa9t\xc3\xa9"), CT("\0\0\0"), CT("x\0y"), CR("\x7f\x80\x7f\x80\xff"),
        CR("\xff\xff\xff\xff\xff\xff\xff"), CT("The quick brown fox jumps over the lazy dog"), CR("\x01\x80\xff\x7f\x80\x00\x81"),
    };
    return table[i % std::size(table)];
}
constexpr size_t ct_count = 18;
} // namespace

void property(pbt::Choices& c)
{
    if (c.chance(1, 40))
    {
        const Ct& e = ct_entry(c.below(ct_count));
        c.label("compile-time");
        c.log() << "constexpr " << pbt::quote(e.text) << "\n";
        auto want = ref_fnv1a(e.text);
        PBT_EQ(e.a, want, "constexpr fnv1a(literal) of " << pbt::quote(e.text));
        PBT_EQ(e.b, want, "constexpr _h of " << pbt::quote(e.text));
        PBT_EQ(e.c, want, "constexpr fnv1a(ptr,len) of " << pbt::quote(e.text));
        PBT_EQ(e.h, ref_hsieh(e.text), "constexpr hsieh of " << pbt::quote(e.text));
    }
    std::string s;
    switch (c.draw(4))
    {
    case 0:
        s = c.bytes(300);
        break;
    case 1:
        s = c.bytes(9);
        break;
    case 2:
        s = c.over(std::string_view("\0\x7f\x80\xff\x01" "a", 6), 40);
        break;
    default:
        s = c.over("abcXYZ 019~", 40);
    }
    // a run of equal 4-byte blocks makes the carried state matter
    if (c.chance(1, 10) && !s.empty())
        for (const size_t want = c.chance(1, 100) ? 70000 : 2000; s.size() < want;)
            s += s;
    bool hi = false, nul = false;
    for (char ch : s)
    {
        hi |= static_cast<unsigned char>(ch) >= 0x80;
        nul |= ch == 0;
    }
    if (s.size() >= 2 && (hi || nul))
        c.nontrivial();
    c.label_if(hi, "byte >= 0x80");
    c.label_if(nul, "embedded NUL");
    static const char* const tails[] = {"len%4=0", "len%4=1", "len%4=2", "len%4=3"};
    c.label(tails[s.size() % 4]);
    c.log() << pbt::quote(s.substr(0, 80)) << " (" << s.size() << " bytes)\n";

    std::unique_ptr<char[]> heap(new char[s.size()]);
    std::memcpy(heap.get(), s.data(), s.size());
    auto want = ref_fnv1a(s);
    PBT_EQ(kl::hash::fnv1a(heap.get(), s.size()), want, "fnv1a(ptr,len) of " << pbt::quote(s));
    PBT_EQ(kl::hash::fnv1a(s), want, "fnv1a(string) of " << pbt::quote(s));
    PBT_EQ(kl::hash::operators::operator""_h(heap.get(), s.size()), want, "_h of " << pbt::quote(s));
    PBT_EQ(literal_hash(s), want, "fnv1a(char array) of " << pbt::quote(s));
    PBT_EQ(kl::hash::hsieh(heap.get(), s.size()), ref_hsieh(s), "hsieh of " << pbt::quote(s));
    // unaligned start
    if (s.size() > 1)
    {
        std::string t = s.substr(1);
        PBT_EQ(kl::hash::hsieh(heap.get() + 1, s.size() - 1), ref_hsieh(t), "hsieh of unaligned " << pbt::quote(t));
        PBT_EQ(kl::hash::fnv1a(heap.get() + 1, s.size() - 1), ref_fnv1a(t), "fnv1a of unaligned " << pbt::quote(t));
    }
    PBT_EQ(kl::hash::hsieh(nullptr, 0), 0u, "hsieh(null)");
}

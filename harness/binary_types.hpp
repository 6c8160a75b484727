// Types, generators and an independent encoder/decoder for the binary format: little-endian
// scalars, u32 element counts, u8 optional flag, u8 variant index.
#pragma once
#include <cstdint>
#include "pbt.hpp"

#include <kl/binary_rw.hpp>
#include <kl/binary_rw/endian.hpp>
#include <kl/binary_rw/map.hpp>
#include <kl/binary_rw/optional.hpp>
#include <kl/binary_rw/pair.hpp>
#include <kl/binary_rw/set.hpp>
#include <kl/binary_rw/string.hpp>
#include <kl/binary_rw/variant.hpp>
#include <kl/binary_rw/vector.hpp>

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <variant>

// around library calls whose allocations are judged
#ifndef BINARY_LIB
#define BINARY_LIB(x) x
#endif

enum class E8 : uint8_t { a = 1, b = 200 };
enum class E32 : int32_t { neg = -5, zero = 0, big = 1 << 30 };

// A user type with its own (de)serialisation, as the documentation suggests.
struct User
{
    int16_t x = 0;
    std::string name;
    std::vector<std::optional<uint32_t>> v;
    friend bool operator==(const User& a, const User& b) { return a.x == b.x && a.name == b.name && a.v == b.v; }
    friend bool operator<(const User& a, const User& b) { return std::tie(a.x, a.name) < std::tie(b.x, b.name); }
};
inline void write_binary(kl::binary_writer& w, const User& u) { w << u.x << u.name << u.v; }
inline void read_binary(kl::binary_reader& r, User& u) { r >> u.x >> u.name >> u.v; }

using BE16 = boost::endian::big_uint16_t;
using BE32 = boost::endian::big_int32_t;
using BE64 = boost::endian::big_uint64_t;
using LE32 = boost::endian::little_uint32_t;
using LE24 = boost::endian::little_int24_t;
using BE48 = boost::endian::big_uint48_t;

using V1 = std::variant<int32_t, std::string, std::vector<float>, std::optional<uint8_t>, double>;
using V2 = std::variant<std::string, User, std::map<uint8_t, std::string>>;

// ---------------------------------------------------------------------------- codec
using Bytes = std::string;
struct Src
{
    const uint8_t* p;
    size_t n, pos = 0;
    size_t left() const { return n - pos; }
};

template <typename T, typename = void>
struct C;

template <typename T>
void enc(Bytes& o, const T& v)
{
    C<T>::enc(o, v);
}
template <typename T>
bool dec(Src& s, T& v)
{
    return C<T>::dec(s, v);
}
template <typename T>
T gen(pbt::Choices& c, int depth = 0)
{
    return C<T>::gen(c, depth);
}

inline void put_le(Bytes& o, uint64_t v, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        o += static_cast<char>(v >> (8 * i));
}
inline bool get_le(Src& s, uint64_t& v, size_t n)
{
    if (s.left() < n)
        return false;
    v = 0;
    for (size_t i = 0; i < n; ++i)
        v |= static_cast<uint64_t>(s.p[s.pos + i]) << (8 * i);
    s.pos += n;
    return true;
}

template <typename T>
struct C<T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>>
{
    static void enc(Bytes& o, T v) { put_le(o, static_cast<uint64_t>(v), sizeof(T)); }
    static bool dec(Src& s, T& v)
    {
        uint64_t x;
        if (!get_le(s, x, sizeof(T)))
            return false;
        v = static_cast<T>(x);
        return true;
    }
    static T gen(pbt::Choices& c, int)
    {
        if constexpr (std::is_enum_v<T>)
            return static_cast<T>(c.integer<std::underlying_type_t<T>>());
        else
            return c.integer<T>();
    }
};
template <typename T>
struct C<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
    static void enc(Bytes& o, T v)
    {
        U u;
        std::memcpy(&u, &v, sizeof u);
        put_le(o, u, sizeof u);
    }
    static bool dec(Src& s, T& v)
    {
        uint64_t x;
        if (!get_le(s, x, sizeof(T)))
            return false;
        U u = static_cast<U>(x);
        std::memcpy(&v, &u, sizeof u);
        return true;
    }
    static T gen(pbt::Choices& c, int)
    {
        switch (c.draw(4))
        {
        case 0: return static_cast<T>(c.integer<int16_t>()) / 4;
        case 1: return static_cast<T>(c.integer<int64_t>()) * static_cast<T>(1e-3);
        case 2: return -static_cast<T>(0);
        default: return std::numeric_limits<T>::max() / static_cast<T>(1 + c.draw(9));
        }
    }
};
template <boost::endian::order O, typename T, std::size_t N, boost::endian::align A>
struct C<boost::endian::endian_arithmetic<O, T, N, A>>
{
    using W = boost::endian::endian_arithmetic<O, T, N, A>;
    static_assert(sizeof(W) == N / 8);
    static void enc(Bytes& o, const W& w)
    {
        T v = w;
        Bytes b;
        put_le(b, static_cast<uint64_t>(v), N / 8);
        if (O == boost::endian::order::big)
            std::reverse(b.begin(), b.end());
        o += b;
    }
    static bool dec(Src& s, W& w)
    {
        if (s.left() < N / 8)
            return false;
        uint64_t v = 0;
        for (size_t i = 0; i < N / 8; ++i)
        {
            size_t k = O == boost::endian::order::big ? N / 8 - 1 - i : i;
            v |= static_cast<uint64_t>(s.p[s.pos + k]) << (8 * i);
        }
        s.pos += N / 8;
        if (std::is_signed_v<T> && N < 64 && (v >> (N - 1) & 1))
            v |= ~0ull << N;
        w = static_cast<T>(v);
        return true;
    }
    static W gen(pbt::Choices& c, int)
    {
        uint64_t v = static_cast<uint64_t>(c.integer<T>());
        if (N < sizeof(T) * 8)
        {
            v &= (1ull << N) - 1;
            if (std::is_signed_v<T> && (v >> (N - 1) & 1))
                v |= ~0ull << N;
        }
        return W(static_cast<T>(v));
    }
};
inline bool get_size(Src& s, uint64_t& n) { return get_le(s, n, 4); }

// rarely, a size around 2^8 or 2^16 (0 = no)
inline size_t scale(pbt::Choices& c, int depth)
{
    if (depth || !c.chance(1, 150))
        return 0;
    static const size_t small[] = {127, 128, 255, 256, 257, 300, 513}, large[] = {32768, 65535, 65536, 65537, 70001};
    c.label("scaled container");
    return c.chance(1, 12) ? c.pick(large) : c.pick(small);
}
// the i-th of a family of distinct values (as far as the type goes)
template <typename T>
T nth(size_t i)
{
    if constexpr (std::is_integral_v<T>)
        return static_cast<T>(i * 0x9E3779B1u);
    else if constexpr (std::is_same_v<T, std::string>)
        return std::to_string(i * 7919);
    else
        return T{nth<typename T::first_type>(i), nth<typename T::second_type>(i >> 8)};
}

template <>
struct C<std::string>
{
    static void enc(Bytes& o, const std::string& v)
    {
        put_le(o, v.size(), 4);
        o += v;
    }
    static bool dec(Src& s, std::string& v)
    {
        uint64_t n;
        v.clear();
        if (!get_size(s, n) || n > s.left())
            return false;
        v.assign(reinterpret_cast<const char*>(s.p) + s.pos, n);
        s.pos += n;
        return true;
    }
    static std::string gen(pbt::Choices& c, int d)
    {
        if (const size_t n = scale(c, d))
            return cycled(c.bytes(7) + 'x', n);
        return c.bytes(d ? 12 : 60);
    }
    static std::string cycled(const std::string& pat, size_t n)
    {
        std::string s;
        s.reserve(n + pat.size());
        while (s.size() < n)
            s += pat;
        s.resize(n);
        return s;
    }
};
template <typename Cont>
struct SeqC
{
    using E = typename Cont::value_type;
    static void enc(Bytes& o, const Cont& v)
    {
        put_le(o, v.size(), 4);
        for (auto& e : v)
            ::enc<E>(o, e);
    }
};
template <typename T>
struct C<std::vector<T>> : SeqC<std::vector<T>>
{
    static bool dec(Src& s, std::vector<T>& v)
    {
        uint64_t n;
        v.clear();
        if (!get_size(s, n))
            return false;
        for (uint64_t i = 0; i < n; ++i)
        {
            T e{};
            if (!::dec(s, e))
            {
                v.clear();
                return false;
            }
            v.push_back(std::move(e));
        }
        return true;
    }
    static std::vector<T> gen(pbt::Choices& c, int d)
    {
        if (const size_t n = scale(c, d))
        {
            std::vector<T> pool(1 + c.below(3));
            for (auto& e : pool)
                e = ::gen<T>(c, d + 1);
            std::vector<T> v(n);
            for (size_t i = 0; i < n; ++i)
                v[i] = pool[i % pool.size()];
            return v;
        }
        std::vector<T> v(c.len(d ? 4 : 20));
        for (auto& e : v)
            e = ::gen<T>(c, d + 1);
        return v;
    }
};
template <typename T>
struct C<std::set<T>> : SeqC<std::set<T>>
{
    static bool dec(Src& s, std::set<T>& v)
    {
        uint64_t n;
        v.clear();
        if (!get_size(s, n))
            return false;
        for (uint64_t i = 0; i < n; ++i)
        {
            T e{};
            if (!::dec(s, e))
            {
                v.clear();
                return false;
            }
            v.insert(std::move(e));
        }
        return true;
    }
    static std::set<T> gen(pbt::Choices& c, int d)
    {
        std::set<T> v;
        if (const size_t n = scale(c, d))
        {
            for (size_t i = 0; i < n; ++i)
                v.insert(nth<T>(i));
            return v;
        }
        for (size_t n = c.len(d ? 4 : 12); n > 0; --n)
            v.insert(::gen<T>(c, d + 1));
        return v;
    }
};
template <typename K, typename V>
struct C<std::map<K, V>>
{
    static void enc(Bytes& o, const std::map<K, V>& v)
    {
        put_le(o, v.size(), 4);
        for (auto& e : v)
        {
            ::enc(o, e.first);
            ::enc(o, e.second);
        }
    }
    static bool dec(Src& s, std::map<K, V>& v)
    {
        uint64_t n;
        v.clear();
        if (!get_size(s, n))
            return false;
        for (uint64_t i = 0; i < n; ++i)
        {
            K k{};
            V x{};
            if (!::dec(s, k) || !::dec(s, x))
            {
                v.clear();
                return false;
            }
            v.insert({std::move(k), std::move(x)});
        }
        return true;
    }
    static std::map<K, V> gen(pbt::Choices& c, int d)
    {
        std::map<K, V> v;
        if (const size_t n = scale(c, d))
        {
            const V x = ::gen<V>(c, d + 1);
            for (size_t i = 0; i < n; ++i)
                v.insert({nth<K>(i), x});
            return v;
        }
        for (size_t n = c.len(d ? 3 : 10); n > 0; --n)
        {
            K k = ::gen<K>(c, d + 1);
            v.insert({std::move(k), ::gen<V>(c, d + 1)});
        }
        return v;
    }
};
template <typename A, typename B>
struct C<std::pair<A, B>>
{
    static void enc(Bytes& o, const std::pair<A, B>& v)
    {
        ::enc(o, v.first);
        ::enc(o, v.second);
    }
    static bool dec(Src& s, std::pair<A, B>& v) { return ::dec(s, v.first) && ::dec(s, v.second); }
    static std::pair<A, B> gen(pbt::Choices& c, int d)
    {
        A a = ::gen<A>(c, d + 1);
        return {std::move(a), ::gen<B>(c, d + 1)};
    }
};
template <typename T>
struct C<std::optional<T>>
{
    static void enc(Bytes& o, const std::optional<T>& v)
    {
        o += v ? '\1' : '\0';
        if (v)
            ::enc(o, *v);
    }
    static bool dec(Src& s, std::optional<T>& v)
    {
        uint64_t f;
        v.reset();
        if (!get_le(s, f, 1))
            return false;
        if (!f)
            return true;
        v.emplace();
        return ::dec(s, *v);
    }
    static std::optional<T> gen(pbt::Choices& c, int d)
    {
        if (c.chance(1, 3))
            return std::nullopt;
        return ::gen<T>(c, d + 1);
    }
};
template <typename... Ts>
struct C<std::variant<Ts...>>
{
    using V = std::variant<Ts...>;
    static void enc(Bytes& o, const V& v)
    {
        o += static_cast<char>(v.index());
        std::visit([&](auto& x) { ::enc(o, x); }, v);
    }
    template <size_t I = 0>
    static bool dec_at(size_t i, Src& s, V& v)
    {
        if constexpr (I < sizeof...(Ts))
        {
            if (i != I)
                return dec_at<I + 1>(i, s, v);
            std::variant_alternative_t<I, V> x{};
            if (!::dec(s, x))
                return false;
            v.template emplace<I>(std::move(x));
            return true;
        }
        else
            return false;
    }
    template <size_t I = 0>
    static V gen_at(size_t i, pbt::Choices& c, int d)
    {
        if constexpr (I < sizeof...(Ts))
        {
            if (i != I)
                return gen_at<I + 1>(i, c, d);
            return V{std::in_place_index<I>, ::gen<std::variant_alternative_t<I, V>>(c, d + 1)};
        }
        else
            return V{};
    }
    static bool dec(Src& s, V& v)
    {
        uint64_t i;
        return get_le(s, i, 1) && dec_at(i, s, v);
    }
    static V gen(pbt::Choices& c, int d) { return gen_at(c.below(sizeof...(Ts)), c, d); }
};
template <>
struct C<User>
{
    static void enc(Bytes& o, const User& u)
    {
        ::enc(o, u.x);
        ::enc(o, u.name);
        ::enc(o, u.v);
    }
    static bool dec(Src& s, User& u) { return ::dec(s, u.x) && ::dec(s, u.name) && ::dec(s, u.v); }
    static User gen(pbt::Choices& c, int d)
    {
        User u;
        u.x = ::gen<int16_t>(c);
        u.name = ::gen<std::string>(c, d + 1);
        u.v = ::gen<std::vector<std::optional<uint32_t>>>(c, d + 1);
        return u;
    }
};

// equality that treats floats bitwise (decoded garbage may be NaN)
template <typename T>
bool same(const T& a, const T& b)
{
    Bytes x, y;
    enc(x, a);
    enc(y, b);
    return x == y;
}

template <typename T>
struct is_container : std::false_type {};
template <> struct is_container<std::string> : std::true_type {};
template <typename T> struct is_container<std::vector<T>> : std::true_type {};
template <typename T> struct is_container<std::set<T>> : std::true_type {};
template <typename K, typename V> struct is_container<std::map<K, V>> : std::true_type {};

template <typename... Ts>
struct list {};
// bool is only used for round trips: other byte values than 0/1 have no bool meaning
using HostileTypes =
    list<uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, float, double, char, E8, E32, BE16, BE32, BE64, LE32, LE24, BE48,
         std::string, std::vector<uint8_t>, std::vector<int16_t>, std::vector<double>, std::vector<E32>, std::vector<BE16>, std::vector<std::string>,
         std::vector<std::vector<uint32_t>>, std::vector<std::optional<std::string>>, std::vector<V1>, std::vector<std::pair<uint8_t, std::string>>,
         std::set<int64_t>, std::set<std::string>, std::set<std::pair<uint8_t, uint16_t>>, std::map<uint8_t, std::string>, std::map<std::string, std::vector<uint16_t>>,
         std::map<std::string, std::map<int32_t, std::optional<std::string>>>, std::pair<uint8_t, std::string>, std::pair<std::string, std::pair<uint64_t, V1>>,
         std::optional<uint64_t>, std::optional<std::string>, std::optional<std::vector<std::optional<uint16_t>>>, V1, V2, std::optional<V2>, User,
         std::vector<User>, std::map<uint16_t, User>>;

struct Item
{
    virtual ~Item() = default;
    virtual const char* name() const = 0;
    virtual void generate(pbt::Choices& c) = 0;
    virtual void encode(Bytes&) const = 0;
    virtual void write(kl::binary_writer& w, int how) const = 0;
    // reads with the library, `how` selects the entry point; compares with the held value
    virtual void read_equal(kl::binary_reader& r, int how) = 0;
    // decode with the reference, then the library; compares value/err/position. Returns success.
    virtual bool read_any(kl::binary_reader& r, Src& s, int how, pbt::Choices& c, size_t before) = 0;
};

template <typename T>
struct is_variant : std::false_type
{
};
template <typename... Ts>
struct is_variant<std::variant<Ts...>> : std::true_type
{
};
template <typename T>
struct is_optional : std::false_type
{
};
template <typename T>
struct is_optional<std::optional<T>> : std::true_type
{
};

template <typename T>
struct ItemT : Item
{
    T v{};
    const char* name() const override { return __PRETTY_FUNCTION__; }
    void generate(pbt::Choices& c) override { v = gen<T>(c); }
    void encode(Bytes& o) const override { enc(o, v); }
    void write(kl::binary_writer& w, int how) const override
    {
        if constexpr (std::is_trivially_copyable_v<T> && (std::is_arithmetic_v<T> || std::is_enum_v<T>))
        {
            if (how == 1)
            {
                const bool done = w.write_raw(v);
                PBT_EQ(done, !w.err(), "result of write_raw()");
                return;
            }
            if (how == 2)
            {
                const bool done = w.write_span(gsl::span<const T>(&v, 1));
                PBT_EQ(done, !w.err(), "result of write_span()");
                return;
            }
        }
        w << v;
    }
    void read_equal(kl::binary_reader& r, int how) override
    {
        T out{};
        bool ok = true;
        switch (how)
        {
        case 0: out = r.read<T>(); break;
        case 1: ok = r.read(out); break;
        case 2: r >> out; break;
        default:
            out = v; // dirty target
            r >> out;
            break;
        }
        PBT_CHECK(ok && !r.err(), "reading back reports an error");
        PBT_CHECK(same(out, v), "value read back differs");
        if constexpr (!std::is_same_v<T, double> && !std::is_same_v<T, float>)
            PBT_CHECK(out == v, "value read back does not compare equal");
    }
    bool read_any(kl::binary_reader& r, Src& s, int how, pbt::Choices& c, size_t before) override
    {
        T want{}, out{};
        const bool was_err = r.err();
        bool ok = !was_err && dec(s, want);
        bool lib = true;
        if (how == 3 || (how == 1 && was_err))
            out = gen<T>(c); // dirty target
        const T prev = out;
        switch (how)
        {
        case 0: BINARY_LIB(out = r.read<T>()); break;
        case 1: BINARY_LIB(lib = r.read(out)); break;
        default: BINARY_LIB(r >> out); break;
        }
        PBT_EQ(r.err(), !ok, "error state after reading");
        if (how == 1)
            PBT_EQ(lib, ok, "result of read()");
        if (ok)
        {
            PBT_CHECK(same(out, want), "decoded value differs from the reference decoder");
            PBT_EQ(r.pos(), s.pos, "position after reading");
        }
        else if (was_err && how == 1)
            PBT_CHECK(same(out, prev), "read() changes its target although the error was set before");
        else if constexpr (is_container<T>::value)
            PBT_CHECK(out.empty(), "container not left empty after a failed read");
        else if constexpr (is_variant<T>::value)
        {
            if (how != 0)
                PBT_CHECK(same(out, prev), "a variant that cannot be read changes");
        }
        else if constexpr (is_optional<T>::value)
        {
            if (was_err)
                PBT_CHECK(!out, "an optional read after an error has a value");
        }
        (void)before;
        return ok;
    }
};

// A cursor over the same bytes, seen as elements of one type or another
template <typename Cursor, typename Byte>
Cursor cursor_over(Byte* p, size_t n, uint64_t kind)
{
    using byte = std::conditional_t<std::is_const_v<Byte>, const std::byte, std::byte>;
    const auto as = [&](auto tag) {
        using E = std::conditional_t<std::is_const_v<Byte>, const decltype(tag), decltype(tag)>;
        return Cursor{gsl::span<E>{reinterpret_cast<E*>(p), n / sizeof(E)}};
    };
    switch (kind)
    {
    case 1: return as(char{});
    case 2: return as(uint8_t{});
    case 3:
        if (n % 2 == 0)
            return as(uint16_t{});
        break;
    case 4:
        if (n % 4 == 0)
            return as(uint32_t{});
        break;
    case 5:
        if (n % 8 == 0)
            return as(double{});
        break;
    case 6:
        if (n == 8)
        {
            using E = std::conditional_t<std::is_const_v<Byte>, const uint16_t, uint16_t>;
            return Cursor{gsl::span<E, 4>{reinterpret_cast<E*>(p), 4}};
        }
        break;
    default: break;
    }
    return Cursor{gsl::span<byte>{reinterpret_cast<byte*>(p), n}};
}

template <typename T>
std::unique_ptr<Item> make_item()
{
    return std::make_unique<ItemT<T>>();
}
template <typename... Ts>
const std::vector<std::unique_ptr<Item> (*)()>& makers(list<Ts...>)
{
    static const std::vector<std::unique_ptr<Item> (*)()> v{&make_item<Ts>...};
    return v;
}

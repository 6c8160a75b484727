// The reflected types used by C14-C18 and C26.  Types only; the model is in json_model.hpp.
#pragma once

#include <array>
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>

#ifdef J_YAML
#include "kl/yaml.hpp"
#endif
#include "kl/json.hpp"

#include "kl/enum_set.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization_attributes.hpp"

namespace jt {

namespace sa = kl::serialization::attributes;

enum class Shade
{
    light,
    mid = 7,
    dark = -3
};
KL_REFLECT_ENUM(Shade, light, (mid, in_between), dark)

enum Unscoped
{
    us_a,
    us_b = 5
};
KL_REFLECT_ENUM(Unscoped, us_a, us_b)

enum class Flag : std::uint16_t
{
    none = 0x1,
    exec = 0x2,
    read = 0x10,
    write = 0x8000
};
KL_REFLECT_ENUM(Flag, none, (exec, x), read, write)
using Flags = kl::enum_set<Flag>;

// declared values share bits
enum class Perm : std::uint8_t
{
    r = 1,
    rw = 3,
    w = 2,
    x = 4,
    all = 7,
    hi = 0x80,
    edge = 0x81
};
KL_REFLECT_ENUM(Perm, r, rw, w, x, (all, everything), hi, edge)
using Perms = kl::enum_set<Perm>;

// not reflected: serialized as the number
enum class Raw8 : std::uint8_t
{
    zero
};
enum class Raw16 : std::int16_t
{
    zero
};
enum class Raw64 : std::int64_t
{
    zero
};

// customised through serializer<T>
struct Seconds
{
    std::int64_t n = 0;
};
// customised through ADL hooks
struct Celsius
{
    double deg = 0;
};

template <typename Tag, typename Context>
auto dump_adl(Tag, const Celsius& c, Context& ctx) -> decltype(kl::serialization::dump(c.deg, ctx), void())
{
    kl::serialization::dump(c.deg, ctx);
}
template <typename Tag, typename Context>
auto serialize_adl(Tag, const Celsius& c, Context& ctx)
{
    return kl::serialization::serialize(c.deg, ctx);
}
template <typename Tag, typename Value, typename Context>
void deserialize_adl(Tag, Celsius& c, const Value& v, Context& ctx)
{
    kl::serialization::deserialize(c.deg, v, ctx);
}
template <typename Tag, typename Value, typename Context>
void patch_adl(Tag, Celsius& c, const Value& v, Context& ctx)
{
    kl::serialization::deserialize(c.deg, v, ctx);
}

} // namespace jt

namespace kl::serialization {
template <>
struct serializer<jt::Seconds>
{
    template <typename Context>
    static void dump(const jt::Seconds& s, Context& ctx)
    {
        serialization::dump(s.n, ctx);
    }
    template <typename Context>
    static auto serialize(const jt::Seconds& s, Context& ctx)
    {
        return serialization::serialize(s.n, ctx);
    }
    template <typename Value, typename Context>
    static void deserialize(jt::Seconds& s, const Value& v, Context& ctx)
    {
        serialization::deserialize(s.n, v, ctx);
    }
    template <typename Value, typename Context>
    static void patch(jt::Seconds& s, const Value& v, Context& ctx)
    {
        serialization::deserialize(s.n, v, ctx);
    }
};
} // namespace kl::serialization

namespace jt {

// ------------------------------------------------------------------------------------ plain
struct Num
{
    std::int8_t i8 = 0;
    std::uint8_t u8 = 0;
    std::int16_t i16 = 0;
    std::uint16_t u16 = 0;
    std::int32_t i32 = 0;
    std::uint32_t u32 = 0;
    std::int64_t i64 = 0;
    std::uint64_t u64 = 0;
    bool b = false;
    float f = 0;
    double d = 0;
    std::optional<std::uint64_t> ou64;
    std::optional<std::int8_t> oi8;
};
KL_REFLECT_STRUCT(Num, i8, u8, i16, u16, i32, u32, i64, u64, b, f, d, ou64, oi8)

struct Str
{
    std::string s;
    std::optional<std::string> os;
    std::vector<std::string> vs;
    std::map<std::string, std::string> ms;
    std::list<std::string> ls;
};
KL_REFLECT_STRUCT(Str, s, os, vs, ms, ls)

struct Enums
{
    Shade sh{};
    std::optional<Shade> osh;
    std::vector<Shade> vsh;
    std::map<std::string, Shade> msh;
    Unscoped us{};
    Flags fl;
    std::vector<Flags> vfl;
    std::optional<Flags> ofl;
    Raw8 r8{};
    Raw16 r16{};
    std::vector<Raw64> vr64;
    Perms pm;
    std::optional<Perms> opm;
};
KL_REFLECT_STRUCT(Enums, sh, osh, vsh, msh, us, fl, vfl, ofl, r8, r16, vr64, pm, opm)

struct Inner
{
    int a = 0;
    std::string b;
    std::optional<double> c;
};
KL_REFLECT_STRUCT(Inner, a, b, c)

struct Cont
{
    std::vector<int> vi;
    std::vector<bool> vb;
    std::deque<Inner> dq;
    std::list<int> li;
    std::array<int, 3> ar{};
    std::array<Inner, 2> ari;
    std::vector<std::vector<std::int16_t>> grid;
    std::vector<std::optional<int>> vo;
    std::optional<std::vector<int>> ov;
};
KL_REFLECT_STRUCT(Cont, vi, vb, dq, li, ar, ari, grid, vo, ov)

struct Maps
{
    std::map<std::string, int> mi;
    std::map<std::string, Inner> min;
    std::unordered_map<std::string, int> um;
    std::map<std::string, std::vector<Inner>> mv;
    std::map<std::string, std::map<std::string, int>> mm;
    std::map<std::string, std::optional<int>> mo;
    std::unordered_map<std::string, std::optional<Inner>> umo;
    std::optional<std::map<std::string, int>> om;
};
KL_REFLECT_STRUCT(Maps, mi, min, um, mv, mm, mo, umo, om)

struct Tup
{
    std::tuple<int, std::string, std::optional<bool>> t3;
    std::pair<std::string, double> pr;
    std::tuple<> t0;
    std::tuple<std::uint8_t> t1;
    std::vector<std::pair<int, int>> vp;
    std::tuple<Inner, std::array<bool, 2>> ti;
    std::optional<std::tuple<int, int>> ot;
    std::map<std::string, std::pair<int, Inner>> mp;
};
KL_REFLECT_STRUCT(Tup, t3, pr, t0, t1, vp, ti, ot, mp)

struct Base
{
    int base_a = 0;
    std::string base_b;
};
KL_REFLECT_STRUCT(Base, base_a, base_b)
struct Base2
{
    std::optional<int> base2;
};
KL_REFLECT_STRUCT(Base2, base2)
struct Derived : Base
{
    std::vector<int> own;
    double x = 0;
};
KL_REFLECT_STRUCT_DERIVED(Derived, Base, own, x)
struct Multi : Derived, Base2
{
    std::string last;
};
KL_REFLECT_STRUCT_DERIVED(Multi, (Derived, Base2), last)

struct Deep
{
    Inner in;
    std::optional<Inner> oin;
    Derived de;
    std::vector<Multi> vm;
    std::map<std::string, Derived> md;
    std::optional<Derived> od;
    std::vector<std::map<std::string, Inner>> vmi;
};
KL_REFLECT_STRUCT(Deep, in, oin, de, vm, md, od, vmi)

struct Custom
{
    Seconds s;
    std::optional<Seconds> os;
    std::vector<Celsius> vc;
    std::map<std::string, Seconds> ms;
    std::pair<Celsius, Seconds> p;
};
KL_REFLECT_STRUCT(Custom, s, os, vc, ms, p)

struct Tree
{
    int v = 0;
    std::string tag;
    std::vector<Tree> kids;
    std::map<std::string, Tree> named;
};
KL_REFLECT_STRUCT(Tree, v, tag, kids, named)

// ------------------------------------------------------------------------------- attributed
struct A1
{
    int a = 0;
    int b = 0;
    int c = 11;
    int d = 12;
    int e = 13;
    std::optional<int> f;
    std::optional<int> g;
    std::string h;
    std::vector<int> i;
    std::map<std::string, int> j;
    int k = 14;
    int l = 0;
    std::string m;
    int n = 0;
    int o = 0;
    double p = 0;
    std::optional<int> q;
};
KL_REFLECT_STRUCT(A1, (a, sa::rename("A")), (b, sa::aliases("b2", "B")), (c, sa::skip),
                  (d, sa::skip_serialization), (e, sa::skip_deserialization), (f, sa::skip_if_null),
                  (g, sa::emit_null), (h, sa::skip_if_empty), (i, sa::skip_if_empty), (j, sa::skip_if_empty),
                  (k, sa::allow_missing), (l, sa::default_value(7)), (m, sa::default_value(std::string{"dm"})),
                  (n, sa::range(0, 10)), (o, sa::greater_equal(-3)), (p, sa::less_equal(100.5)), q)

inline void check_even(int v)
{
    if (v % 2)
        throw kl::serialization::deserialize_error{"odd"};
}

struct A2
{
    int a = 5;
    int b = 0;
    std::optional<int> c;
    std::vector<int> d;
    int e = 0;
    int f = 0;
    std::optional<int> g;
    std::optional<int> h;
    std::string i;
    int j = 9;
    Inner k;
    std::vector<Inner> l;
    int m = 1;
    std::optional<Inner> n;
    std::optional<Inner> o;
    std::vector<int> p;
    Shade q{};
};
KL_REFLECT_STRUCT(A2, (a, sa::rename("x1"), sa::aliases("x2", "x3"), sa::allow_missing),
                  (b, sa::aliases("bb"), sa::default_value(42)), (c, sa::default_value(5)),
                  (d, sa::default_value(std::vector<int>{1, 2}), sa::skip_if_empty),
                  (e, sa::validate(&check_even), sa::range(-10, 10)),
                  (f, sa::default_value(-1), sa::range(0, 10)), (g, sa::range(0, 100)),
                  (h, sa::rename("hh"), sa::aliases("h1", "h2", "h3"), sa::skip_if_null),
                  (i, sa::skip_if_empty, sa::default_value(std::string{"dflt"})),
                  (j, sa::allow_missing, sa::default_value(77)), (k, sa::allow_missing, sa::aliases("kk")),
                  (l, sa::rename("items")), (m, sa::rename("mm"), sa::skip_deserialization),
                  (n, sa::emit_null, sa::rename("nn")), (o, sa::allow_missing, sa::skip_if_null),
                  (p, sa::skip_if_empty, sa::allow_missing),
                  (q, sa::default_value(Shade::dark), sa::aliases("shade")))

// several attributes on one member, and what a short sequence leaves out
struct A3
{
    int a = 0;
    std::vector<int> b;
    std::optional<int> c;
    std::optional<int> d;
    int e = 3;
    std::optional<int> f;
};
KL_REFLECT_STRUCT(A3, a, (b, sa::emit_null, sa::skip_if_empty, sa::allow_missing), (c, sa::skip_if_null, sa::emit_null),
                  (d, sa::validate([](const std::optional<int>& v) {
                       if (v && *v % 2)
                           throw kl::serialization::deserialize_error{"odd"};
                   })),
                  (e, sa::default_value(6), sa::less_equal(50), sa::greater_equal(-50), sa::allow_missing),
                  (f, sa::range(0, 100)))

// members left out in one direction, inside a flattened member
struct G1
{
    int ra = 0;
    int rb = 21;
    int rc = 22;
    int rd = 23;
};
KL_REFLECT_STRUCT(G1, (ra, sa::aliases("ra2")), (rb, sa::skip_deserialization, sa::aliases("rb2")), (rc, sa::skip),
                  (rd, sa::skip_serialization, sa::allow_missing, sa::rename("RD")))
struct FlSk
{
    G1 g;
    std::map<std::string, int> extra;
    int x = 0;
};
KL_REFLECT_STRUCT(FlSk, (g, sa::flatten), (extra, sa::extra_fields), (x, sa::default_value(2)))

// flatten
struct F2
{
    int fa = 0;
    std::optional<std::string> fb;
    int fc = 0;
    std::vector<int> fd;
};
KL_REFLECT_STRUCT(F2, (fa, sa::rename("Fa"), sa::aliases("fa_old")), fb, (fc, sa::default_value(3)),
                  (fd, sa::skip_if_empty, sa::allow_missing))
struct F3
{
    int ga = 0;
    F2 f2;
    std::string gb;
};
KL_REFLECT_STRUCT(F3, (ga, sa::range(-5, 1000)), (f2, sa::flatten), gb)
struct F4
{
    std::optional<int> ha;
};
KL_REFLECT_STRUCT(F4, ha)
struct Fl
{
    int head = 0;
    F3 f3;
    F4 f4;
    std::optional<int> tail;
};
KL_REFLECT_STRUCT(Fl, head, (f3, sa::flatten), (f4, sa::flatten), tail)

// extra fields
struct Ex
{
    int id = 0;
    std::map<std::string, int> extra;
    std::string name;
    int hidden = 4;
    std::optional<int> tail;
    int in_only = 0;
};
KL_REFLECT_STRUCT(Ex, id, (extra, sa::extra_fields), (name, sa::aliases("nm", "a")), (hidden, sa::skip), tail,
                  (in_only, sa::skip_serialization, sa::allow_missing))
struct ExOpt
{
    std::map<std::string, std::optional<int>> extra;
    std::optional<int> id;
};
KL_REFLECT_STRUCT(ExOpt, (extra, sa::extra_fields), (id, sa::rename("key")))
struct ExStruct
{
    int id = 0;
    std::map<std::string, Inner> extra;
};
KL_REFLECT_STRUCT(ExStruct, (id, sa::default_value(1)), (extra, sa::extra_fields))
struct ExVec
{
    std::map<std::string, std::vector<std::string>> extra;
};
KL_REFLECT_STRUCT(ExVec, (extra, sa::extra_fields))

// flatten together with an extra-fields map of the outer object
struct FlExOuter
{
    F2 f2;
    int x = 0;
    std::map<std::string, std::string> extra;
};
KL_REFLECT_STRUCT(FlExOuter, (f2, sa::flatten), x, (extra, sa::extra_fields))

// extra-fields map inside a flattened member
struct Fx
{
    int a = 0;
    std::map<std::string, int> extra;
};
KL_REFLECT_STRUCT(Fx, a, (extra, sa::extra_fields))
struct FlEx
{
    int x = 0;
    Fx in;
    std::string z;
};
KL_REFLECT_STRUCT(FlEx, x, (in, sa::flatten), (z, sa::aliases("zz", "k")))
struct FlEx3
{
    int y = 0;
    FlEx mid;
    std::optional<int> w;
};
KL_REFLECT_STRUCT(FlEx3, y, (mid, sa::flatten), w)

// attributes through inheritance
struct AB
{
    int id = 0;
    std::optional<int> note;
};
KL_REFLECT_STRUCT(AB, (id, sa::rename("_id"), sa::aliases("ident")), (note, sa::emit_null))
struct AD : AB
{
    std::string label;
    std::map<std::string, double> extra;
};
KL_REFLECT_STRUCT_DERIVED(AD, AB, (label, sa::default_value(std::string{"none"})), (extra, sa::extra_fields))

// attributed types nested in other types
struct AN
{
    std::vector<Ex> ve;
    std::map<std::string, Fl> mf;
    std::optional<A1> oa;
    Ex ex;
    FlExOuter fo;
    std::array<F2, 2> af;
    std::pair<F2, Ex> pr;
};
KL_REFLECT_STRUCT(AN, (ve, sa::skip_if_empty, sa::allow_missing), mf, oa, ex, (fo, sa::allow_missing), af, pr)

} // namespace jt

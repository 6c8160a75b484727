// Hand-written schema of the types in json_types.hpp, and the type-erased access used by the harnesses.
#pragma once

#include "json_types.hpp"

#include "jmodel.hpp"

namespace jm {

#define JM_ENUM(T, ...)                                                                            \
    struct T##_M : EnumM<jt::T, T##_M>                                                             \
    {                                                                                              \
        static std::vector<std::pair<std::string, jt::T>> table() { return {__VA_ARGS__}; }        \
    };                                                                                             \
    template <>                                                                                    \
    struct M<jt::T> : T##_M                                                                        \
    {                                                                                              \
    };
JM_ENUM(Shade, {"light", jt::Shade::light}, {"in_between", jt::Shade::mid}, {"dark", jt::Shade::dark})
JM_ENUM(Unscoped, {"us_a", jt::us_a}, {"us_b", jt::us_b})

template <typename Set, typename Derived>
struct SetM
{
    using U = typename Set::underlying_type;
    static SP schema()
    {
        auto s = mk<Set>(Kind::enum_set);
        for (auto& nv : Derived::table())
        {
            s->names.push_back(nv.first);
            s->bits.push_back(nv.second);
        }
        s->dflt = J::array();
        return s;
    }
    static J to(const Set& v)
    {
        J j = J::array();
        auto bits = static_cast<U>(v.underlying_value());
        auto rest = bits;
        for (auto& nv : Derived::table())
            if ((bits & nv.second) == nv.second)
            {
                j.a.push_back(J::string(nv.first));
                rest = static_cast<U>(rest & ~nv.second);
            }
        if (rest)
            j.a.push_back(J::num(rest));
        return j;
    }
    static void from(Set& v, const J& j)
    {
        U bits{};
        for (auto& e : j.a)
            for (auto& nv : Derived::table())
                if (nv.first == e.s)
                    bits = static_cast<U>(bits | nv.second);
        v = Set{static_cast<typename Set::enum_type>(bits)};
    }
};
template <>
struct M<jt::Flags> : SetM<jt::Flags, M<jt::Flags>>
{
    static std::vector<std::pair<std::string, uint16_t>> table()
    {
        return {{"none", 1}, {"x", 2}, {"read", 0x10}, {"write", 0x8000}};
    }
};
template <>
struct M<jt::Perms> : SetM<jt::Perms, M<jt::Perms>>
{
    static std::vector<std::pair<std::string, uint8_t>> table()
    {
        return {{"r", 1}, {"rw", 3}, {"w", 2}, {"x", 4}, {"everything", 7}, {"hi", 0x80}, {"edge", 0x81}};
    }
};

template <typename E, typename U>
struct RawM
{
    static SP schema() { return M<U>::schema(); }
    static J to(E e) { return J::num(static_cast<i128>(static_cast<U>(e))); }
    static void from(E& e, const J& j) { e = static_cast<E>(static_cast<U>(j.i)); }
};
template <>
struct M<jt::Raw8> : RawM<jt::Raw8, uint8_t>
{
};
template <>
struct M<jt::Raw16> : RawM<jt::Raw16, int16_t>
{
};
template <>
struct M<jt::Raw64> : RawM<jt::Raw64, int64_t>
{
};
template <>
struct M<jt::Seconds>
{
    static SP schema() { return M<int64_t>::schema(); }
    static J to(const jt::Seconds& s) { return J::num(s.n); }
    static void from(jt::Seconds& s, const J& j) { s.n = static_cast<int64_t>(j.i); }
};
template <>
struct M<jt::Celsius>
{
    static SP schema() { return M<double>::schema(); }
    static J to(const jt::Celsius& s) { return J::dbl(s.deg); }
    static void from(jt::Celsius& s, const J& j) { s.deg = j.d; }
};

#define JM_STRUCT(T)                                                                               \
    template <>                                                                                    \
    struct M<jt::T> : StructM<jt::T, M<jt::T>>                                                     \
    {                                                                                              \
        using T_ = jt::T;                                                                          \
        static void describe(Builder<jt::T>& b);                                                   \
    };                                                                                             \
    inline void M<jt::T>::describe(Builder<jt::T>& b)
#define F_(x) b.f(#x, &T_::x)

JM_STRUCT(Num)
{
    F_(i8), F_(u8), F_(i16), F_(u16), F_(i32), F_(u32), F_(i64), F_(u64), F_(b), F_(f), F_(d), F_(ou64), F_(oi8);
}
JM_STRUCT(Str) { F_(s), F_(os), F_(vs), F_(ms), F_(ls); }
JM_STRUCT(Enums)
{
    F_(sh), F_(osh), F_(vsh), F_(msh), F_(us), F_(fl), F_(vfl), F_(ofl), F_(r8), F_(r16), F_(vr64), F_(pm), F_(opm);
}
JM_STRUCT(Inner) { F_(a), F_(b), F_(c); }
JM_STRUCT(Cont) { F_(vi), F_(vb), F_(dq), F_(li), F_(ar), F_(ari), F_(grid), F_(vo), F_(ov); }
JM_STRUCT(Maps) { F_(mi), F_(min), F_(um), F_(mv), F_(mm), F_(mo), F_(umo), F_(om); }
JM_STRUCT(Tup) { F_(t3), F_(pr), F_(t0), F_(t1), F_(vp), F_(ti), F_(ot), F_(mp); }
JM_STRUCT(Derived) { F_(base_a), F_(base_b), F_(own), F_(x); }
JM_STRUCT(Multi) { F_(base_a), F_(base_b), F_(own), F_(x), F_(base2), F_(last); }
JM_STRUCT(Deep) { F_(in), F_(oin), F_(de), F_(vm), F_(md), F_(od), F_(vmi); }
JM_STRUCT(Custom) { F_(s), F_(os), F_(vc), F_(ms), F_(p); }

template <>
struct M<jt::Tree>
{
    static SP schema()
    {
        auto s = mk<jt::Tree>(Kind::strct);
        auto kids = mk<jt::Tree>(Kind::seq);
        kids->of = s; // cyclic on purpose, lives for the whole run
        kids->dflt = J::array();
        auto named = mk<jt::Tree>(Kind::map);
        named->of = s;
        named->dflt = J::object();
        auto add = [&](const char* n, SP t) {
            Field f;
            f.id = f.name = n;
            f.type = std::move(t);
            s->fields.push_back(f);
        };
        add("v", schema_of<int>());
        add("tag", schema_of<std::string>());
        add("kids", kids);
        add("named", named);
        s->dflt = to({});
        return s;
    }
    static J to(const jt::Tree& t)
    {
        J j = J::object();
        j.put("v", J::num(t.v));
        j.put("tag", J::string(t.tag));
        J k = J::array();
        for (auto& e : t.kids)
            k.a.push_back(to(e));
        j.put("kids", std::move(k));
        J n = J::object();
        for (auto& [key, e] : t.named)
            n.put(key, to(e));
        j.put("named", std::move(n));
        return j;
    }
    static void from(jt::Tree& t, const J& j)
    {
        t = {};
        t.v = static_cast<int>(j.at("v").i);
        t.tag = j.at("tag").s;
        for (auto& e : j.at("kids").a)
        {
            t.kids.emplace_back();
            from(t.kids.back(), e);
        }
        for (auto& [k, e] : j.at("named").o)
            from(t.named[k], e);
    }
};

inline std::function<bool(const J&)> in_range(i128 lo, i128 hi)
{
    return [=](const J& v) { return v.k == J::integer && v.i >= lo && v.i <= hi; };
}

JM_STRUCT(A1)
{
    F_(a).rename("A");
    F_(b).aliases("b2", "B");
    F_(c).skip();
    F_(d).skip_ser();
    F_(e).skip_de();
    F_(f).skip_if_null();
    F_(g).emit_null();
    F_(h).skip_if_empty();
    F_(i).skip_if_empty();
    F_(j).skip_if_empty();
    F_(k).allow_missing();
    F_(l).def(J::num(7));
    F_(m).def(J::string("dm"));
    F_(n).valid(in_range(0, 10));
    F_(o).valid([](const J& v) { return v.i >= -3; });
    F_(p).valid([](const J& v) { return !(v.d > 100.5); });
    F_(q);
}
inline J ints(std::initializer_list<int> l)
{
    J j = J::array();
    for (int x : l)
        j.a.push_back(J::num(x));
    return j;
}
JM_STRUCT(A2)
{
    F_(a).rename("x1").aliases("x2", "x3").allow_missing();
    F_(b).aliases("bb").def(J::num(42));
    F_(c).def(J::num(5));
    F_(d).def(ints({1, 2})).skip_if_empty();
    F_(e).valid([](const J& v) { return v.i % 2 == 0; }).valid(in_range(-10, 10));
    F_(f).def(J::num(-1)).valid(in_range(0, 10));
    F_(g).valid(in_range(0, 100)); // an empty optional compares below the minimum
    F_(h).rename("hh").aliases("h1", "h2", "h3").skip_if_null();
    F_(i).skip_if_empty().def(J::string("dflt"));
    F_(j).allow_missing().def(J::num(77));
    F_(k).allow_missing().aliases("kk");
    F_(l).rename("items");
    F_(m).rename("mm").skip_de();
    F_(n).emit_null().rename("nn");
    F_(o).allow_missing().skip_if_null();
    F_(p).skip_if_empty().allow_missing();
    F_(q).def(J::string("dark")).aliases("shade");
}
JM_STRUCT(A3)
{
    F_(a);
    F_(b).emit_null().skip_if_empty().allow_missing();
    F_(c).skip_if_null().emit_null();
    F_(d).valid([](const J& v) { return v.k != J::integer || v.i % 2 == 0; });
    F_(e).def(J::num(6)).valid(in_range(-50, 50)).allow_missing();
    F_(f).valid(in_range(0, 100));
}
JM_STRUCT(G1)
{
    F_(ra).aliases("ra2");
    F_(rb).skip_de().aliases("rb2");
    F_(rc).skip();
    F_(rd).skip_ser().allow_missing().rename("RD");
}
JM_STRUCT(FlSk)
{
    F_(g).flatten();
    F_(extra).extra();
    F_(x).def(J::num(2));
}
JM_STRUCT(F2)
{
    F_(fa).rename("Fa").aliases("fa_old");
    F_(fb);
    F_(fc).def(J::num(3));
    F_(fd).skip_if_empty().allow_missing();
}
JM_STRUCT(F3)
{
    F_(ga).valid(in_range(-5, 1000));
    F_(f2).flatten();
    F_(gb);
}
JM_STRUCT(F4) { F_(ha); }
JM_STRUCT(Fl)
{
    F_(head);
    F_(f3).flatten();
    F_(f4).flatten();
    F_(tail);
}
JM_STRUCT(Ex)
{
    F_(id);
    F_(extra).extra();
    F_(name).aliases("nm", "a");
    F_(hidden).skip();
    F_(tail);
    F_(in_only).skip_ser().allow_missing();
}
JM_STRUCT(ExOpt)
{
    F_(extra).extra();
    F_(id).rename("key");
}
JM_STRUCT(ExStruct)
{
    F_(id).def(J::num(1));
    F_(extra).extra();
}
JM_STRUCT(ExVec) { F_(extra).extra(); }
JM_STRUCT(FlExOuter)
{
    F_(f2).flatten();
    F_(x);
    F_(extra).extra();
}
JM_STRUCT(Fx)
{
    F_(a);
    F_(extra).extra();
}
JM_STRUCT(FlEx)
{
    F_(x);
    F_(in).flatten();
    F_(z).aliases("zz", "k");
}
JM_STRUCT(FlEx3)
{
    F_(y);
    F_(mid).flatten();
    F_(w);
}
JM_STRUCT(AD)
{
    F_(id).rename("_id").aliases("ident");
    F_(note).emit_null();
    F_(label).def(J::string("none"));
    F_(extra).extra();
}
JM_STRUCT(AN)
{
    F_(ve).skip_if_empty().allow_missing();
    F_(mf);
    F_(oa);
    F_(ex);
    F_(fo).allow_missing();
    F_(af);
    F_(pr);
}
#undef F_

} // namespace jm

namespace jt {

using jm::J;

// Type-erased value.  The operations throw what the library throws.
struct Holder
{
    virtual ~Holder() = default;
    virtual void set(const J&) = 0;
    virtual J get() const = 0;
    // ctx 0: json::serialize(v) (skip only), 1: serialize_context, 2: owning_serialize_context
    virtual J tree(bool skip, int ctx) { throw pbt::Failure("harness: op not built"); }
    virtual std::string text(bool skip, bool pretty, bool shortcut) { throw pbt::Failure("harness: op not built"); }
    virtual void read(const rapidjson::Value&, int how) { throw pbt::Failure("harness: op not built"); }
    virtual void patch(const rapidjson::Value&, int how) { throw pbt::Failure("harness: op not built"); }
#ifdef J_YAML
    virtual YAML::Node ytree(bool skip) { throw pbt::Failure("harness: op not built"); }
    virtual std::string ytext(bool skip, bool shortcut) { throw pbt::Failure("harness: op not built"); }
    virtual void yread(const YAML::Node&) { throw pbt::Failure("harness: op not built"); }
    virtual void ypatch(const YAML::Node&) { throw pbt::Failure("harness: op not built"); }
#endif
};

template <typename T>
struct HolderT : Holder
{
    T v{};
    void set(const J& j) override { jm::from_j(v, j); }
    J get() const override { return jm::to_j(v); }

#ifdef J_OUT
    J tree(bool skip, int ctx) override
    {
        // the value is gone before the document is inspected
        auto copy = std::make_unique<T>(v);
        if (ctx == 0 && skip)
        {
            rapidjson::Document d = kl::json::serialize(*copy);
            copy.reset();
            return jm::from_rj(d);
        }
        if (ctx == 1)
        {
            rapidjson::Document d;
            kl::json::serialize_context c{d, skip};
            rapidjson::Value x = kl::json::serialize(*copy, c);
            copy.reset();
            return jm::from_rj(x);
        }
        kl::json::owning_serialize_context c{skip};
        rapidjson::Value x = kl::json::serialize(*copy, c);
        copy.reset();
        return jm::from_rj(x);
    }
    std::string text(bool skip, bool pretty, bool shortcut) override
    {
        if (shortcut && skip)
            return pretty ? kl::json::pretty_dump(v) : kl::json::dump(v);
        rapidjson::StringBuffer buf;
        if (pretty)
        {
            rapidjson::PrettyWriter<rapidjson::StringBuffer> w{buf};
            kl::json::dump_context ctx{w, skip};
            kl::json::dump(v, ctx);
        }
        else
        {
            rapidjson::Writer<rapidjson::StringBuffer> w{buf};
            kl::json::dump_context ctx{w, skip};
            kl::json::dump(v, ctx);
        }
        return {buf.GetString(), buf.GetSize()};
    }
#endif
#ifdef J_IN
    void read(const rapidjson::Value& x, int how) override
    {
        if (how == 0)
            kl::json::deserialize(v, x);
        else if (how == 1)
            v = kl::json::deserialize<T>(x);
        else
        {
            kl::json::deserialize_context ctx;
            kl::json::deserialize(v, x, ctx);
        }
    }
#endif
#ifdef J_PATCH
    void patch(const rapidjson::Value& x, int how) override
    {
        if (how == 0)
            kl::json::patch(v, x);
        else
        {
            kl::json::deserialize_context ctx;
            kl::serialization::patch(v, x, ctx);
        }
    }
#endif
#ifdef J_YAML
    YAML::Node ytree(bool skip) override
    {
        kl::yaml::serialize_context ctx{skip};
        return kl::yaml::serialize(v, ctx);
    }
    std::string ytext(bool skip, bool shortcut) override
    {
        if (skip && shortcut)
            return kl::yaml::dump(v);
        YAML::Emitter em;
        kl::yaml::dump_context ctx{em, skip};
        kl::yaml::dump(v, ctx);
        if (!em.good())
            throw pbt::Failure("emitter error: " + em.GetLastError());
        return {em.c_str(), em.size()};
    }
    void yread(const YAML::Node& n) override { kl::yaml::deserialize(v, n); }
    void ypatch(const YAML::Node& n) override { kl::yaml::patch(v, n); }
#endif
};

struct Type
{
    const char* name;
    jm::SP schema;
    std::unique_ptr<Holder> (*make)();
    unsigned weight;
};
using Types = std::vector<Type>;

template <typename T>
void add(Types& ts, const char* name, unsigned weight = 4)
{
    ts.push_back({name, jm::schema_of<T>(), [] { return std::unique_ptr<Holder>(new HolderT<T>); }, weight});
}

void reg_plain1(Types&);
void reg_plain2(Types&);
void reg_plain3(Types&);
void reg_plain4(Types&);
void reg_attr1(Types&);
void reg_attr2(Types&);
void reg_attr3(Types&);
inline const Types& plain_types()
{
    static Types ts = [] {
        Types t;
        reg_plain1(t);
        reg_plain2(t);
        reg_plain3(t);
        reg_plain4(t);
        return t;
    }();
    return ts;
}
inline const Types& attr_types()
{
    static Types ts = [] {
        Types t;
        reg_attr1(t);
        reg_attr2(t);
        reg_attr3(t);
        return t;
    }();
    return ts;
}
inline const Type& pick_type(pbt::Choices& c, const Types& ts)
{
    unsigned total = 0;
    for (auto& t : ts)
        total += t.weight;
    auto r = c.below(total);
    for (auto& t : ts)
    {
        if (r < t.weight)
            return t;
        r -= t.weight;
    }
    return ts.back();
}

} // namespace jt

// C27: struct reflection reports every declared field once, in order, by reference.
#include <cstdint>
#include <array>
#include <map>
#include <optional>
#include <string>
#include <typeinfo>
#include <vector>
#include "pbt.hpp"
#include "kl/ctti.hpp"
#include "kl/reflect_struct.hpp"

#include <boost/preprocessor/repetition/repeat.hpp>
#include <boost/preprocessor/repetition/enum.hpp>

const char* const property_rule = "the type has at least three reflected fields and a field is written through its reference";

namespace at {
struct base_attr { int v = 0; };
struct derived_attr : base_attr { derived_attr(int x) : base_attr{x} {} };
struct more_derived : derived_attr { using derived_attr::derived_attr; };
struct tag_attr { static constexpr int v = -1; };
struct text_attr { std::string s; int v = -2; text_attr(std::string x) : s(std::move(x)) {} };
struct unused_attr { int v; };
} // namespace at

namespace {

// --- values ---------------------------------------------------------------------------------------
void fill(pbt::Choices& c, int& x) { x = c.integer<int>(); }
void fill(pbt::Choices& c, bool& x) { x = c.flip(); }
void fill(pbt::Choices& c, char& x) { x = static_cast<char>(c.draw(128)); }
void fill(pbt::Choices& c, unsigned long long& x) { x = c.integer<unsigned long long>(); }
void fill(pbt::Choices& c, std::int8_t& x) { x = c.integer<std::int8_t>(); }
void fill(pbt::Choices& c, double& x) { x = c.range(-1000, 1000) / 8.0; }
void fill(pbt::Choices& c, std::string& x) { x = c.over("abc", 20); }
template <typename T, size_t N>
void fill(pbt::Choices& c, std::array<T, N>& x)
{
    for (auto& e : x)
        fill(c, e);
}
template <typename T>
void fill(pbt::Choices& c, std::vector<T>& x)
{
    x.resize(c.below(4));
    for (auto& e : x)
        fill(c, e);
}
template <typename T>
void fill(pbt::Choices& c, std::optional<T>& x)
{
    x.reset();
    if (c.flip())
        fill(c, x.emplace());
}

template <typename T>
std::string show(const T& x)
{
    std::ostringstream ss;
    if constexpr (std::is_same_v<T, std::int8_t> || std::is_same_v<T, char>)
        ss << +x;
    else
        ss << x;
    return ss.str();
}
template <typename T>
std::string show(const std::vector<T>& x)
{
    std::string r = "[";
    for (auto& e : x)
        r += show(e) + ",";
    return r + "]";
}
template <typename T, size_t N>
std::string show(const std::array<T, N>& x)
{
    return show(std::vector<T>(x.begin(), x.end()));
}
template <typename T>
std::string show(const std::optional<T>& x)
{
    return x ? "some " + show(*x) : "none";
}

// --- the hand-written description -------------------------------------------------------------------
struct Attr
{
    const std::type_info* type;
    int v;
    std::string s;
    bool operator==(const Attr& o) const { return *type == *o.type && v == o.v && s == o.s; }
};
template <typename A>
Attr attr(const A& a)
{
    Attr r{&typeid(A), a.v, ""};
    if constexpr (std::is_same_v<A, at::text_attr>)
        r.s = a.s;
    return r;
}

struct FD
{
    const char* name;
    const std::type_info* type;
    const void* addr;
    std::string value;
    std::vector<Attr> attrs;
    bool always_mutable = false; // reference member: constness of the object does not reach it
    bool always_const = false;
};
using Desc = std::vector<FD>;

template <typename T>
FD fd(const char* name, const T& member, std::vector<Attr> attrs = {})
{
    return FD{name, &typeid(T), &member, show(member), std::move(attrs)};
}
Desc operator+(Desc a, const Desc& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

// --- shapes -----------------------------------------------------------------------------------------
struct One
{
    int only{};
    Desc describe() const { return {fd("only", only)}; }
    void randomize(pbt::Choices& c) { fill(c, only); }
};
KL_REFLECT_STRUCT(One, only)

struct Plain
{
    int i{};
    bool b{};
    double d{};
    std::string s;
    int hidden{}; // not reflected
    std::vector<int> v;
    Desc describe() const { return {fd("i", i), fd("b", b), fd("d", d), fd("s", s), fd("v", v)}; }
    void randomize(pbt::Choices& c) { fill(c, i), fill(c, b), fill(c, d), fill(c, s), fill(c, hidden), fill(c, v); }
};
KL_REFLECT_STRUCT(Plain, i, b, d, s, v)

// declared in another order than the members, same-typed neighbours
struct Shuffled
{
    int a{}, b{}, c{}, d{};
    Desc describe() const { return {fd("c", c), fd("a", a), fd("d", d), fd("b", b)}; }
    void randomize(pbt::Choices& ch) { fill(ch, a), fill(ch, b), fill(ch, c), fill(ch, d); }
};
KL_REFLECT_STRUCT(Shuffled, c, a, d, b)

struct Derived : Plain
{
    unsigned long long ull{};
    std::array<int, 3> arr{};
    Desc describe() const { return Plain::describe() + Desc{fd("ull", ull), fd("arr", arr)}; }
    void randomize(pbt::Choices& c) { Plain::randomize(c), fill(c, ull), fill(c, arr); }
};
KL_REFLECT_STRUCT_DERIVED(Derived, Plain, ull, arr)

struct Other
{
    char ch{};
    int i{}; // same name as in Plain
    Desc describe() const { return {fd("ch", ch), fd("i", i)}; }
    void randomize(pbt::Choices& c) { fill(c, ch), fill(c, i); }
};
KL_REFLECT_STRUCT(Other, ch, i)

struct Multi : Derived, Other, private One
{
    std::optional<int> opt;
    Desc describe() const { return Derived::describe() + Other::describe() + Desc{fd("opt", opt)}; }
    void randomize(pbt::Choices& c) { Derived::randomize(c), Other::randomize(c), fill(c, opt); }
};
KL_REFLECT_STRUCT_DERIVED(Multi, (Derived, Other), opt)

struct ReverseBases : Plain, Other
{
    double last{};
    Desc describe() const { return Other::describe() + Plain::describe() + Desc{fd("last", last)}; }
    void randomize(pbt::Choices& c) { Plain::randomize(c), Other::randomize(c), fill(c, last); }
};
KL_REFLECT_STRUCT_DERIVED(ReverseBases, (Other, Plain), last)

class Private
{
public:
    Desc describe() const { return {fd("x_", x_), fd("y_", y_), fd("z_", z_)}; }
    void randomize(pbt::Choices& c) { fill(c, x_), fill(c, y_), fill(c, z_); }
    virtual ~Private() = default;

private:
    int x_{};
    std::string y_;
    std::int8_t z_{};
    KL_REFLECT_STRUCT_FRIEND(Private, x_, y_, z_)
};

class PrivateDerived : public Private
{
public:
    Desc describe() const { return Private::describe() + Desc{fd("w_", w_)}; }
    void randomize(pbt::Choices& c) { Private::randomize(c), fill(c, w_); }

private:
    double w_{};
    KL_REFLECT_STRUCT_DERIVED_FRIEND(PrivateDerived, Private, w_)
};

struct Attributed
{
    int none{};
    int one{};
    std::string two;
    bool many{};
    double text{};
    Desc describe() const
    {
        return {fd("none", none),
                fd("one", one, {attr(at::base_attr{7})}),
                fd("two", two, {attr(at::tag_attr{}), attr(at::derived_attr{9})}),
                fd("many", many, {attr(at::more_derived{1}), attr(at::base_attr{2}), attr(at::tag_attr{}), attr(at::derived_attr{3})}),
                fd("text", text, {attr(at::text_attr{"some, text"}), attr(at::tag_attr{})})};
    }
    void randomize(pbt::Choices& c) { fill(c, none), fill(c, one), fill(c, two), fill(c, many), fill(c, text); }
};
KL_REFLECT_STRUCT(Attributed, none, (one, at::base_attr{7}), (two, at::tag_attr{}, at::derived_attr{9}),
                  (many, at::more_derived{1}, at::base_attr{2}, at::tag_attr{}, at::derived_attr{3}),
                  (text, at::text_attr{"some, text"}, at::tag_attr{}))

struct AttributedDerived : Attributed
{
    int extra{};
    Desc describe() const { return Attributed::describe() + Desc{fd("extra", extra, {attr(at::derived_attr{55})})}; }
    void randomize(pbt::Choices& c) { Attributed::randomize(c), fill(c, extra); }
};
KL_REFLECT_STRUCT_DERIVED(AttributedDerived, Attributed, (extra, at::derived_attr{55}))

struct Accessors
{
    int a{};
    int& ref_a = a;
    const int& cref_a = a;
    One nested;
    std::string s;
    double b{};
    One nested2;
    bool last{};
    Accessors() = default;
    Accessors(const Accessors&) = delete;
    Desc describe() const
    {
        Desc d{fd("a", a), fd("ref_a", a), fd("cref_a", a), fd("inner", nested.only), fd("s", s)};
        d[1].always_mutable = true;
        d[2].always_const = true;
        d.push_back(fd("b", b, {attr(at::base_attr{7})}));
        d.push_back(fd("deep", nested2.only, {attr(at::text_attr{"t"}), attr(at::more_derived{4}), attr(at::base_attr{5})}));
        d.push_back(fd("last", last));
        return d;
    }
    void randomize(pbt::Choices& c) { fill(c, a), fill(c, nested.only), fill(c, s), fill(c, b), fill(c, nested2.only), fill(c, last); }
};
template <typename Factory, typename Visitor>
[[maybe_unused]] constexpr void reflect_struct_fields(Factory&& factory, Visitor&& vis, ::kl::ctti::record_class<Accessors>)
{
    vis(KL_ACCESSOR_FIELD(a));
    vis(KL_ACCESSOR_FIELD(ref_a));
    vis(KL_ACCESSOR_FIELD(cref_a));
    vis(KL_ACCESSOR_FIELD_NAMED("inner", object.nested.only));
    vis(KL_ACCESSOR_FIELD(s));
    vis(factory.accessor("b", [](auto& o) -> auto& { return o.b; }, [] { return at::base_attr{7}; }));
    vis(factory.accessor("deep", [](auto& o) -> auto& { return o.nested2.only; }, [] { return at::text_attr{"t"}; },
                         [] { return at::more_derived{4}; }, [] { return at::base_attr{5}; }));
    vis(factory.template field<&Accessors::last>("last"));
}
[[maybe_unused]] constexpr std::size_t reflect_num_fields(::kl::ctti::record_class<Accessors>) noexcept { return 8; }

struct AccessorsDerived : Accessors
{
    int own{};
    Desc describe() const { return Accessors::describe() + Desc{fd("own", own, {attr(at::tag_attr{})})}; }
    void randomize(pbt::Choices& c) { Accessors::randomize(c), fill(c, own); }
};
KL_REFLECT_STRUCT_DERIVED(AccessorsDerived, Accessors, (own, at::tag_attr{}))

#define WIDE_MEMBER(z, n, text) int BOOST_PP_CAT(m, n){};
#define WIDE_NAME(z, n, text) BOOST_PP_CAT(m, n)
#define WIDE_FD(z, n, text) fd(BOOST_PP_STRINGIZE(BOOST_PP_CAT(m, n)), BOOST_PP_CAT(m, n))
#define WIDE_FILL(z, n, text) fill(c, BOOST_PP_CAT(m, n));
struct Wide
{
    BOOST_PP_REPEAT(64, WIDE_MEMBER, ~)
    Desc describe() const { return {BOOST_PP_ENUM(64, WIDE_FD, ~)}; }
    void randomize(pbt::Choices& c) { BOOST_PP_REPEAT(64, WIDE_FILL, ~) }
};
KL_REFLECT_STRUCT(Wide, BOOST_PP_ENUM(64, WIDE_NAME, ~))

struct NotReflected
{
    int x;
};

// --- checks -----------------------------------------------------------------------------------------
// Everything a field reports, gathered with little code per field type; compared without templates.
struct Query
{
    const std::type_info* type;
    bool has;
    const int* got = nullptr; // value of get<A>()
    int got_v = 0;
    std::vector<Attr> visited;
};
struct Rec
{
    std::string name;
    const void* addr = nullptr;
    std::string value;
    const std::type_info* type = nullptr;
    const std::type_info* value_type = nullptr;
    bool is_const = false;
    std::vector<Query> queries;
    std::vector<Attr> attrs;
};

bool is_or_derives(const Attr& a, const std::type_info& q)
{
    // "exact type or derived from it", spelled out for the attribute family
    auto is = [&](const std::type_info& t) { return *a.type == t; };
    if (q == typeid(at::base_attr))
        return is(typeid(at::base_attr)) || is(typeid(at::derived_attr)) || is(typeid(at::more_derived));
    if (q == typeid(at::derived_attr))
        return is(typeid(at::derived_attr)) || is(typeid(at::more_derived));
    return is(q);
}
template <typename A>
bool matches(const Attr& a)
{
    return is_or_derives(a, typeid(A));
}

struct Push
{
    std::vector<Attr>& to;
    template <typename A>
    void operator()(const A& a) const
    {
        to.push_back(attr(a));
    }
};

template <typename A, typename Field>
void query(const Field& f, Rec& r)
{
    Query q{&typeid(A), Field::template has<A>()};
    if (const A* p = f.template get<A>())
    {
        q.got = &q.got_v;
        q.got_v = p->v;
    }
    f.template visit_attributes<A>(Push{q.visited});
    r.queries.push_back(std::move(q));
}

template <typename Field>
void gather_data(const Field& f, Rec& r)
{
    query<at::base_attr>(f, r);
    query<at::derived_attr>(f, r);
    query<at::more_derived>(f, r);
    query<at::tag_attr>(f, r);
    query<at::text_attr>(f, r);
    query<at::unused_attr>(f, r);
    f.visit_attributes(Push{r.attrs});
}

void compare_attrs(const Rec& r, const FD& want, const char* where)
{
    PBT_CHECK(r.attrs == want.attrs, where << ": visit_attributes of " << want.name << " visits " << r.attrs.size() << " attributes, expected " << want.attrs.size());
    for (auto& q : r.queries)
    {
        std::vector<Attr> m;
        for (auto& a : want.attrs)
            if (is_or_derives(a, *q.type))
                m.push_back(a);
        PBT_EQ(q.has, !m.empty(), where << ": has<" << q.type->name() << "> of " << want.name);
        PBT_EQ(q.got != nullptr, !m.empty(), where << ": get<" << q.type->name() << "> of " << want.name);
        if (q.got)
            PBT_EQ(q.got_v, m[0].v, where << ": value of get<" << q.type->name() << "> of " << want.name);
        PBT_CHECK(q.visited == m, where << ": visit_attributes<" << q.type->name() << "> of " << want.name << " visits " << q.visited.size() << " attributes, expected " << m.size());
    }
}

struct ObjectVisitor
{
    std::vector<Rec>& out;
    bool attrs;
    template <typename Field>
    void operator()(Field field) const
    {
        using V = decltype(field.value());
        Rec r;
        r.name = field.name();
        if constexpr (std::is_lvalue_reference_v<V>)
            r.addr = &field.value();
        else
            PBT_FAIL("field " << r.name << " is not reported by reference");
        r.value = show(field.value());
        r.type = &typeid(V);
        r.value_type = &typeid(typename Field::value_type);
        r.is_const = std::is_const_v<std::remove_reference_t<V>>;
        if (attrs)
            gather_data(field, r);
        out.push_back(std::move(r));
    }
};
struct BareVisitor // for the wide type: names and addresses only
{
    std::vector<Rec>& out;
    template <typename Field>
    void operator()(Field field) const
    {
        Rec r;
        r.name = field.name();
        r.addr = &field.value();
        out.push_back(std::move(r));
    }
};
struct TypeVisitor
{
    std::vector<Rec>& out;
    template <typename Field>
    void operator()(Field field) const
    {
        Rec r;
        r.name = field.name();
        r.value_type = &typeid(typename Field::value_type);
        gather_data(field, r);
        out.push_back(std::move(r));
    }
};
struct BareTypeVisitor
{
    std::vector<Rec>& out;
    template <typename Field>
    void operator()(Field field) const
    {
        Rec r;
        r.name = field.name();
        out.push_back(std::move(r));
    }
};

void compare(const std::vector<Rec>& got, const Desc& d, bool object, bool is_const, bool bare, const char* where)
{
    for (size_t i = 0; i < got.size(); ++i)
    {
        PBT_CHECK(i < d.size(), where << ": more fields visited than declared");
        const FD& w = d[i];
        const Rec& r = got[i];
        PBT_EQ(r.name, std::string(w.name), where << ": name of field " << i);
        if (object)
            PBT_CHECK(r.addr == w.addr, where << ": field " << w.name << " refers to another object");
        if (bare)
            continue;
        PBT_CHECK(*r.value_type == *w.type, where << ": value_type of field " << w.name);
        if (object)
        {
            PBT_EQ(r.value, w.value, where << ": value of field " << w.name);
            PBT_CHECK(*r.type == *w.type, where << ": type of field " << w.name);
            PBT_EQ(r.is_const, w.always_const || (is_const && !w.always_mutable), where << ": constness of field " << w.name);
        }
        compare_attrs(r, w, where);
    }
    PBT_EQ(got.size(), d.size(), where << ": number of fields visited");
}

template <typename Obj>
void visit_object(Obj& o, const Desc& d, const char* where)
{
    std::vector<Rec> got;
    kl::ctti::reflect_object(o, ObjectVisitor{got, true});
    compare(got, d, true, std::is_const_v<Obj>, false, where);
}

template <typename T, typename Filter>
void visit_type(Desc d, const char* where, bool (*keep)(const Attr&))
{
    std::vector<Rec> got;
    kl::ctti::reflect_type<T, Filter>(TypeVisitor{got});
    for (auto& f : d)
    {
        std::vector<Attr> kept;
        for (auto& a : f.attrs)
            if (keep(a))
                kept.push_back(a);
        f.attrs = kept;
    }
    compare(got, d, false, false, false, where);
}

template <typename T, typename... As>
void check_any(const Desc& d, const char* where)
{
    bool want = false;
    for (auto& f : d)
        for (auto& a : f.attrs)
            want |= (matches<As>(a) || ...);
    bool got = kl::ctti::has_any_attribute<T, As...>();
    PBT_EQ(got, want, where << ": has_any_attribute");
}

template <typename T>
void shape(pbt::Choices& c, const char* name)
{
    c.label(name);
    T o;
    o.randomize(c);
    Desc d = o.describe();
    if (d.size() >= 3)
        c.nontrivial();
    PBT_CHECK(kl::ctti::is_reflectable_v<T> && kl::ctti::is_reflectable<T>::value, name << ": is_reflectable");
    PBT_CHECK((!kl::ctti::is_reflectable_v<NotReflected> && !kl::ctti::is_reflectable_v<int>), "is_reflectable of types without reflection");
    PBT_EQ(kl::ctti::num_fields<T>(), d.size(), name << ": num_fields");
    PBT_EQ(kl::ctti::num_fields<const T&>(), d.size(), name << ": num_fields of a reference type");
    visit_object(o, d, name);
    const T& co = o;
    visit_object(co, d, name);

    // type-level view
    visit_type<T, kl::ctti::all_attributes_filter>(d, name, [](const Attr&) { return true; });
    visit_type<const T&, kl::ctti::any_attribute_filter<at::base_attr>>(d, name, [](const Attr& a) { return matches<at::base_attr>(a); });
    visit_type<T, kl::ctti::any_attribute_filter<at::derived_attr, at::tag_attr>>(d, name, [](const Attr& a) { return matches<at::derived_attr>(a) || matches<at::tag_attr>(a); });
    visit_type<T, kl::ctti::any_attribute_filter<>>(d, name, [](const Attr&) { return false; });
    check_any<T, at::base_attr>(d, name);
    check_any<T, at::derived_attr>(d, name);
    check_any<T, at::more_derived>(d, name);
    check_any<T, at::tag_attr, at::unused_attr>(d, name);
    check_any<T, at::unused_attr>(d, name);
    check_any<T, at::unused_attr, at::text_attr>(d, name);
    PBT_CHECK(kl::ctti::name<T>().find(name) != std::string::npos, "ctti::name of " << name << " is " << kl::ctti::name<T>());
    PBT_EQ(kl::ctti::name<const T&>(), kl::ctti::name<T>(), "ctti::name of a reference to " << name);

    // write through drawn fields; exactly that member changes
    while (c.more(3))
    {
        size_t at = c.below(d.size());
        c.log() << name << ": write field " << d[at].name << "\n";
        size_t i = 0;
        std::string written;
        bool done = false;
        kl::ctti::reflect_object(o, [&](auto field) {
            if (i++ == at)
            {
                if constexpr (!std::is_const_v<std::remove_reference_t<decltype(field.value())>>)
                {
                    auto copy = field; // a field is a handle: copies refer to the same member
                    fill(c, copy.value());
                    written = show(field.value());
                    done = true;
                }
            }
        });
        if (!done)
            continue;
        Desc n = o.describe();
        for (size_t k = 0; k < d.size(); ++k)
        {
            bool same_member = n[k].addr == d[at].addr;
            PBT_EQ(n[k].value, same_member ? written : d[k].value, name << ": field " << n[k].name << " after writing " << d[at].name);
        }
        d = n;
        visit_object(o, d, name);
    }
}

void wide(pbt::Choices& c)
{
    // as many fields as the macro takes
    c.label("Wide");
    c.nontrivial();
    Wide w;
    w.randomize(c);
    Desc d = w.describe();
    c.log() << "Wide: 64 fields\n";
    PBT_EQ(kl::ctti::num_fields<Wide>(), size_t{64}, "num_fields of Wide");
    std::vector<Rec> got;
    kl::ctti::reflect_object(w, BareVisitor{got});
    compare(got, d, true, false, true, "Wide");
    got.clear();
    kl::ctti::reflect_type<Wide>(BareTypeVisitor{got});
    compare(got, d, false, false, true, "Wide (type)");
}

void temporaries(pbt::Choices& c)
{
    // reflecting a temporary works for the duration of the call
    c.label("temporary");
    int v = c.integer<int>();
    int seen = 0;
    kl::ctti::reflect_object(One{v}, [&](auto field) { seen = field.value(); });
    PBT_EQ(seen, v, "value of a reflected temporary");
    // a base sub-object reflects only the base's fields
    Multi m;
    m.randomize(c);
    Plain& p = m;
    visit_object(p, p.describe(), "Plain base of Multi");
    Other& o = m;
    visit_object(o, o.describe(), "Other base of Multi");
    c.nontrivial();
    c.log() << "temporary and base sub-objects\n";
}
} // namespace

void property(pbt::Choices& c)
{
    switch (c.draw(14))
    {
    case 0: return shape<One>(c, "One");
    case 1: return shape<Plain>(c, "Plain");
    case 2: return shape<Shuffled>(c, "Shuffled");
    case 3: return shape<Derived>(c, "Derived");
    case 4: return shape<Multi>(c, "Multi");
    case 5: return shape<ReverseBases>(c, "ReverseBases");
    case 6: return shape<Private>(c, "Private");
    case 7: return shape<PrivateDerived>(c, "PrivateDerived");
    case 8: return shape<Attributed>(c, "Attributed");
    case 9: return shape<AttributedDerived>(c, "AttributedDerived");
    case 10: return shape<Accessors>(c, "Accessors");
    case 11: return wide(c);
    case 12: return shape<AccessorsDerived>(c, "AccessorsDerived");
    default: return temporaries(c);
    }
}

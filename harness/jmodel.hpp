// Independent model of "JSON-like" data and of the serialization rules, shared by the JSON,
// attribute, patch, resource and YAML harnesses.  Nothing in here calls into kl: the library's
// behaviour is predicted from a hand-written schema (Schema) of the C++ types and compared.
#pragma once

#include "pbt.hpp"

#include <array>
#include <cmath>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <tuple>
#include <unordered_map>
#include <utility>

#include <rapidjson/document.h>

namespace jm {

using i128 = __int128;

struct J;
using Obj = std::vector<std::pair<std::string, J>>;

struct J
{
    enum K
    {
        null,
        boolean,
        integer,
        real,
        str,
        arr,
        obj
    } k = null;
    bool b = false;
    i128 i = 0;
    double d = 0;
    std::string s;
    std::vector<J> a;
    Obj o;

    static J of(bool v)
    {
        J j;
        j.k = boolean;
        j.b = v;
        return j;
    }
    static J num(i128 v)
    {
        J j;
        j.k = integer;
        j.i = v;
        return j;
    }
    static J dbl(double v)
    {
        J j;
        j.k = real;
        j.d = v;
        return j;
    }
    static J string(std::string v)
    {
        J j;
        j.k = str;
        j.s = std::move(v);
        return j;
    }
    static J array()
    {
        J j;
        j.k = arr;
        return j;
    }
    static J object()
    {
        J j;
        j.k = obj;
        return j;
    }

    const J* find(std::string_view key) const
    {
        for (auto& kv : o)
            if (kv.first == key)
                return &kv.second;
        return nullptr;
    }
    J* find(std::string_view key)
    {
        for (auto& kv : o)
            if (kv.first == key)
                return &kv.second;
        return nullptr;
    }
    const J& at(std::string_view key) const
    {
        auto p = find(key);
        if (!p)
            throw pbt::Failure("harness: model has no field " + std::string(key));
        return *p;
    }
    J& at(std::string_view key) { return const_cast<J&>(static_cast<const J*>(this)->at(key)); }
    void put(std::string key, J v) { o.emplace_back(std::move(key), std::move(v)); }
    // std::map order
    void put_sorted(std::string key, J v)
    {
        auto it = std::find_if(o.begin(), o.end(), [&](auto& kv) { return !(kv.first < key); });
        o.insert(it, {std::move(key), std::move(v)});
    }
    void erase(std::string_view key)
    {
        for (auto it = o.begin(); it != o.end(); ++it)
            if (it->first == key)
            {
                o.erase(it);
                return;
            }
    }
};

inline uint64_t ulps(double x, double y)
{
    auto ord = [](double v) {
        int64_t b;
        std::memcpy(&b, &v, 8);
        return b < 0 ? std::numeric_limits<int64_t>::min() - b : b;
    };
    int64_t p = ord(x), q = ord(y);
    return p > q ? static_cast<uint64_t>(p) - static_cast<uint64_t>(q)
                 : static_cast<uint64_t>(q) - static_cast<uint64_t>(p);
}

// ordered: object member order matters.  tol: allowed ULP distance of reals.
inline bool same(const J& x, const J& y, bool ordered, unsigned tol = 0)
{
    if (x.k != y.k)
        return false;
    switch (x.k)
    {
    case J::null:
        return true;
    case J::boolean:
        return x.b == y.b;
    case J::integer:
        return x.i == y.i;
    case J::real:
        return tol ? ulps(x.d, y.d) <= tol : std::memcmp(&x.d, &y.d, 8) == 0;
    case J::str:
        return x.s == y.s;
    case J::arr:
        if (x.a.size() != y.a.size())
            return false;
        for (size_t n = 0; n < x.a.size(); ++n)
            if (!same(x.a[n], y.a[n], ordered, tol))
                return false;
        return true;
    case J::obj:
        if (x.o.size() != y.o.size())
            return false;
        if (ordered)
        {
            for (size_t n = 0; n < x.o.size(); ++n)
                if (x.o[n].first != y.o[n].first || !same(x.o[n].second, y.o[n].second, ordered, tol))
                    return false;
            return true;
        }
        else
        {
            // in-memory values: member names are unique
            auto sorted = [](const Obj& o) {
                std::vector<const std::pair<std::string, J>*> r;
                for (auto& kv : o)
                    r.push_back(&kv);
                std::stable_sort(r.begin(), r.end(),
                                 [](auto* l, auto* q) { return l->first < q->first; });
                return r;
            };
            auto p = sorted(x.o), q = sorted(y.o);
            for (size_t n = 0; n < p.size(); ++n)
                if (p[n]->first != q[n]->first || !same(p[n]->second, q[n]->second, ordered, tol))
                    return false;
            return true;
        }
    }
    return false;
}

inline std::string num_text(i128 v)
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    std::string r;
    while (v != 0)
    {
        int dgt = static_cast<int>(v % 10);
        r += static_cast<char>('0' + (dgt < 0 ? -dgt : dgt));
        v /= 10;
    }
    if (neg)
        r += '-';
    std::reverse(r.begin(), r.end());
    return r;
}

inline void write_string(std::string& out, const std::string& s)
{
    out += '"';
    char buf[8];
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            out += '\\';
            out += static_cast<char>(ch);
        }
        else if (ch < 0x20)
        {
            std::snprintf(buf, sizeof buf, "\\u%04x", ch);
            out += buf;
        }
        else
            out += static_cast<char>(ch);
    }
    out += '"';
}

inline void write(std::string& out, const J& j)
{
    switch (j.k)
    {
    case J::null:
        out += "null";
        break;
    case J::boolean:
        out += j.b ? "true" : "false";
        break;
    case J::integer:
        out += num_text(j.i);
        break;
    case J::real: {
        char buf[64];
        std::snprintf(buf, sizeof buf, "%.17g", j.d);
        out += buf;
        if (!std::strpbrk(buf, ".eEn"))
            out += ".0";
        break;
    }
    case J::str:
        write_string(out, j.s);
        break;
    case J::arr: {
        out += '[';
        bool first = true;
        for (auto& e : j.a)
        {
            if (!first)
                out += ',';
            first = false;
            write(out, e);
        }
        out += ']';
        break;
    }
    case J::obj: {
        out += '{';
        bool first = true;
        for (auto& kv : j.o)
        {
            if (!first)
                out += ',';
            first = false;
            write_string(out, kv.first);
            out += ':';
            write(out, kv.second);
        }
        out += '}';
        break;
    }
    }
}
inline std::string text(const J& j)
{
    std::string s;
    write(s, j);
    return s;
}
inline std::ostream& operator<<(std::ostream& os, const J& j)
{
    std::string t = text(j), r;
    char buf[8];
    for (unsigned char ch : t)
        if (ch >= 0x7f)
        {
            std::snprintf(buf, sizeof buf, "\\x%02x", ch);
            r += buf;
        }
        else
            r += static_cast<char>(ch);
    return os << r;
}

inline rapidjson::Value to_rj(const J& j, rapidjson::Document::AllocatorType& al)
{
    rapidjson::Value v;
    switch (j.k)
    {
    case J::null:
        break;
    case J::boolean:
        v.SetBool(j.b);
        break;
    case J::integer:
        if (j.i < 0)
            v.SetInt64(static_cast<int64_t>(j.i));
        else
            v.SetUint64(static_cast<uint64_t>(j.i));
        break;
    case J::real:
        v.SetDouble(j.d);
        break;
    case J::str:
        v.SetString(j.s.data(), static_cast<rapidjson::SizeType>(j.s.size()), al);
        break;
    case J::arr:
        v.SetArray();
        for (auto& e : j.a)
            v.PushBack(to_rj(e, al), al);
        break;
    case J::obj:
        v.SetObject();
        for (auto& kv : j.o)
        {
            rapidjson::Value n;
            n.SetString(kv.first.data(), static_cast<rapidjson::SizeType>(kv.first.size()), al);
            v.AddMember(n, to_rj(kv.second, al), al);
        }
        break;
    }
    return v;
}

inline J from_rj(const rapidjson::Value& v)
{
    if (v.IsNull())
        return {};
    if (v.IsBool())
        return J::of(v.GetBool());
    if (v.IsInt64())
        return J::num(v.GetInt64());
    if (v.IsUint64())
        return J::num(v.GetUint64());
    if (v.IsNumber())
        return J::dbl(v.GetDouble());
    if (v.IsString())
        return J::string({v.GetString(), v.GetStringLength()});
    if (v.IsArray())
    {
        J j = J::array();
        for (auto& e : v.GetArray())
            j.a.push_back(from_rj(e));
        return j;
    }
    J j = J::object();
    for (auto& m : v.GetObject())
        j.put({m.name.GetString(), m.name.GetStringLength()}, from_rj(m.value));
    return j;
}

// Parse text with RapidJSON directly (not through kl).
inline J parse_text(const std::string& t)
{
    rapidjson::Document d;
    d.Parse<rapidjson::kParseFullPrecisionFlag>(t.data(), t.size());
    if (d.HasParseError())
        throw pbt::Failure("output is not valid JSON: " + pbt::quote(t));
    return from_rj(d);
}

// ---------------------------------------------------------------------------------------------
// Schema

struct Schema;
using SP = std::shared_ptr<const Schema>;

struct Field
{
    std::string id;   // C++ member name: key in model values
    std::string name; // serialized name
    SP type;
    std::vector<std::string> aliases;
    bool skip_ser = false, skip_de = false;
    bool skip_if_null = false, emit_null = false, skip_if_empty = false;
    bool allow_missing = false, flatten = false, extra = false;
    std::optional<J> def;
    std::vector<std::function<bool(const J&)>> valid;
    // resource attributes
    bool ro = false, sro = false;
    std::string child_key; // id of the key member of the element struct
};

enum class Kind
{
    boolean,
    integer,
    real,
    real32,
    string,
    enumeration, // reflected: by name
    enum_set,
    optional,
    seq,   // growable
    fixed, // std::array
    tuple, // pair / tuple
    map,
    strct
};

struct Schema
{
    Kind k = Kind::integer;
    std::string type_name;
    i128 lo = 0, hi = 0;             // integer
    std::vector<std::string> names;  // enum
    std::vector<uint64_t> bits;      // enum set: the bits of each name
    SP of;                           // optional / seq / fixed / map
    size_t n = 0;                    // fixed
    std::vector<SP> items;           // tuple
    std::vector<Field> fields;       // struct
    bool indexable = false;          // has at(): resource traversal by index
    bool erasable = false;           // resource element deletion
    bool postable = false;
    std::function<bool(const J&)> validator; // resource validator of the type (true: valid)
    std::function<void(J&)> repair;          // make a generated value valid
    J dflt;                                  // model of T{}

    const Field* by_name(std::string_view name) const
    {
        for (auto& f : fields)
            if (f.name == name)
                return &f;
        return nullptr;
    }
};

// ---------------------------------------------------------------------------------------------
// C++ <-> model.  M<T>::schema(), to(), from().

template <typename T, typename = void>
struct M;

template <typename T>
SP schema_of()
{
    static SP s = M<T>::schema();
    return s;
}
template <typename T>
J to_j(const T& v)
{
    return M<T>::to(v);
}
template <typename T>
void from_j(T& v, const J& j)
{
    M<T>::from(v, j);
}

template <typename T>
std::shared_ptr<Schema> mk(Kind k)
{
    auto s = std::make_shared<Schema>();
    s->k = k;
    return s;
}

template <>
struct M<bool>
{
    static SP schema()
    {
        auto s = mk<bool>(Kind::boolean);
        s->dflt = J::of(false);
        return s;
    }
    static J to(bool v) { return J::of(v); }
    static void from(bool& v, const J& j) { v = j.b; }
};

template <typename T>
struct M<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static SP schema()
    {
        auto s = mk<T>(Kind::integer);
        s->lo = std::numeric_limits<T>::min();
        s->hi = std::numeric_limits<T>::max();
        s->dflt = J::num(0);
        return s;
    }
    static J to(T v) { return J::num(static_cast<i128>(v)); }
    static void from(T& v, const J& j) { v = static_cast<T>(j.i); }
};

template <typename T>
struct M<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static SP schema()
    {
        auto s = mk<T>(sizeof(T) == 4 ? Kind::real32 : Kind::real);
        s->dflt = J::dbl(0);
        return s;
    }
    static J to(T v) { return J::dbl(v); }
    static void from(T& v, const J& j) { v = static_cast<T>(j.d); }
};

template <>
struct M<std::string>
{
    static SP schema()
    {
        auto s = mk<std::string>(Kind::string);
        s->dflt = J::string("");
        return s;
    }
    static J to(const std::string& v) { return J::string(v); }
    static void from(std::string& v, const J& j) { v = j.s; }
};

template <typename T>
struct OptM
{
    static std::shared_ptr<Schema> base_schema()
    {
        auto s = mk<T>(Kind::optional);
        s->of = schema_of<T>();
        return s;
    }
    static SP schema() { return base_schema(); }
    static J to(const std::optional<T>& v) { return v ? to_j(*v) : J{}; }
    static void from(std::optional<T>& v, const J& j)
    {
        if (j.k == J::null)
            v.reset();
        else
        {
            v.emplace();
            from_j(*v, j);
        }
    }
};
template <typename T>
struct M<std::optional<T>> : OptM<T>
{
};

template <typename C, bool Idx>
struct SeqM
{
    using T = typename C::value_type;
    static SP schema() { return base_schema(); }
    static std::shared_ptr<Schema> base_schema()
    {
        auto s = mk<C>(Kind::seq);
        s->of = schema_of<T>();
        s->indexable = Idx;
        s->erasable = s->postable = true;
        s->dflt = J::array();
        return s;
    }
    static J to(const C& v)
    {
        J j = J::array();
        for (auto&& e : v)
            j.a.push_back(to_j<T>(e));
        return j;
    }
    static void from(C& v, const J& j)
    {
        v.clear();
        for (auto& e : j.a)
        {
            T t{};
            from_j(t, e);
            v.push_back(std::move(t));
        }
    }
};
template <typename T>
struct M<std::vector<T>> : SeqM<std::vector<T>, true>
{
};
template <typename T>
struct M<std::deque<T>> : SeqM<std::deque<T>, true>
{
};
template <typename T>
struct M<std::list<T>> : SeqM<std::list<T>, false>
{
};

template <typename T, size_t N>
struct M<std::array<T, N>>
{
    static SP schema()
    {
        auto s = mk<T>(Kind::fixed);
        s->of = schema_of<T>();
        s->n = N;
        s->indexable = true;
        s->dflt = to({});
        return s;
    }
    static J to(const std::array<T, N>& v)
    {
        J j = J::array();
        for (auto& e : v)
            j.a.push_back(to_j(e));
        return j;
    }
    static void from(std::array<T, N>& v, const J& j)
    {
        for (size_t i = 0; i < N; ++i)
            from_j(v[i], j.a[i]);
    }
};

template <typename C>
struct MapM
{
    using T = typename C::mapped_type;
    static SP schema()
    {
        auto s = mk<C>(Kind::map);
        s->of = schema_of<T>();
        s->erasable = true;
        s->dflt = J::object();
        return s;
    }
    static J to(const C& v)
    {
        J j = J::object();
        for (auto& [k, e] : v)
            j.put(std::string(k), to_j(e));
        return j;
    }
    static void from(C& v, const J& j)
    {
        v.clear();
        for (auto& [k, e] : j.o)
        {
            T t{};
            from_j(t, e);
            v.emplace(k, std::move(t));
        }
    }
};
template <typename T, typename L>
struct M<std::map<std::string, T, L>> : MapM<std::map<std::string, T, L>>
{
};
template <typename T>
struct M<std::unordered_map<std::string, T>> : MapM<std::unordered_map<std::string, T>>
{
};

template <typename Tup, typename... Ts>
struct TupM
{
    static SP schema()
    {
        auto s = mk<Tup>(Kind::tuple);
        s->items = {schema_of<Ts>()...};
        s->dflt = to(Tup{});
        return s;
    }
    template <size_t... I>
    static void to_impl(J& j, const Tup& v, std::index_sequence<I...>)
    {
        (j.a.push_back(to_j(std::get<I>(v))), ...);
    }
    static J to(const Tup& v)
    {
        J j = J::array();
        to_impl(j, v, std::index_sequence_for<Ts...>{});
        return j;
    }
    template <size_t... I>
    static void from_impl(Tup& v, const J& j, std::index_sequence<I...>)
    {
        (from_j(std::get<I>(v), j.a[I]), ...);
    }
    static void from(Tup& v, const J& j) { from_impl(v, j, std::index_sequence_for<Ts...>{}); }
};
template <typename... Ts>
struct M<std::tuple<Ts...>> : TupM<std::tuple<Ts...>, Ts...>
{
};
template <typename A, typename B>
struct M<std::pair<A, B>> : TupM<std::pair<A, B>, A, B>
{
};

// Enums: specialise EnumM with a table() of (name, value).
template <typename E, typename D>
struct EnumM
{
    static SP schema()
    {
        auto s = mk<E>(Kind::enumeration);
        for (auto& nv : D::table())
            s->names.push_back(nv.first);
        s->dflt = to(E{});
        return s;
    }
    static J to(E e)
    {
        for (auto& nv : D::table())
            if (nv.second == e)
                return J::string(nv.first);
        return J::string("?" + std::to_string(static_cast<long long>(e)));
    }
    static void from(E& e, const J& j)
    {
        for (auto& nv : D::table())
            if (nv.first == j.s)
            {
                e = nv.second;
                return;
            }
        throw pbt::Failure("harness: bad enum in model");
    }
};

// Structs: specialise M<T> deriving from StructM<T, Self>; Self::describe(Builder<T>&).
template <typename T>
struct Builder
{
    struct Entry
    {
        Field f;
        std::function<J(const T&)> to;
        std::function<void(T&, const J&)> from;
    };
    std::vector<Entry> entries;
    std::function<bool(const J&)> validator;
    std::function<void(J&)> repair;

    struct Ref
    {
        Field& f;
        Ref& rename(const char* n)
        {
            f.name = n;
            return *this;
        }
        template <typename... A>
        Ref& aliases(A... a)
        {
            f.aliases = {a...};
            return *this;
        }
        Ref& skip()
        {
            f.skip_ser = f.skip_de = true;
            return *this;
        }
        Ref& skip_ser()
        {
            f.skip_ser = true;
            return *this;
        }
        Ref& skip_de()
        {
            f.skip_de = true;
            return *this;
        }
        Ref& skip_if_null()
        {
            f.skip_if_null = true;
            return *this;
        }
        Ref& emit_null()
        {
            f.emit_null = true;
            return *this;
        }
        Ref& skip_if_empty()
        {
            f.skip_if_empty = true;
            return *this;
        }
        Ref& allow_missing()
        {
            f.allow_missing = true;
            return *this;
        }
        Ref& flatten()
        {
            f.flatten = true;
            return *this;
        }
        Ref& extra()
        {
            f.extra = true;
            return *this;
        }
        Ref& def(J j)
        {
            f.def = std::move(j);
            return *this;
        }
        Ref& valid(std::function<bool(const J&)> v)
        {
            f.valid.push_back(std::move(v));
            return *this;
        }
        Ref& ro()
        {
            f.ro = true;
            return *this;
        }
        Ref& sro()
        {
            f.sro = true;
            return *this;
        }
        Ref& child_key(const char* id)
        {
            f.child_key = id;
            return *this;
        }
    };

    template <typename U, typename B>
    Ref f(const char* id, U B::*m)
    {
        Entry e;
        e.f.id = e.f.name = id;
        e.f.type = schema_of<U>();
        e.to = [m](const T& t) { return to_j(t.*m); };
        e.from = [m](T& t, const J& j) { from_j(t.*m, j); };
        entries.push_back(std::move(e));
        return Ref{entries.back().f};
    }
};

template <typename T, typename Self>
struct StructM
{
    static const Builder<T>& builder()
    {
        static Builder<T> b = [] {
            Builder<T> x;
            x.entries.reserve(64);
            Self::describe(x);
            return x;
        }();
        return b;
    }
    static SP schema()
    {
        auto s = mk<T>(Kind::strct);
        for (auto& e : builder().entries)
            s->fields.push_back(e.f);
        s->validator = builder().validator;
        s->repair = builder().repair;
        s->dflt = to(T{});
        return s;
    }
    static J to(const T& v)
    {
        J j = J::object();
        for (auto& e : builder().entries)
            j.put(e.f.id, e.to(v));
        return j;
    }
    static void from(T& v, const J& j)
    {
        for (auto& e : builder().entries)
            e.from(v, j.at(e.f.id));
    }
};

// ---------------------------------------------------------------------------------------------
// Predicted library behaviour

// The names of all declared values contained in a set of bits.
inline J set_names(const Schema& s, uint64_t have)
{
    J r = J::array();
    for (size_t i = 0; i < s.names.size(); ++i)
        if ((have & s.bits[i]) == s.bits[i])
            r.a.push_back(J::string(s.names[i]));
    return r;
}

// A rejected document, with the way to the rejected node from the innermost step outwards.
struct DeError
{
    std::vector<std::string> trail{};
};
template <typename Fn>
void step(const char* what, const std::string& which, Fn&& fn)
{
    try
    {
        fn();
    }
    catch (DeError& e)
    {
        e.trail.push_back(std::string(what) + " " + which);
        throw;
    }
}
struct Collision // extra-fields key equal to a declared name: documented logic_error
{
};

inline void reserved(const Schema& s, std::set<std::string>& out)
{
    for (auto& f : s.fields)
    {
        if (f.extra)
            continue;
        if (f.flatten)
            reserved(*f.type, out);
        else
        {
            out.insert(f.name);
            for (auto& a : f.aliases)
                out.insert(a);
        }
    }
}

inline bool is_null(const Schema& s, const J& v) { return s.k == Kind::optional && v.k == J::null; }
inline bool is_empty(const J& v)
{
    return v.k == J::str ? v.s.empty() : v.k == J::arr ? v.a.empty() : v.k == J::obj ? v.o.empty() : false;
}

inline J ser(const Schema& s, const J& v, bool skip_null);

inline void ser_fields(const Schema& s, const J& v, bool skip_null, J& out,
                       const std::set<std::string>& res)
{
    for (auto& f : s.fields)
    {
        const J& x = v.at(f.id);
        if (f.skip_ser)
            continue;
        bool null = is_null(*f.type, x);
        if (null && !f.emit_null && (f.skip_if_null || skip_null))
            continue;
        if (f.skip_if_empty && is_empty(x))
            continue;
        if (f.extra)
        {
            for (auto& [k, e] : x.o)
            {
                if (res.count(k))
                    throw Collision{};
                if (skip_null && is_null(*f.type->of, e))
                    continue;
                out.put(k, ser(*f.type->of, e, skip_null));
            }
        }
        else if (f.flatten)
            ser_fields(*f.type, x, skip_null, out, res);
        else
            out.put(f.name, ser(*f.type, x, skip_null));
    }
}

inline J ser(const Schema& s, const J& v, bool skip_null)
{
    switch (s.k)
    {
    case Kind::optional:
        return v.k == J::null ? J{} : ser(*s.of, v, skip_null);
    case Kind::seq:
    case Kind::fixed: {
        J j = J::array();
        for (auto& e : v.a)
            j.a.push_back(ser(*s.of, e, skip_null));
        return j;
    }
    case Kind::tuple: {
        J j = J::array();
        for (size_t i = 0; i < s.items.size(); ++i)
            j.a.push_back(ser(*s.items[i], v.a[i], skip_null));
        return j;
    }
    case Kind::map: {
        J j = J::object();
        for (auto& [k, e] : v.o)
            if (!(skip_null && is_null(*s.of, e)))
                j.put(k, ser(*s.of, e, skip_null));
        return j;
    }
    case Kind::strct: {
        J j = J::object();
        std::set<std::string> res;
        reserved(s, res);
        ser_fields(s, v, skip_null, j, res);
        return j;
    }
    default:
        return v;
    }
}

inline void de(const Schema& s, J& out, const J& doc);

// The set of names an extra-fields map must not capture: the declared names of the outermost
// object the members belong to.
inline void de_object(const Schema& s, J& out, const J& doc, const std::set<std::string>& res)
{
    for (auto& f : s.fields)
    {
        if (f.skip_de)
            continue;
        J& x = out.at(f.id);
        if (f.extra)
        {
            x = J::object();
            for (auto& [k, e] : doc.o)
            {
                if (res.count(k))
                    continue;
                J m = f.type->of->dflt;
                step("extra field", k, [&, e = &e] { de(*f.type->of, m, *e); });
                if (!x.find(k))
                    x.put_sorted(k, std::move(m));
            }
            continue;
        }
        if (f.flatten)
        {
            step("field", f.id, [&] { de_object(*f.type, x, doc, res); });
            continue;
        }
        const J* node = doc.find(f.name);
        for (size_t i = 0; !node && i < f.aliases.size(); ++i)
            node = doc.find(f.aliases[i]);
        if (!node)
        {
            if (f.def)
            {
                x = *f.def;
                continue;
            }
            if (f.allow_missing)
                continue;
            step("field", f.id, [&] { de(*f.type, x, J{}); });
        }
        else
        {
            if (node->k == J::null && f.def)
            {
                x = *f.def;
                continue;
            }
            step("field", f.id, [&] { de(*f.type, x, *node); });
        }
        for (auto& v : f.valid)
            if (!v(x))
                throw DeError{{std::string("field ") + f.id}};
    }
}

// Interpretation of a scalar node for a scalar type, for backends whose scalars are untyped text
// (YAML).  Null: JSON, where scalars are typed.
inline J (*scalar_view)(const Schema&, const J&) = nullptr;

inline void de(const Schema& s, J& out, const J& doc)
{
    if (scalar_view && static_cast<int>(s.k) <= static_cast<int>(Kind::enumeration) && doc.k != J::null &&
        doc.k != J::arr && doc.k != J::obj)
    {
        J typed = scalar_view(s, doc);
        auto keep = scalar_view;
        struct Restore
        {
            decltype(keep) k;
            ~Restore() { scalar_view = k; }
        } restore{keep};
        scalar_view = nullptr;
        de(s, out, typed);
        return;
    }
    switch (s.k)
    {
    case Kind::boolean:
        if (doc.k != J::boolean)
            throw DeError{};
        out = doc;
        return;
    case Kind::integer:
        if (doc.k != J::integer || doc.i < s.lo || doc.i > s.hi)
            throw DeError{};
        out = doc;
        return;
    case Kind::real:
    case Kind::real32: {
        double d;
        if (doc.k == J::integer)
            d = static_cast<double>(doc.i);
        else if (doc.k == J::real)
            d = doc.d;
        else
            throw DeError{};
        out = J::dbl(s.k == Kind::real32 ? static_cast<double>(static_cast<float>(d)) : d);
        return;
    }
    case Kind::string:
        if (doc.k != J::str)
            throw DeError{};
        out = doc;
        return;
    case Kind::enumeration:
        if (doc.k != J::str || std::find(s.names.begin(), s.names.end(), doc.s) == s.names.end())
            throw DeError{};
        out = doc;
        return;
    case Kind::enum_set: {
        if (doc.k != J::arr)
            throw DeError{};
        uint64_t have = 0;
        for (auto& e0 : doc.a)
        {
            const J e = scalar_view && e0.k != J::null && e0.k != J::arr && e0.k != J::obj ? scalar_view(s, e0) : e0;
            auto at = std::find(s.names.begin(), s.names.end(), e.s);
            if (e.k != J::str || at == s.names.end())
                throw DeError{};
            have |= s.bits[static_cast<size_t>(at - s.names.begin())];
        }
        out = set_names(s, have);
        return;
    }
    case Kind::optional: {
        if (doc.k == J::null)
        {
            out = J{};
            return;
        }
        J m = s.of->dflt;
        de(*s.of, m, doc);
        out = std::move(m);
        return;
    }
    case Kind::seq:
        if (doc.k != J::arr)
            throw DeError{};
        out = J::array();
        for (auto& e : doc.a)
        {
            J m = s.of->dflt;
            step("element", std::to_string(out.a.size()), [&] { de(*s.of, m, e); });
            out.a.push_back(std::move(m));
        }
        return;
    case Kind::fixed:
        if (doc.k != J::arr || doc.a.size() > s.n)
            throw DeError{};
        for (size_t i = 0; i < s.n; ++i)
            step("element", std::to_string(i), [&] { de(*s.of, out.a[i], i < doc.a.size() ? doc.a[i] : J{}); });
        return;
    case Kind::tuple:
        if (doc.k != J::arr || doc.a.size() > s.items.size())
            throw DeError{};
        for (size_t i = 0; i < s.items.size(); ++i)
            de(*s.items[i], out.a[i], i < doc.a.size() ? doc.a[i] : J{});
        return;
    case Kind::map:
        if (doc.k != J::obj)
            throw DeError{};
        out = J::object();
        for (auto& [k, e] : doc.o)
        {
            J m = s.of->dflt;
            step("field", k, [&, e = &e] { de(*s.of, m, *e); });
            if (!out.find(k))
                out.put_sorted(k, std::move(m));
        }
        return;
    case Kind::strct:
        if (doc.k == J::obj)
        {
            std::set<std::string> res;
            reserved(s, res);
            de_object(s, out, doc, res);
        }
        else if (doc.k == J::arr)
        {
            size_t n = 0;
            for (auto& f : s.fields)
                if (!f.skip_de)
                    ++n;
            if (doc.a.size() > n)
                throw DeError{};
            size_t i = 0;
            for (auto& f : s.fields)
            {
                if (f.skip_de)
                    continue;
                J& x = out.at(f.id);
                step("element", std::to_string(i), [&] {
                    if (f.extra || f.flatten)
                        throw DeError{};
                    de(*f.type, x, i < doc.a.size() ? doc.a[i] : J{});
                    for (auto& v : f.valid)
                        if (!v(x))
                            throw DeError{};
                });
                ++i;
            }
        }
        else
            throw DeError{};
        return;
    }
}

inline void patch(const Schema& s, J& out, const J& doc);

inline void patch_object(const Schema& s, J& out, const J& doc, const std::set<std::string>& res)
{
    for (auto& f : s.fields)
    {
        if (f.skip_de)
            continue;
        J& x = out.at(f.id);
        if (f.extra)
        {
            for (auto& [k, e] : doc.o)
            {
                if (res.count(k))
                    continue;
                step("extra field", k, [&, k = &k, e = &e] {
                    if (J* old = x.find(*k))
                        patch(*f.type->of, *old, *e);
                    else
                    {
                        J m = f.type->of->dflt;
                        patch(*f.type->of, m, *e);
                        x.put_sorted(*k, std::move(m));
                    }
                });
            }
            continue;
        }
        if (f.flatten)
        {
            step("field", f.id, [&] { patch_object(*f.type, x, doc, res); });
            continue;
        }
        const J* node = doc.find(f.name);
        for (size_t i = 0; !node && i < f.aliases.size(); ++i)
            node = doc.find(f.aliases[i]);
        if (!node)
            continue;
        if (node->k == J::null && f.def)
        {
            x = *f.def;
            continue;
        }
        step("field", f.id, [&] {
            patch(*f.type, x, *node);
            for (auto& v : f.valid)
                if (!v(x))
                    throw DeError{};
        });
    }
}

inline void patch(const Schema& s, J& out, const J& doc)
{
    if (s.k == Kind::strct && doc.k == J::obj)
    {
        std::set<std::string> res;
        reserved(s, res);
        patch_object(s, out, doc, res);
    }
    else if (s.k == Kind::optional)
    {
        if (doc.k == J::null)
            out = J{};
        else
        {
            if (out.k == J::null)
            {
                J m = s.of->dflt;
                patch(*s.of, m, doc);
                out = std::move(m);
            }
            else
                patch(*s.of, out, doc);
        }
    }
    else
        de(s, out, doc);
}

// ---------------------------------------------------------------------------------------------
// Generators

inline std::string gen_text(pbt::Choices& c, size_t max = 12)
{
    static const std::vector<std::string> units = {
        "a", "b", "z", "0", "1", " ", "-", ".", "/", "\\", "\"", "'", "\n", "\t", "\r", ":",
        "#", "~", "%", "&", "*", "{", "]", ",", "\x7f", "\xc3\xa9", "\xe2\x82\xac",
        "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\xef\xbb\xbf"};
    static const std::vector<std::string> special = {
        "", "null", "true", "false", "~", "0", "1", "-1", "1.5", "1e5", "0x1f", "nan", ".inf", "yes", "no",
        "on", " ", "a b", "a: b", "- x", "# c", "[", "{}", "\"q\"", "'", "---", "...", "!!str", "&a", "*a", "007", "1_000"};
    switch (c.draw(6))
    {
    case 0:
    case 1:
    case 2:
        return c.over("abcxyz", std::min<size_t>(max, 5));
    case 3:
        return c.pick(special);
    case 4: {
        std::string s;
        for (size_t n = c.len(max); n; --n)
            s += c.pick(units);
        return s;
    }
    default: {
        // any ASCII, including NUL and control characters
        std::string s(c.len(max), ' ');
        for (auto& ch : s)
            ch = static_cast<char>(c.draw(128));
        return s;
    }
    }
}

inline double gen_real(pbt::Choices& c)
{
    static const double special[] = {0.0,  -0.0, 1.0,  -1.0, 0.5,   0.1,   1e300, -1e300, 5e-324, 1e-5,
                                     1e15, 1e16, 1e17, 1e21, 1e22,  123456789.125, 3.14,
                                     9007199254740992.0, 9007199254740993.0, 1.7976931348623157e308,
                                     2.2250738585072014e-308, 4294967296.0, -2147483649.0};
    switch (c.draw(4))
    {
    case 0:
        return c.pick(special);
    case 1:
        return static_cast<double>(c.integer<int32_t>());
    case 2:
        return static_cast<double>(c.integer<int64_t>()) / static_cast<double>(1 + c.draw(1000));
    default:
        for (;;)
        {
            uint64_t b = c.draw(0);
            double d;
            std::memcpy(&d, &b, 8);
            if (std::isfinite(d))
                return d;
            if (c.exhausted())
                return 0.25;
        }
    }
}

inline i128 gen_int(pbt::Choices& c, i128 lo, i128 hi)
{
    switch (c.draw(6))
    {
    case 0:
    case 1: {
        i128 v = static_cast<i128>(c.draw(12)) - (lo < 0 ? 4 : 0);
        return v < lo ? lo : v > hi ? hi : v;
    }
    case 2:
        return lo + static_cast<i128>(c.draw(3));
    case 3:
        return hi - static_cast<i128>(c.draw(3));
    default: {
        // a random width inside the range
        unsigned __int128 span = static_cast<unsigned __int128>(hi - lo) + 1;
        unsigned bits = 1 + static_cast<unsigned>(c.draw(64));
        uint64_t r = c.draw(0);
        if (bits < 64)
            r &= (1ull << bits) - 1;
        i128 base = lo < 0 ? (c.flip() ? -static_cast<i128>(r / 2) : static_cast<i128>(r / 2)) : static_cast<i128>(r);
        if (base < lo || base > hi)
            base = lo + static_cast<i128>(static_cast<unsigned __int128>(r) % span);
        return base;
    }
    }
}

inline std::string gen_key(pbt::Choices& c)
{
    static const std::vector<std::string> keys = {"a", "b", "k", "key", "0", "1", "01", "x y", "."};
    return c.chance(3, 4) ? std::string(c.pick(keys)) : gen_text(c, 6);
}

struct GenOpts
{
    bool simple_reals = false;
    size_t max_len = 3;
    bool scale = false;
};

inline GenOpts with_scale()
{
    GenOpts o;
    o.scale = true;
    return o;
}

inline J gen(pbt::Choices& c, const Schema& s, const GenOpts& o = {}, unsigned depth = 0)
{
    J r;
    auto count = [&] {
        size_t m = depth > 8 ? 0 : depth > 3 ? 1 : o.max_len;
        return c.chance(1, 12) && depth < 2 ? c.below(m * 3 + 1) : c.below(m + 1);
    };
    // rarely a size around 2^8 or 2^16 (0 = no)
    auto scale = [&](bool far) -> size_t {
        static const size_t around[] = {127, 128, 255, 256, 257, 300}, wide[] = {65535, 65536, 65537};
        if (depth > 1 || !o.scale || !c.chance(1, 300))
            return 0;
        c.label("scaled container or string");
        return far && c.chance(1, 20) ? c.pick(wide) : c.pick(around);
    };
    switch (s.k)
    {
    case Kind::boolean:
        r = J::of(c.flip());
        break;
    case Kind::integer:
        r = J::num(gen_int(c, s.lo, s.hi));
        break;
    case Kind::real:
        r = J::dbl(o.simple_reals ? static_cast<double>(c.draw(64)) / 4 : gen_real(c));
        break;
    case Kind::real32: {
        double d = o.simple_reals ? static_cast<double>(c.draw(64)) / 4 : gen_real(c);
        if (std::fabs(d) > 3.4e38)
            d = 1.5;
        r = J::dbl(static_cast<double>(static_cast<float>(d)));
        break;
    }
    case Kind::string:
        if (const size_t n = scale(true))
        {
            const std::string unit = gen_text(c, 5) + "x";
            r = J::string("");
            while (r.s.size() < n)
                r.s += unit;
        }
        else
            r = J::string(gen_text(c));
        break;
    case Kind::enumeration:
        r = J::string(s.names[c.below(s.names.size())]);
        break;
    case Kind::enum_set: {
        uint64_t have = 0;
        for (auto b : s.bits)
            if (c.chance(2, 5))
                have |= b;
        r = set_names(s, have);
        break;
    }
    case Kind::optional:
        if (c.chance(3, 5))
            r = gen(c, *s.of, o, depth + 1);
        break;
    case Kind::seq:
        r = J::array();
        if (const size_t n = scale(!s.repair))
        {
            std::vector<J> pool;
            for (size_t k = 1 + c.below(3); k; --k)
                pool.push_back(gen(c, *s.of, o, depth + 2));
            for (size_t i = 0; i < n; ++i)
                r.a.push_back(pool[i % pool.size()]);
            break;
        }
        for (size_t n = count(); n; --n)
            r.a.push_back(gen(c, *s.of, o, depth + 1));
        break;
    case Kind::fixed:
        r = J::array();
        for (size_t i = 0; i < s.n; ++i)
            r.a.push_back(gen(c, *s.of, o, depth + 1));
        break;
    case Kind::tuple:
        r = J::array();
        for (auto& t : s.items)
            r.a.push_back(gen(c, *t, o, depth + 1));
        break;
    case Kind::map: {
        r = J::object();
        if (const size_t n = scale(false))
        {
            const J x = gen(c, *s.of, o, depth + 2);
            for (size_t i = 0; i < n; ++i)
                r.put_sorted("k" + std::to_string(i), x);
            break;
        }
        for (size_t n = count(); n; --n)
        {
            std::string k = gen_key(c);
            if (!r.find(k))
                r.put_sorted(k, gen(c, *s.of, o, depth + 1));
        }
        break;
    }
    case Kind::strct:
        r = J::object();
        for (auto& f : s.fields)
        {
            J x = gen(c, *f.type, o, depth + 1);
            if (!f.valid.empty() && c.chance(5, 6))
            {
                // usually a value the field's validators accept
                auto ok = [&] {
                    for (auto& v : f.valid)
                        if (!v(x))
                            return false;
                    return true;
                };
                bool real = f.type->k == Kind::real || f.type->k == Kind::real32;
                for (int i = 0; i < 8 && !ok(); ++i)
                {
                    auto n = static_cast<int>(c.draw(16)) - 4;
                    x = real ? J::dbl(n) : J::num(n);
                }
                for (int n = -4; n < 12 && !ok(); ++n)
                    x = real ? J::dbl(n) : J::num(n);
            }
            if (!f.child_key.empty())
            {
                // keys unique
                std::vector<J> keep;
                for (auto& e : x.a)
                {
                    bool dup = false;
                    for (auto& q : keep)
                        dup |= same(q.at(f.child_key), e.at(f.child_key), true);
                    if (!dup)
                        keep.push_back(e);
                }
                x.a = std::move(keep);
            }
            if (f.extra)
            {
                // filled by the caller if reserved names matter; drop clashes lazily
            }
            r.put(f.id, std::move(x));
        }
        break;
    }
    if (s.repair)
        s.repair(r);
    return r;
}

// Remove extra-fields entries that clash with declared names (those values are rejected by design).
inline void drop_clashes(const Schema& s, J& v, const std::set<std::string>* outer = nullptr)
{
    switch (s.k)
    {
    case Kind::optional:
        if (v.k != J::null)
            drop_clashes(*s.of, v);
        return;
    case Kind::seq:
    case Kind::fixed:
        for (auto& e : v.a)
            drop_clashes(*s.of, e);
        return;
    case Kind::tuple:
        for (size_t i = 0; i < s.items.size(); ++i)
            drop_clashes(*s.items[i], v.a[i]);
        return;
    case Kind::map:
        for (auto& kv : v.o)
            drop_clashes(*s.of, kv.second);
        return;
    case Kind::strct: {
        std::set<std::string> mine;
        if (!outer)
        {
            reserved(s, mine);
            outer = &mine;
        }
        for (auto& f : s.fields)
        {
            J& x = v.at(f.id);
            if (f.extra)
            {
                Obj keep;
                for (auto& kv : x.o)
                    if (!outer->count(kv.first))
                        keep.push_back(kv);
                x.o = std::move(keep);
            }
            if (f.flatten)
                drop_clashes(*f.type, x, outer);
            else
                drop_clashes(*f.type, x);
        }
        return;
    }
    default:
        return;
    }
}

// A document unrelated to any schema.
inline J gen_any(pbt::Choices& c, unsigned depth = 0)
{
    static const std::vector<i128> ints = [] {
        std::vector<i128> r;
        for (int b : {7, 8, 15, 16, 31, 32, 53, 63})
            for (int d = -1; d <= 1; ++d)
            {
                r.push_back((i128(1) << b) + d);
                r.push_back(-((i128(1) << b) + d));
            }
        r.push_back((i128(1) << 64) - 1);
        r.push_back((i128(1) << 64) - 2);
        std::vector<i128> ok;
        for (auto v : r)
            if (v >= -(i128(1) << 63) && v <= (i128(1) << 64) - 1)
                ok.push_back(v);
        return ok;
    }();
    switch (c.draw(depth > 2 ? 7 : 9))
    {
    case 0:
        return J{};
    case 1:
        return J::of(c.flip());
    case 2:
        return J::num(static_cast<i128>(c.draw(10)) - 3);
    case 3:
        return J::num(ints[c.below(ints.size())]);
    case 4:
        return J::dbl(gen_real(c));
    case 5:
        return J::string(gen_text(c));
    case 6:
        return c.flip() ? J::array() : J::object();
    case 7: {
        J j = J::array();
        for (size_t n = c.below(4); n; --n)
            j.a.push_back(gen_any(c, depth + 1));
        return j;
    }
    default: {
        J j = J::object();
        for (size_t n = c.below(4); n; --n)
            j.put(gen_key(c), gen_any(c, depth + 1));
        return j;
    }
    }
}

inline void all_names(const Schema& s, std::vector<std::string>& out, unsigned depth = 0)
{
    if (depth > 6)
        return;
    for (auto& f : s.fields)
    {
        out.push_back(f.name);
        out.push_back(f.id);
        for (auto& a : f.aliases)
            out.push_back(a);
        all_names(*f.type, out, depth + 1);
    }
    for (auto& n : s.names)
        out.push_back(n);
    if (s.of)
        all_names(*s.of, out, depth + 1);
    for (auto& t : s.items)
        all_names(*t, out, depth + 1);
}

inline void collect(J& j, std::vector<J*>& out)
{
    out.push_back(&j);
    for (auto& e : j.a)
        collect(e, out);
    for (auto& kv : j.o)
        collect(kv.second, out);
}

// One random edit somewhere in the document.
inline void mutate(pbt::Choices& c, J& doc, const std::vector<std::string>& names)
{
    std::vector<J*> nodes;
    collect(doc, nodes);
    J& n = *nodes[c.below(nodes.size())];
    auto name = [&]() -> std::string {
        return names.empty() || c.chance(1, 4) ? gen_key(c) : names[c.below(names.size())];
    };
    switch (c.draw(10))
    {
    case 0:
        n = J{};
        return;
    case 1:
        n = gen_any(c);
        return;
    case 2: // number neighbourhood
        if (n.k == J::integer)
        {
            static const i128 d[] = {1, -1, 256, -256, 65536, i128(1) << 31, i128(1) << 32, -(i128(1) << 32), i128(1) << 63};
            i128 v = c.flip() ? n.i + c.pick(d) : -n.i;
            if (v >= -(i128(1) << 63) && v <= (i128(1) << 64) - 1)
                n.i = v;
        }
        else if (n.k == J::real)
            n = J::num(static_cast<i128>(c.draw(100)));
        else
            n = J::num(static_cast<i128>(c.draw(3)));
        return;
    case 3:
        if (n.k == J::integer)
            n = J::dbl(static_cast<double>(n.i) + (c.flip() ? 0.0 : 0.5));
        else if (n.k == J::str && !names.empty())
            n.s = name();
        else
            n = J::string(gen_text(c));
        return;
    case 4: // drop a member / element
        if (!n.o.empty())
            n.o.erase(n.o.begin() + static_cast<long>(c.below(n.o.size())));
        else if (!n.a.empty())
            n.a.erase(n.a.begin() + static_cast<long>(c.below(n.a.size())));
        else
            n = J{};
        return;
    case 5: // extra member / element
        if (n.k == J::obj)
        {
            auto p = n.o.begin() + static_cast<long>(c.below(n.o.size() + 1));
            n.o.insert(p, {name(), gen_any(c, 1)});
        }
        else if (n.k == J::arr)
            n.a.push_back(n.a.empty() || c.flip() ? gen_any(c, 1) : J(n.a[c.below(n.a.size())]));
        else
            n = J::of(c.flip());
        return;
    case 6: // rename a member
        if (!n.o.empty())
            n.o[c.below(n.o.size())].first = name();
        return;
    case 7: // duplicate a member with another value
        if (!n.o.empty())
        {
            auto kv = n.o[c.below(n.o.size())];
            if (c.flip())
                kv.second = gen_any(c, 1);
            n.o.insert(n.o.begin() + static_cast<long>(c.below(n.o.size() + 1)), kv);
        }
        return;
    case 8: // object -> array of its values
        if (n.k == J::obj)
        {
            J a = J::array();
            for (auto& kv : n.o)
                a.a.push_back(kv.second);
            n = a;
        }
        else
        {
            J a = J::array();
            a.a.push_back(n);
            n = a;
        }
        return;
    default: // permute members
        if (n.o.size() > 1)
            std::swap(n.o[c.below(n.o.size())], n.o[c.below(n.o.size())]);
        else if (n.a.size() > 1)
            std::swap(n.a[c.below(n.a.size())], n.a[c.below(n.a.size())]);
        return;
    }
}

} // namespace jm

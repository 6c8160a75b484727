#pragma once
// C31: a type's own conversions and the caller's own context are used everywhere.
//
// Leaf types record every call of their conversion in the context they are handed. The values sit in
// all kinds of containers; the recorded calls and the documents are compared with a model.
#include <array>
#include <charconv>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

#include "jmodel.hpp"

#include "kl/enum_set.hpp"
#include "kl/json.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization.hpp"
#include "kl/serialization_attributes.hpp"
#include "kl/yaml.hpp"

using jm::J;
namespace ks = kl::serialization;
namespace at = kl::serialization::attributes;

namespace cu {

struct Boom
{
    int at;
};

struct Trace
{
    std::vector<std::string> events;
    int countdown = 0;
    void event(std::string s)
    {
        events.push_back(std::move(s));
        if (countdown > 0 && --countdown == 0)
            throw Boom{static_cast<int>(events.size())};
    }
};

template <char L>
struct Leaf
{
    int n = 0;
};
using S = Leaf<'S'>; // serializer<T>
using A = Leaf<'A'>; // ADL overloads for any backend
using B = Leaf<'B'>; // both, complete: serializer<T> wins
using P = Leaf<'P'>; // serializer<T> with dump, deserialize, patch; ADL complete
using Q = Leaf<'Q'>; // serializer<T> with serialize only; ADL complete
using N = Leaf<'N'>; // null when 0 (optional_traits)
using E = Leaf<'E'>; // empty when 0 (empty_traits)
struct R             // reflected, with ADL overloads for the JSON tree only
{
    int n = 0;
};
KL_REFLECT_STRUCT(R, n)
enum class G // reflected, with serializer<T>
{
    g1 = 1,
    g2 = 2,
    g4 = 4
};
KL_REFLECT_ENUM(G, g1, g2, g4)
using Gs = kl::enum_set<G>;
constexpr G all_g[] = {G::g1, G::g2, G::g4};

// ------------------------------------------------------------------------------- contexts
constexpr unsigned slots = 4;
template <typename T>
constexpr unsigned slot_of(const T&)
{
    return 0;
}
constexpr unsigned slot_of(const std::optional<A>&) { return 1; }
constexpr unsigned slot_of(const std::optional<B>&) { return 2; }
constexpr unsigned slot_of(const N&) { return 3; }

struct CtxBase
{
    Trace t;
    unsigned mask = 0; // which kinds of null this context wants left out

    template <typename T>
    bool skip_null_value(const T& v)
    {
        return ks::is_null_value(v) && ((mask >> slot_of(v)) & 1);
    }
};
struct Bare
{
};
template <typename Tag>
struct JTree : CtxBase, Tag
{
    static constexpr bool json = true;
    explicit JTree(kl::json::allocator& a) : al{&a} {}
    kl::json::allocator& allocator() { return *al; }
    kl::json::allocator* al;
};
using JWriter = rapidjson::Writer<rapidjson::StringBuffer>;
template <typename Tag>
struct JStream : CtxBase, Tag
{
    static constexpr bool json = true;
    using writer_type = JWriter;
    explicit JStream(JWriter& w) : w{&w} {}
    JWriter& writer() const { return *w; }
    JWriter* w;
};
template <typename Tag>
struct JRead : CtxBase, Tag
{
    static constexpr bool json = true;
};
template <typename Tag>
struct YTree : CtxBase, Tag
{
    static constexpr bool json = false;
};
template <typename Tag>
struct YStream : CtxBase, Tag
{
    static constexpr bool json = false;
    explicit YStream(YAML::Emitter& e) : e{&e} {}
    YAML::Emitter& emitter() const { return *e; }
    YAML::Emitter* e;
};

template <typename C>
constexpr bool is_json()
{
    if constexpr (std::is_base_of_v<CtxBase, C>)
        return C::json;
    else
        return std::is_base_of_v<kl::json::stream_tag, C> || std::is_base_of_v<kl::json::tree_tag, C>;
}
template <typename C>
void note(C& ctx, const std::string& s)
{
    if constexpr (std::is_base_of_v<CtxBase, C>)
        ctx.t.event(s);
}

// ------------------------------------------------------------------------------- documents
inline YAML::Node to_node(const J& j)
{
    switch (j.k)
    {
    case J::null:
        return YAML::Node{YAML::NodeType::Null};
    case J::arr: {
        YAML::Node n{YAML::NodeType::Sequence};
        for (auto& e : j.a)
            n.push_back(to_node(e));
        return n;
    }
    case J::obj: {
        YAML::Node n{YAML::NodeType::Map};
        for (auto& [k, e] : j.o)
            n.force_insert(k, to_node(e));
        return n;
    }
    case J::integer:
        return YAML::Node{jm::num_text(j.i)};
    default:
        return YAML::Node{j.s};
    }
}
inline J from_node(const YAML::Node& n)
{
    if (!n.IsDefined() || n.IsNull())
        return {};
    if (n.IsScalar())
        return J::string(n.Scalar());
    J j = n.IsSequence() ? J::array() : J::object();
    if (n.IsSequence())
        for (const auto& e : n)
            j.a.push_back(from_node(e));
    else
        for (const auto& kv : n)
            j.put(kv.first.Scalar(), from_node(kv.second));
    return j;
}
// numbers as text, as YAML has them
inline J untyped(J j)
{
    if (j.k == J::integer)
        return J::string(jm::num_text(j.i));
    for (auto& e : j.a)
        e = untyped(e);
    for (auto& kv : j.o)
        kv.second = untyped(kv.second);
    return j;
}
inline std::string shown(const rapidjson::Value& v) { return jm::text(untyped(jm::from_rj(v))); }
inline std::string shown(const YAML::Node& v) { return jm::text(from_node(v)); }
inline std::string shown(const J& v) { return jm::text(untyped(v)); }

// ------------------------------------------------------------------------------- conversions
template <char L>
std::string wire(const Leaf<L>& v)
{
    return std::string(1, L) + std::to_string(v.n);
}
inline std::string wire(const G& v) { return "G" + std::to_string(static_cast<int>(v)); }
template <typename T>
void assign(T& out, int n)
{
    if constexpr (std::is_enum_v<T>)
        out = static_cast<T>(n);
    else
        out.n = n;
}
inline std::string wire(const R& v) { return "R" + std::to_string(v.n); }
inline std::optional<int> unwire(char l, const std::string& s)
{
    int n = 0;
    if (s.size() < 2 || s[0] != l)
        return {};
    auto r = std::from_chars(s.data() + 1, s.data() + s.size(), n);
    if (r.ec != std::errc{} || r.ptr != s.data() + s.size())
        return {};
    return n;
}
template <typename C>
void put_stream(const std::string& s, C& ctx)
{
    if constexpr (is_json<C>())
        kl::json::dump(s, ctx);
    else
        kl::yaml::dump(s, ctx);
}
template <typename C>
auto put_tree(const std::string& s, C& ctx)
{
    if constexpr (is_json<C>())
        return kl::json::serialize(s, ctx);
    else
        return kl::yaml::serialize(s, ctx);
}
template <typename V, typename C>
int take(char l, const V& v, C& ctx)
{
    std::string s;
    if constexpr (is_json<C>())
        kl::json::deserialize(s, v, ctx);
    else
        kl::yaml::deserialize(s, v, ctx);
    auto n = unwire(l, s);
    if (!n)
        throw ks::deserialize_error{"not a leaf: " + s};
    return *n;
}

template <typename Tag>
std::string tag_name()
{
    if constexpr (std::is_same_v<Tag, kl::json::stream_tag>)
        return "json-stream";
    else if constexpr (std::is_same_v<Tag, kl::json::tree_tag>)
        return "json-tree";
    else if constexpr (std::is_same_v<Tag, kl::yaml::stream_tag>)
        return "yaml-stream";
    else if constexpr (std::is_same_v<Tag, kl::yaml::tree_tag>)
        return "yaml-tree";
    else
        return "?";
}

template <typename T, typename C>
void do_dump(const T& v, C& ctx, const std::string& who)
{
    note(ctx, "dump " + who + " " + wire(v));
    put_stream(wire(v), ctx);
}
template <typename T, typename C>
auto do_serialize(const T& v, C& ctx, const std::string& who)
{
    note(ctx, "serialize " + who + " " + wire(v));
    return put_tree(wire(v), ctx);
}
template <typename T, typename V, typename C>
void do_deserialize(T& out, const V& v, C& ctx, const std::string& who)
{
    note(ctx, "deserialize " + who + " " + shown(v));
    assign(out, take(wire(out)[0], v, ctx));
}
template <typename T, typename V, typename C>
void do_patch(T& out, const V& v, C& ctx, const std::string& who)
{
    note(ctx, "patch " + who + " " + wire(out) + " with " + shown(v));
    assign(out, take(wire(out)[0], v, ctx));
}

#define ADL(T)                                                                                              \
    template <typename Tag, typename C>                                                                     \
    void dump_adl(Tag, const T& v, C& ctx)                                                                  \
    {                                                                                                       \
        do_dump(v, ctx, "adl " + tag_name<Tag>());                                                          \
    }                                                                                                       \
    template <typename Tag, typename C>                                                                     \
    auto serialize_adl(Tag, const T& v, C& ctx)                                                             \
    {                                                                                                       \
        return do_serialize(v, ctx, "adl " + tag_name<Tag>());                                              \
    }                                                                                                       \
    template <typename Tag, typename V, typename C>                                                         \
    void deserialize_adl(Tag, T& out, const V& v, C& ctx)                                                   \
    {                                                                                                       \
        do_deserialize(out, v, ctx, "adl " + tag_name<Tag>());                                              \
    }                                                                                                       \
    template <typename Tag, typename V, typename C>                                                         \
    void patch_adl(Tag, T& out, const V& v, C& ctx)                                                         \
    {                                                                                                       \
        do_patch(out, v, ctx, "adl " + tag_name<Tag>());                                                    \
    }
ADL(A)
ADL(B)
ADL(P)
ADL(Q)
#undef ADL

template <typename C>
rapidjson::Value serialize_adl(kl::json::tree_tag, const R& v, C& ctx)
{
    return do_serialize(v, ctx, "adl json-tree");
}
template <typename C>
void deserialize_adl(kl::json::tree_tag, R& out, const rapidjson::Value& v, C& ctx)
{
    do_deserialize(out, v, ctx, "adl json-tree");
}
template <typename C>
void patch_adl(kl::json::tree_tag, R& out, const rapidjson::Value& v, C& ctx)
{
    do_patch(out, v, ctx, "adl json-tree");
}

} // namespace cu

namespace kl::serialization {

struct c31_dump
{
    template <typename T, typename C>
    static void dump(const T& v, C& ctx)
    {
        cu::do_dump(v, ctx, "own");
    }
};
struct c31_serialize
{
    template <typename T, typename C>
    static auto serialize(const T& v, C& ctx)
    {
        return cu::do_serialize(v, ctx, "own");
    }
};
struct c31_read
{
    template <typename T, typename V, typename C>
    static void deserialize(T& out, const V& v, C& ctx)
    {
        cu::do_deserialize(out, v, ctx, "own");
    }
    template <typename T, typename V, typename C>
    static void patch(T& out, const V& v, C& ctx)
    {
        cu::do_patch(out, v, ctx, "own");
    }
};
template <>
struct serializer<cu::S> : c31_dump, c31_serialize, c31_read
{
};
template <>
struct serializer<cu::B> : c31_dump, c31_serialize, c31_read
{
};
template <>
struct serializer<cu::E> : c31_dump, c31_serialize, c31_read
{
};
template <>
struct serializer<cu::G> : c31_dump, c31_serialize, c31_read
{
};
template <>
struct serializer<cu::P> : c31_dump, c31_read
{
};
template <>
struct serializer<cu::Q> : c31_serialize
{
};
template <>
struct serializer<cu::N>
{
    template <typename C>
    static void dump(const cu::N& v, C& ctx)
    {
        if (v.n)
            return cu::do_dump(v, ctx, "own");
        cu::note(ctx, "dump own null");
        if constexpr (cu::is_json<C>())
            json::dump(nullptr, ctx);
        else
            yaml::dump(nullptr, ctx);
    }
    template <typename C>
    static auto serialize(const cu::N& v, C& ctx)
    {
        if (v.n)
            return cu::do_serialize(v, ctx, "own");
        cu::note(ctx, "serialize own null");
        return decltype(cu::do_serialize(v, ctx, "own")){};
    }
    static bool is_null(const rapidjson::Value& v) { return v.IsNull(); }
    static bool is_null(const YAML::Node& v) { return v.IsNull(); }
    template <typename V, typename C>
    static void deserialize(cu::N& out, const V& v, C& ctx)
    {
        if (!is_null(v))
            return cu::do_deserialize(out, v, ctx, "own");
        cu::note(ctx, "deserialize own null");
        out.n = 0;
    }
    template <typename V, typename C>
    static void patch(cu::N& out, const V& v, C& ctx)
    {
        if (!is_null(v))
            return cu::do_patch(out, v, ctx, "own");
        cu::note(ctx, "patch own " + cu::wire(out) + " with null");
        out.n = 0;
    }
};
template <>
struct optional_traits<cu::N>
{
    static bool is_null_value(const cu::N& v) { return v.n == 0; }
};
template <>
struct empty_traits<cu::E>
{
    static bool is_empty_value(const cu::E& v) { return v.n == 0; }
};
} // namespace kl::serialization

namespace cu {

// ------------------------------------------------------------------------------- composites
struct In
{
    S s;
    A a;
    std::optional<B> b;
};
KL_REFLECT_STRUCT(In, s, a, b)
struct Fl
{
    P fp;
    std::optional<S> fo;
    std::map<std::string, std::optional<A>> extra;
};
KL_REFLECT_STRUCT(Fl, fp, fo, (extra, at::extra_fields))
struct Root
{
    S s;
    A a;
    B b;
    P p;
    Q q;
    R r;
    std::optional<S> os;
    std::optional<A> oa;
    std::optional<B> ob;
    std::optional<B> obe;
    std::vector<S> vs;
    std::list<B> lb;
    std::deque<std::optional<P>> dop;
    std::map<std::string, S> ms;
    std::map<std::string, std::optional<A>> moa;
    std::array<Q, 2> aq;
    std::tuple<S, A, std::optional<B>> tp;
    std::pair<R, P> pr;
    std::vector<std::map<std::string, S>> vms;
    std::optional<std::vector<A>> ova;
    In in;
    std::vector<In> vin;
    std::optional<In> oin;
    std::map<std::string, In> mapin;
    N nu;
    N nue;
    N nus;
    std::vector<N> vn;
    std::map<std::string, N> mn;
    E em;
    Fl fl;
    std::vector<R> vr;
    std::optional<Q> oq;
    G g{};
    Gs gs;
    std::vector<G> vg;
};
KL_REFLECT_STRUCT(Root, s, a, b, p, q, r, os, oa, (ob, at::skip_if_null), (obe, at::emit_null), vs, lb, dop, ms, moa, aq,
                  tp, pr, vms, ova, in, vin, oin, mapin, nu, (nue, at::emit_null), (nus, at::skip_if_null), vn, mn,
                  (em, at::skip_if_empty), (fl, at::flatten), vr, oq, g, gs, vg)

enum Skip
{
    by_context,
    emit,
    null,
    empty
};
// the same declarations again, for the model
template <typename X, typename F>
void fields(X& v, F&& f)
{
    using T = std::remove_const_t<X>;
    if constexpr (std::is_same_v<T, R>)
        f("n", v.n, by_context);
    else if constexpr (std::is_same_v<T, In>)
    {
        f("s", v.s, by_context);
        f("a", v.a, by_context);
        f("b", v.b, by_context);
    }
    else if constexpr (std::is_same_v<T, Fl>)
    {
        f("fp", v.fp, by_context);
        f("fo", v.fo, by_context);
        f.extra(v.extra);
    }
    else
    {
        f("s", v.s, by_context);
        f("a", v.a, by_context);
        f("b", v.b, by_context);
        f("p", v.p, by_context);
        f("q", v.q, by_context);
        f("r", v.r, by_context);
        f("os", v.os, by_context);
        f("oa", v.oa, by_context);
        f("ob", v.ob, null);
        f("obe", v.obe, emit);
        f("vs", v.vs, by_context);
        f("lb", v.lb, by_context);
        f("dop", v.dop, by_context);
        f("ms", v.ms, by_context);
        f("moa", v.moa, by_context);
        f("aq", v.aq, by_context);
        f("tp", v.tp, by_context);
        f("pr", v.pr, by_context);
        f("vms", v.vms, by_context);
        f("ova", v.ova, by_context);
        f("in", v.in, by_context);
        f("vin", v.vin, by_context);
        f("oin", v.oin, by_context);
        f("mapin", v.mapin, by_context);
        f("nu", v.nu, by_context);
        f("nue", v.nue, emit);
        f("nus", v.nus, null);
        f("vn", v.vn, by_context);
        f("mn", v.mn, by_context);
        f("em", v.em, empty);
        f.flat(v.fl);
        f("vr", v.vr, by_context);
        f("oq", v.oq, by_context);
        f("g", v.g, by_context);
        f("gs", v.gs, by_context);
        f("vg", v.vg, by_context);
    }
}

// ------------------------------------------------------------------------------- model
struct DeErr
{
};
struct Way // how a request reaches the leaves
{
    bool json = true;
    bool stream = false;
    unsigned mask = ~0u;
    std::string tag() const { return std::string(json ? "json-" : "yaml-") + (stream ? "stream" : "tree"); }
};
using Log = std::vector<std::string>;

template <typename T>
struct is_leaf : std::false_type
{
};
template <char L>
struct is_leaf<Leaf<L>> : std::true_type
{
};
template <>
struct is_leaf<G> : std::true_type
{
};
template <typename T>
struct is_opt : std::false_type
{
};
template <typename T>
struct is_opt<std::optional<T>> : std::true_type
{
};
template <typename T>
struct is_tup : std::false_type
{
};
template <typename... T>
struct is_tup<std::tuple<T...>> : std::true_type
{
};
template <typename X, typename Y>
struct is_tup<std::pair<X, Y>> : std::true_type
{
};
template <typename T>
struct is_map : std::false_type
{
};
template <typename T>
struct is_map<std::map<std::string, T>> : std::true_type
{
};
template <typename T>
struct is_arr : std::false_type
{
};
template <typename T, size_t K>
struct is_arr<std::array<T, K>> : std::true_type
{
};
template <typename T>
constexpr bool is_struct = std::is_same_v<T, In> || std::is_same_v<T, Fl> || std::is_same_v<T, Root> || std::is_same_v<T, R>;

template <typename T>
bool null_now(const T& v)
{
    if constexpr (is_opt<T>::value)
        return !v;
    else if constexpr (std::is_same_v<T, N>)
        return v.n == 0;
    else
        return false;
}
template <typename T>
bool left_out(const T& v, const Way& w)
{
    return null_now(v) && ((w.mask >> slot_of(v)) & 1);
}

// who converts a leaf: the verb is one of dump, serialize, deserialize, patch
template <typename T>
std::string who(const std::string& verb, const Way& w)
{
    bool own;
    if constexpr (std::is_same_v<T, A> || std::is_same_v<T, R>)
        own = false;
    else if constexpr (std::is_same_v<T, P>)
        own = verb != "serialize";
    else if constexpr (std::is_same_v<T, Q>)
        own = verb == "serialize";
    else
        own = true;
    return verb + (own ? " own " : " adl " + w.tag() + " ");
}

template <typename T>
J mser(const T& v, const Way& w, Log& log);

struct SerFields
{
    J& out;
    const Way& w;
    Log& log;
    template <typename T>
    void operator()(const char* name, const T& v, Skip s)
    {
        bool skip = false;
        if (s == by_context)
            skip = left_out(v, w);
        else if (s == null)
            skip = null_now(v);
        else if constexpr (std::is_same_v<T, E>)
            skip = s == empty && v.n == 0;
        if (!skip)
            out.put(name, mser(v, w, log));
    }
    template <typename T>
    void flat(const T& v)
    {
        fields(v, *this);
    }
    template <typename T>
    void extra(const T& m)
    {
        for (auto& [k, v] : m)
            if (!left_out(v, w))
                out.put(k, mser(v, w, log));
    }
};

template <typename T>
J mser(const T& v, const Way& w, Log& log)
{
    const std::string verb = w.stream ? "dump" : "serialize";
    if constexpr (std::is_same_v<T, int>)
        return J::num(v);
    else if constexpr (std::is_same_v<T, N>)
    {
        log.push_back(who<T>(verb, w) + (v.n ? wire(v) : "null"));
        return v.n ? J::string(wire(v)) : J{};
    }
    else if constexpr (is_leaf<T>::value)
    {
        log.push_back(who<T>(verb, w) + wire(v));
        return J::string(wire(v));
    }
    else if constexpr (std::is_same_v<T, Gs>)
    {
        J a = J::array();
        for (auto g : all_g)
            if (v.underlying_value() & static_cast<int>(g))
                a.a.push_back(mser(g, w, log));
        return a;
    }
    else if constexpr (is_opt<T>::value)
        return v ? mser(*v, w, log) : J{};
    else if constexpr (is_tup<T>::value)
    {
        J a = J::array();
        std::apply([&](auto&... e) { (a.a.push_back(mser(e, w, log)), ...); }, v);
        return a;
    }
    else if constexpr (is_map<T>::value)
    {
        J o = J::object();
        for (auto& [k, e] : v)
            if (!left_out(e, w))
                o.put(k, mser(e, w, log));
        return o;
    }
    else if constexpr (is_struct<T>)
    {
        if constexpr (std::is_same_v<T, R>)
            if (w.json && !w.stream)
            {
                log.push_back(who<T>(verb, w) + wire(v));
                return J::string(wire(v));
            }
        J o = J::object();
        fields(v, SerFields{o, w, log});
        return o;
    }
    else
    {
        J a = J::array();
        for (auto& e : v)
            a.a.push_back(mser(e, w, log));
        return a;
    }
}

template <typename T>
void mde(T& out, const J& d, const Way& w, Log& log);
template <typename T>
void mpatch(T& out, const J& d, const Way& w, Log& log);

struct ReadFields
{
    const J& d;
    bool patching;
    const Way& w;
    Log& log;
    std::vector<std::string> names;
    template <typename T>
    void operator()(const char* name, T& v, Skip)
    {
        static const J none;
        const J* x = d.find(name);
        if (patching)
        {
            if (x)
                mpatch(v, *x, w, log);
        }
        else
            mde(v, x ? *x : none, w, log);
    }
    template <typename T>
    void flat(T& v)
    {
        fields(v, *this);
    }
    template <typename T>
    void extra(T& m)
    {
        if (!patching)
            m.clear();
        for (auto& [k, x] : d.o)
        {
            if (std::find(names.begin(), names.end(), k) != names.end())
                continue;
            auto it = m.find(k);
            if (!patching || it == m.end())
            {
                typename T::mapped_type e{};
                patching ? mpatch(e, x, w, log) : mde(e, x, w, log);
                m.emplace(k, e);
            }
            else
                mpatch(it->second, x, w, log);
        }
    }
};
struct Names
{
    std::vector<std::string>& out;
    template <typename T>
    void operator()(const char* name, T&, Skip)
    {
        out.push_back(name);
    }
    template <typename T>
    void flat(T& v)
    {
        fields(v, *this);
    }
    template <typename T>
    void extra(T&)
    {
    }
};
template <typename T>
void read_struct(T& out, const J& d, bool patching, const Way& w, Log& log)
{
    if (d.k != J::obj)
        throw DeErr{};
    ReadFields f{d, patching, w, log, {}};
    fields(out, Names{f.names});
    fields(out, f);
}

template <typename T>
void leaf_read(T& out, const J& d, const std::string& verb, const Way& w, Log& log)
{
    const bool null = d.k == J::null;
    std::string e = who<T>(verb, w);
    if (verb == "patch")
        e += wire(out) + " with ";
    log.push_back(e + (null ? "null" : shown(d)));
    if constexpr (std::is_same_v<T, N>)
        if (null)
        {
            out.n = 0;
            return;
        }
    const std::string s = d.k == J::integer && !w.json ? jm::num_text(d.i) : d.k == J::str ? d.s : std::string();
    auto n = unwire(wire(out)[0], s);
    if (!n)
        throw DeErr{};
    assign(out, *n);
}

template <typename T>
void mde(T& out, const J& d, const Way& w, Log& log)
{
    if constexpr (std::is_same_v<T, int>)
    {
        if (d.k != J::integer)
            throw DeErr{};
        out = static_cast<int>(d.i);
    }
    else if constexpr (is_leaf<T>::value)
        leaf_read(out, d, "deserialize", w, log);
    else if constexpr (std::is_same_v<T, Gs>)
    {
        if (d.k != J::arr)
            throw DeErr{};
        int n = 0;
        for (auto& x : d.a)
        {
            G g{};
            mde(g, x, w, log);
            n |= static_cast<int>(g);
        }
        out = Gs{static_cast<G>(n)};
    }
    else if constexpr (is_opt<T>::value)
    {
        if (d.k == J::null)
        {
            out.reset();
            return;
        }
        typename T::value_type e{};
        mde(e, d, w, log);
        out = e;
    }
    else if constexpr (is_tup<T>::value || is_arr<T>::value)
    {
        if (d.k != J::arr || d.a.size() > std::tuple_size_v<T>)
            throw DeErr{};
        static const J none;
        size_t i = 0;
        std::apply(
            [&](auto&... e) {
                ((mde(e, i < d.a.size() ? d.a[i] : none, w, log), ++i), ...);
            },
            out);
    }
    else if constexpr (is_map<T>::value)
    {
        if (d.k != J::obj)
            throw DeErr{};
        out.clear();
        for (auto& [k, x] : d.o)
        {
            typename T::mapped_type e{};
            mde(e, x, w, log);
            out.emplace(k, e);
        }
    }
    else if constexpr (is_struct<T>)
    {
        if constexpr (std::is_same_v<T, R>)
            if (w.json)
                return leaf_read(out, d, "deserialize", w, log);
        read_struct(out, d, false, w, log);
    }
    else
    {
        if (d.k != J::arr)
            throw DeErr{};
        out.clear();
        for (auto& x : d.a)
        {
            typename T::value_type e{};
            mde(e, x, w, log);
            out.push_back(e);
        }
    }
}
template <typename T>
void mpatch(T& out, const J& d, const Way& w, Log& log)
{
    if constexpr (is_leaf<T>::value)
        leaf_read(out, d, "patch", w, log);
    else if constexpr (is_opt<T>::value)
    {
        if (d.k == J::null)
        {
            out.reset();
            return;
        }
        typename T::value_type e{};
        if (out)
            e = *out;
        mpatch(e, d, w, log);
        out = e;
    }
    else if constexpr (is_struct<T>)
    {
        if constexpr (std::is_same_v<T, R>)
            if (w.json)
                return leaf_read(out, d, "patch", w, log);
        read_struct(out, d, true, w, log);
    }
    else
        mde(out, d, w, log);
}

// ------------------------------------------------------------------------------- generators
template <typename T>
void gen(pbt::Choices& c, T& v);
struct GenFields
{
    pbt::Choices& c;
    template <typename T>
    void operator()(const char*, T& v, Skip)
    {
        gen(c, v);
    }
    template <typename T>
    void flat(T& v)
    {
        fields(v, *this);
    }
    template <typename T>
    void extra(T& m)
    {
        static const std::vector<std::string> keys = {"x1", "x2", "S5", "fpp", "zz"};
        if (c.chance(1, 2))
            for (size_t n = c.below(3); n; --n)
            {
                typename T::mapped_type e{};
                gen(c, e);
                m.emplace(c.pick(keys), e);
            }
    }
};
template <typename T>
void gen(pbt::Choices& c, T& v)
{
    if constexpr (std::is_same_v<T, int>)
        v = static_cast<int>(c.draw(100));
    else if constexpr (std::is_same_v<T, G>)
        v = c.pick(all_g);
    else if constexpr (std::is_same_v<T, Gs>)
        v = Gs{static_cast<G>(c.draw(8))};
    else if constexpr (is_leaf<T>::value || std::is_same_v<T, R>)
        v.n = static_cast<int>(c.draw(8));
    else if constexpr (is_opt<T>::value)
    {
        if (c.flip())
        {
            v.emplace();
            gen(c, *v);
        }
    }
    else if constexpr (is_tup<T>::value || is_arr<T>::value)
        std::apply([&](auto&... e) { (gen(c, e), ...); }, v);
    else if constexpr (is_map<T>::value)
    {
        static const std::vector<std::string> keys = {"k", "l", "s", "fp"};
        if (c.chance(1, 2))
            for (size_t n = c.below(3); n; --n)
            {
                typename T::mapped_type e{};
                gen(c, e);
                v.emplace(c.pick(keys), e);
            }
    }
    else if constexpr (is_struct<T>)
        fields(v, GenFields{c});
    else if (c.chance(1, 2))
        for (size_t n = c.below(4); n; --n)
        {
            typename T::value_type e{};
            gen(c, e);
            v.push_back(e);
        }
}

template <typename T>
std::string dumped(const T& v)
{
    Log l;
    Way w;
    w.mask = 0;
    w.stream = true;
    return jm::text(mser(v, w, l));
}

inline void same_events(Log got, Log want, const std::string& what)
{
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got == want)
        return;
    std::ostringstream os;
    os << what << ": the conversions called are not those of the values, each once;";
    Log only;
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(only));
    for (auto& e : only)
        os << " unexpected [" << e << "]";
    only.clear();
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(only));
    for (auto& e : only)
        os << " missing [" << e << "]";
    PBT_FAIL(os.str());
}
inline void same_doc(const J& got, const J& want, const std::string& what)
{
    if (!jm::same(got, want, false))
        PBT_FAIL(what + ": wrote " + jm::text(got) + ", expected " + jm::text(want));
}

// The library is called here and nowhere else; CU_IMPL is set where the calls are compiled.
template <typename T>
struct Json
{
    static J write(const T& v, CtxBase& result, const Way& w, bool bare, bool builders);
    static J plain(const T& v, bool stream);
    static void read(T& v, const J& doc, CtxBase& result, bool patching, bool bare, int extract);
};
template <typename T>
struct Yaml
{
    static J write(const T& v, CtxBase& result, const Way& w, bool bare, bool builders);
    static J plain(const T& v, bool stream);
    static void read(T& v, const J& doc, CtxBase& result, bool patching, bool bare, int extract);
};

#ifdef CU_IMPL
// runs fn with ctx; the events are kept, also when a conversion throws
template <typename C, typename F>
auto with(C& ctx, CtxBase& result, unsigned mask, F&& fn)
{
    ctx.t = result.t;
    ctx.mask = mask;
    struct Keep
    {
        CtxBase& from;
        CtxBase& to;
        ~Keep() { to.t = from.t; }
    } k{ctx, result};
    return fn(ctx);
}

template <typename T>
J Json<T>::write(const T& v, CtxBase& result, const Way& w, bool bare, bool builders)
{
    if (!w.stream)
    {
        rapidjson::Document d;
        auto done = [](rapidjson::Value x) { return jm::from_rj(x); };
        if (bare)
        {
            JTree<Bare> ctx{d.GetAllocator()};
            return with(ctx, result, w.mask, [&](auto& x) {
                if (!builders)
                    return done(kl::json::serialize(v, x));
                auto o = kl::json::to_object(x);
                o.add("v", v);
                o.add_dynamic_name(std::string("w"), kl::json::to_array(x).add(v).done());
                return done(o.done());
            });
        }
        JTree<kl::json::tree_tag> ctx{d.GetAllocator()};
        return with(ctx, result, w.mask, [&](auto& x) { return done(ks::serialize(v, x)); });
    }
    rapidjson::StringBuffer buf;
    JWriter wr{buf};
    if (bare)
    {
        JStream<Bare> ctx{wr};
        with(ctx, result, w.mask, [&](auto& x) { kl::json::dump(v, x); });
    }
    else
    {
        JStream<kl::json::stream_tag> ctx{wr};
        with(ctx, result, w.mask, [&](auto& x) { ks::dump(v, x); });
    }
    return jm::parse_text({buf.GetString(), buf.GetSize()});
}
template <typename T>
J Json<T>::plain(const T& v, bool stream)
{
    return stream ? jm::parse_text(kl::json::dump(v)) : jm::from_rj(kl::json::serialize(v));
}
template <typename T>
void Json<T>::read(T& v, const J& doc, CtxBase& result, bool patching, bool bare, int extract)
{
    rapidjson::Document d;
    rapidjson::Value x = jm::to_rj(doc, d.GetAllocator());
    if (bare)
    {
        JRead<Bare> ctx;
        return with(ctx, result, 0, [&](auto& y) {
            if (patching)
                kl::json::patch(v, x, y);
            else if (extract == 1)
                kl::json::from_object(x, y).extract("v", v);
            else if (extract == 2)
                kl::json::from_array(x, y).extract(v, 1);
            else if (extract == 3)
                v = kl::json::deserialize<T>(x, y);
            else
                kl::json::deserialize(v, x, y);
        });
    }
    JRead<kl::json::tree_tag> ctx;
    with(ctx, result, 0, [&](auto& y) { patching ? ks::patch(v, x, y) : ks::deserialize(v, x, y); });
}

template <typename T>
J Yaml<T>::write(const T& v, CtxBase& result, const Way& w, bool bare, bool builders)
{
    if (!w.stream)
    {
        if (bare)
        {
            YTree<Bare> ctx;
            return with(ctx, result, w.mask, [&](auto& x) {
                if (!builders)
                    return from_node(kl::yaml::serialize(v, x));
                auto o = kl::yaml::to_map(x);
                o.add("v", v);
                o.add("w", kl::yaml::to_sequence(x).add(v).done());
                return from_node(o.done());
            });
        }
        YTree<kl::yaml::tree_tag> ctx;
        return with(ctx, result, w.mask, [&](auto& x) { return from_node(ks::serialize(v, x)); });
    }
    YAML::Emitter em;
    if (bare)
    {
        YStream<Bare> ctx{em};
        with(ctx, result, w.mask, [&](auto& x) { kl::yaml::dump(v, x); });
    }
    else
    {
        YStream<kl::yaml::stream_tag> ctx{em};
        with(ctx, result, w.mask, [&](auto& x) { ks::dump(v, x); });
    }
    return from_node(YAML::Load(em.c_str()));
}
template <typename T>
J Yaml<T>::plain(const T& v, bool stream)
{
    return from_node(stream ? YAML::Load(kl::yaml::dump(v)) : kl::yaml::serialize(v));
}
template <typename T>
void Yaml<T>::read(T& v, const J& doc, CtxBase& result, bool patching, bool bare, int extract)
{
    YAML::Node x = to_node(doc);
    if (bare)
    {
        YTree<Bare> ctx;
        return with(ctx, result, 0, [&](auto& y) {
            if (patching)
                kl::yaml::patch(v, x, y);
            else if (extract == 1)
                kl::yaml::from_map(x, y).extract("v", v);
            else if (extract == 2)
                kl::yaml::from_sequence(x, y).extract(v, 1);
            else if (extract == 3)
                v = kl::yaml::deserialize<T>(x, y);
            else
                kl::yaml::deserialize(v, x, y);
        });
    }
    YTree<kl::yaml::tree_tag> ctx;
    with(ctx, result, 0, [&](auto& y) { patching ? ks::patch(v, x, y) : ks::deserialize(v, x, y); });
}
#endif

using MapOA = std::map<std::string, std::optional<A>>;
using Tup = std::tuple<S, A, std::optional<B>>;
} // namespace cu

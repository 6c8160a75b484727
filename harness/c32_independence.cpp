// C32: values, documents and texts do not share state.
//
// A history of writing, reading, patching, changing and destroying works on a handful of values, JSON
// documents and YAML documents. Each has a deep snapshot; an operation may change only its target.
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

#include "jmodel.hpp"

#include "kl/json.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization_attributes.hpp"
#include "kl/yaml.hpp"

const char* const property_rule =
    "non-trivial: at least one document or value outlived the changed or destroyed source it was made from";

using jm::J;
namespace at = kl::serialization::attributes;

namespace in {
enum class Hue { red, a_very_long_enumerator_name_indeed };
KL_REFLECT_ENUM(Hue, red, a_very_long_enumerator_name_indeed)
struct Part
{
    std::string s;
    std::optional<std::string> o;
    std::vector<std::string> v;
    std::map<std::string, std::string> m;
    Hue h{};
    bool b{};
    std::vector<std::optional<bool>> vb;
    auto tie() const { return std::tie(s, o, v, m, h, b, vb); }
};
KL_REFLECT_STRUCT(Part, s, o, v, m, h, b, vb)
struct Flat
{
    std::string flat;
    std::optional<int> number;
    auto tie() const { return std::tie(flat, number); }
};
KL_REFLECT_STRUCT(Flat, flat, (number, at::emit_null))
struct Rec
{
    std::string name;
    int n{};
    Part part;
    std::vector<Part> parts;
    std::map<std::string, Part> by;
    std::optional<Part> op;
    std::tuple<std::string, std::string> t;
    std::array<std::string, 2> a;
    Flat f;
    std::map<std::string, std::string> extra;
    auto tie() const { return std::tie(name, n, part, parts, by, op, t, a, f, extra); }
};
KL_REFLECT_STRUCT(Rec, (name, at::rename("the name")), n, part, (parts, at::aliases("pieces")), (by, at::allow_missing), op, t, a,
                  (f, at::flatten), (extra, at::extra_fields))
inline bool operator==(const Part& a, const Part& b) { return a.tie() == b.tie(); }
inline bool operator==(const Flat& a, const Flat& b) { return a.tie() == b.tie(); }
inline bool operator==(const Rec& a, const Rec& b) { return a.tie() == b.tie(); }

// applies fn to every string held by the value
template <typename F>
void strings(Part& p, F&& fn)
{
    fn(p.s);
    if (p.o)
        fn(*p.o);
    for (auto& x : p.v)
        fn(x);
    for (auto& [k, x] : p.m)
        fn(x);
}
template <typename F>
void strings(Rec& r, F&& fn)
{
    fn(r.name);
    strings(r.part, fn);
    for (auto& p : r.parts)
        strings(p, fn);
    for (auto& [k, p] : r.by)
        strings(p, fn);
    if (r.op)
        strings(*r.op, fn);
    fn(std::get<0>(r.t));
    fn(std::get<1>(r.t));
    for (auto& x : r.a)
        fn(x);
    fn(r.f.flat);
    for (auto& [k, x] : r.extra)
        fn(x);
}

std::string text(pbt::Choices& c)
{
    // around the sizes kept inside a std::string (15) and a rapidjson value (13, 21)
    static const size_t sizes[] = {2, 0, 13, 14, 15, 16, 21, 22, 40};
    std::string s(c.pick(sizes), static_cast<char>('a' + c.draw(26)));
    if (!s.empty() && c.flip())
        s.back() = static_cast<char>('A' + c.draw(26));
    return s;
}
std::string key(pbt::Choices& c) { return "k" + text(c); }
Part part(pbt::Choices& c)
{
    Part p;
    p.s = text(c);
    if (c.flip())
        p.o = text(c);
    for (size_t n = c.below(3); n; --n)
        p.v.push_back(text(c));
    for (size_t n = c.below(3); n; --n)
        p.m[key(c)] = text(c);
    p.b = c.flip();
    for (size_t n = c.below(3); n; --n)
        p.vb.push_back(c.flip() ? std::optional<bool>() : std::optional<bool>(c.flip()));
    p.h = c.flip() ? Hue::a_very_long_enumerator_name_indeed : Hue::red;
    return p;
}
Rec rec(pbt::Choices& c)
{
    Rec r;
    r.name = text(c);
    r.n = static_cast<int>(c.draw(1000));
    r.part = part(c);
    for (size_t n = c.below(3); n; --n)
        r.parts.push_back(part(c));
    for (size_t n = c.below(3); n; --n)
        r.by[key(c)] = part(c);
    if (c.flip())
        r.op = part(c);
    r.t = {text(c), text(c)};
    r.a = {text(c), text(c)};
    r.f.flat = text(c);
    if (c.flip())
        r.f.number = static_cast<int>(c.draw(5));
    for (size_t n = c.below(3); n; --n)
        r.extra["x_" + text(c)] = text(c);
    return r;
}

J from_node(const YAML::Node& n)
{
    if (!n.IsDefined() || n.IsNull())
        return {};
    if (n.IsScalar())
        return J::string(n.Scalar());
    J j = n.IsSequence() ? J::array() : J::object();
    if (n.IsSequence())
        for (const auto& e : n)
            j.a.push_back(from_node(e));
    else
        for (const auto& kv : n)
            j.put(kv.first.Scalar(), from_node(kv.second));
    return j;
}

// ----------------------------------------------------------------------------------- the world
struct Value
{
    std::unique_ptr<Rec> live;
    Rec snap;
    bool source = false; // something was made from it
};
struct Arena
{
    kl::json::owning_serialize_context ctx;
};
struct Doc
{
    std::shared_ptr<Arena> arena; // or
    std::unique_ptr<rapidjson::Document> own;
    std::unique_ptr<rapidjson::Value> val; // in the arena
    J snap;
    bool source = false;
    rapidjson::Value& live() { return own ? *own : *val; }
    rapidjson::Document::AllocatorType& alloc() { return own ? own->GetAllocator() : arena->ctx.allocator(); }
};
struct Yam
{
    std::unique_ptr<YAML::Node> live;
    J snap;
    bool source = false;
};

struct World
{
    pbt::Choices& c;
    std::vector<Value> vs;
    std::vector<Doc> ds;
    std::vector<Yam> ys;
    std::shared_ptr<Arena> arena;
    static constexpr size_t most = 4;

    void check(const std::string& after)
    {
        for (size_t i = 0; i < vs.size(); ++i)
            PBT_CHECK(*vs[i].live == vs[i].snap, "value " << i << " changed: " << after);
        for (size_t i = 0; i < ds.size(); ++i)
        {
            J now = jm::from_rj(ds[i].live());
            if (!jm::same(now, ds[i].snap, true))
                PBT_FAIL("JSON document " + std::to_string(i) + " changed: " + after + ": is " + jm::text(now) + ", was " + jm::text(ds[i].snap));
        }
        for (size_t i = 0; i < ys.size(); ++i)
        {
            J now = from_node(*ys[i].live);
            if (!jm::same(now, ys[i].snap, true))
                PBT_FAIL("YAML document " + std::to_string(i) + " changed: " + after + ": is " + jm::text(now) + ", was " + jm::text(ys[i].snap));
        }
    }
    Value& value() { return vs[c.below(vs.size())]; }
    void add(Rec r)
    {
        Value v;
        v.live = std::make_unique<Rec>(std::move(r));
        v.snap = *v.live;
        vs.push_back(std::move(v));
    }
    void add(Doc d)
    {
        d.snap = jm::from_rj(d.live());
        ds.push_back(std::move(d));
    }
    void add(YAML::Node n)
    {
        Yam y;
        y.live = std::make_unique<YAML::Node>(std::move(n));
        y.snap = from_node(*y.live);
        ys.push_back(std::move(y));
    }

    // ------------------------------------------------------------------------------- making documents
    rapidjson::Value build(kl::json::serialize_context& ctx, const Rec& r, Value& v)
    {
        v.source = true;
        auto o = kl::json::to_object(ctx);
        {
            // names and texts that are gone once the builder has seen them
            std::string k1 = "name " + text(c), k2 = "dynamic " + text(c), t = text(c);
            o.add_dynamic_name(k1, r.part);
            o.add_dynamic_name(k2, t);
            std::vector<char> buf(t.begin(), t.end());
            buf.push_back('\0');
            o.add_dynamic_name(k1 + "2", static_cast<const char*>(buf.data()));
            o.add_dynamic_name(k1 + "3", std::string_view(t));
            std::fill(t.begin(), t.end(), '!');
            std::fill(k1.begin(), k1.end(), '?');
        }
        auto a = kl::json::to_array(ctx);
        a.add(r.name).add(std::string_view(r.name)).add(r.name.c_str()).add(nullptr).add(r.n).add(r.op);
        o.add("array", a.done());
        o.add("extra", r.extra);
        return o.done();
    }
    void json_from_value()
    {
        Value& v = value();
        v.source = true;
        Doc d;
        switch (c.draw(5))
        {
        case 0:
            d.own = std::make_unique<rapidjson::Document>(kl::json::serialize(*v.live));
            break;
        case 1: {
            d.own = std::make_unique<rapidjson::Document>();
            kl::json::serialize_context ctx{*d.own, c.flip()};
            static_cast<rapidjson::Value&>(*d.own) = kl::json::serialize(*v.live, ctx);
            break;
        }
        case 2: {
            if (!arena || c.chance(1, 4))
                arena = std::make_shared<Arena>();
            d.arena = arena;
            d.val = std::make_unique<rapidjson::Value>(kl::json::serialize(*v.live, arena->ctx));
            break;
        }
        case 3: {
            d.own = std::make_unique<rapidjson::Document>();
            kl::json::serialize_context ctx{*d.own};
            static_cast<rapidjson::Value&>(*d.own) = build(ctx, *v.live, v);
            break;
        }
        default: {
            std::string tx = c.flip() ? kl::json::dump(*v.live) : kl::json::pretty_dump(*v.live);
            d.own = std::make_unique<rapidjson::Document>(kl::json::parse(tx));
            std::fill(tx.begin(), tx.end(), '#');
        }
        }
        add(std::move(d));
    }
    void json_from_view()
    {
        Doc& s = ds[c.below(ds.size())];
        s.source = true;
        kl::json::view w;
        kl::json::deserialize(w, s.live());
        PBT_CHECK(w && &*w == &s.live(), "a view read from a document does not show it");
        if (s.live().IsObject() && s.live().MemberCount() && c.flip())
            w = kl::json::view{(s.live().MemberBegin() + static_cast<long>(c.below(s.live().MemberCount())))->value};
        const J want = jm::from_rj(*w);
        Doc d;
        d.own = std::make_unique<rapidjson::Document>();
        kl::json::serialize_context ctx{*d.own};
        auto o = kl::json::to_object(ctx);
        o.add("view", w);
        std::vector<kl::json::view> many(2, w);
        o.add("views", many);
        static_cast<rapidjson::Value&>(*d.own) = o.done();
        add(std::move(d));
        for (auto* j : {&ds.back().snap.at("view"), &ds.back().snap.at("views").a[0], &ds.back().snap.at("views").a[1]})
            PBT_CHECK(jm::same(*j, want, true), "the copy of a view is " << *j << ", the view shows " << want);
    }
    void yaml_from_value()
    {
        Value& v = value();
        v.source = true;
        switch (c.draw(4))
        {
        case 0:
            return add(kl::yaml::serialize(*v.live));
        case 1: {
            kl::yaml::serialize_context ctx{c.flip()};
            return add(kl::yaml::serialize(*v.live, ctx));
        }
        case 2: {
            kl::yaml::serialize_context ctx;
            auto m = kl::yaml::to_map(ctx);
            std::string k = "name " + text(c), t = text(c);
            m.add(k, t).add(k + "2", v.live->part).add("static", v.live->name.c_str());
            auto s = kl::yaml::to_sequence(ctx);
            s.add(v.live->op).add(v.live->extra).add(t).add(nullptr).add(v.live->n);
            m.add("seq", s.done()).add("nothing", nullptr);
            std::fill(k.begin(), k.end(), '?');
            std::fill(t.begin(), t.end(), '!');
            return add(m.done());
        }
        default: {
            std::string tx = kl::yaml::dump(*v.live);
            add(kl::yaml::parse(tx.c_str()));
            std::fill(tx.begin(), tx.end(), '#');
        }
        }
    }

    // ------------------------------------------------------------------------------- reading
    template <typename Node, typename Read, typename Patch, typename Make>
    void read_from(const Node& node, bool& source, Read&& read, Patch&& patch, Make&& make)
    {
        try
        {
            if (vs.empty() || (vs.size() < most && c.flip()))
            {
                source = true;
                Rec r = c.flip() ? make(node) : Rec{};
                Rec again;
                read(r, node);
                read(again, node);
                PBT_CHECK(r == again, "reading the same document twice gives different values");
                add(std::move(r));
                return;
            }
            Value& v = value();
            struct Keep // a rejected document may have changed the target
            {
                Value& v;
                ~Keep() { v.snap = *v.live; }
            } keep{v};
            source = true;
            if (c.flip())
            {
                patch(*v.live, node);
                Rec once = *v.live;
                patch(*v.live, node);
                PBT_CHECK(*v.live == once, "patching twice with the same document differs from patching once");
            }
            else
                read(*v.live, node);
        }
        catch (const kl::serialization::deserialize_error&)
        {
            c.label("rejected");
        }
    }
    void read_json()
    {
        Doc& d = ds[c.below(ds.size())];
        read_from(
            d.live(), d.source, [](Rec& r, const rapidjson::Value& x) { kl::json::deserialize(r, x); },
            [](Rec& r, const rapidjson::Value& x) { kl::json::patch(r, x); }, [](const rapidjson::Value& x) { return kl::json::deserialize<Rec>(x); });
    }
    void read_yaml()
    {
        Yam& y = ys[c.below(ys.size())];
        read_from(
            *y.live, y.source, [](Rec& r, const YAML::Node& x) { kl::yaml::deserialize(r, x); }, [](Rec& r, const YAML::Node& x) { kl::yaml::patch(r, x); },
            [](const YAML::Node& x) { return kl::yaml::deserialize<Rec>(x); });
    }
    void read_parts()
    {
        if (!ds.empty() && c.flip())
        {
            Doc& d = ds[c.below(ds.size())];
            if (!d.live().IsObject())
                return;
            try
            {
                kl::json::deserialize_context ctx;
                auto e = kl::json::from_object(d.live(), ctx);
                std::optional<std::string> missing = "there";
                std::optional<int> n;
                kl::json::view w;
                e.extract("not there", missing).extract("n", n).extract("part", w);
                PBT_CHECK(!missing, "a missing member is read as something");
            }
            catch (const kl::serialization::deserialize_error&)
            {
                c.label("rejected");
            }
            PBT_CHECK(kl::json::at(std::as_const(d.live()).GetObject(), "not there").IsNull(), "a missing member is not null");
        }
        else if (!ys.empty())
        {
            Yam& y = ys[c.below(ys.size())];
            if (!y.live->IsMap())
                return;
            // the result of a failed look-up belongs to the caller
            YAML::Node n = kl::yaml::at(*y.live, "not there");
            PBT_CHECK(n.IsNull(), "a missing member is not null");
            const unsigned how = static_cast<unsigned>(c.draw(3));
            if (how == 0)
                n = "assigned";
            else if (how == 1)
                n["k"] = 1;
            else
                n.push_back("pushed");
            PBT_CHECK(kl::yaml::at(*y.live, "also not there").IsNull() && kl::yaml::at(*y.live, std::string("not there")).IsNull(),
                      "a missing member is not null after the result of an earlier look-up was assigned to");
            YAML::Node seq{YAML::NodeType::Sequence};
            YAML::Node e = kl::yaml::at(seq, std::size_t{3});
            PBT_CHECK(e.IsNull(), "a missing element is not null");
            e = "assigned";
            PBT_CHECK(kl::yaml::at(seq, std::size_t{3}).IsNull() && seq.size() == 0, "a missing element is not null after an earlier result was assigned to");
            std::optional<std::string> missing = "there";
            kl::yaml::deserialize_context ctx;
            kl::yaml::from_map(*y.live, ctx).extract("not there", missing);
            PBT_CHECK(!missing, "a missing member is read as something");
        }
    }

    // ------------------------------------------------------------------------------- changing
    void change_value()
    {
        Value& v = value();
        if (v.source)
            c.nontrivial();
        if (c.flip())
            strings(*v.live, [](std::string& s) { std::fill(s.begin(), s.end(), '*'); });
        else
            *v.live = rec(c);
        v.snap = *v.live;
    }
    void change_json()
    {
        Doc& d = ds[c.below(ds.size())];
        if (d.source)
            c.nontrivial();
        rapidjson::Value* x = &d.live();
        J* m = &d.snap; // what x is to be; everything around it stays
        while (true)
        {
            if (x->IsObject() && x->MemberCount() && c.chance(3, 4))
            {
                const size_t i = c.below(x->MemberCount());
                x = &(x->MemberBegin() + static_cast<long>(i))->value;
                m = &m->o.at(i).second;
            }
            else if (x->IsArray() && x->Size() && c.chance(3, 4))
            {
                const size_t i = c.below(x->Size());
                x = &(*x)[static_cast<rapidjson::SizeType>(i)];
                m = &m->a.at(i);
            }
            else
                break;
        }
        if (x->IsObject() && c.flip())
        {
            x->AddMember("added", rapidjson::Value{1}, d.alloc());
            m->put("added", J::num(1));
        }
        else if (x->IsArray() && c.flip())
        {
            x->PushBack(rapidjson::Value{"added"}, d.alloc());
            m->a.push_back(J::string("added"));
        }
        else if (c.flip())
        {
            x->SetNull();
            *m = J{};
        }
        else
        {
            const std::string s = text(c);
            x->SetString(s.data(), static_cast<rapidjson::SizeType>(s.size()), d.alloc());
            *m = J::string(s);
        }
    }
    void change_yaml()
    {
        Yam& y = ys[c.below(ys.size())];
        if (y.source)
            c.nontrivial();
        YAML::Node x = *y.live;
        J* m = &y.snap;
        while (x.size() && c.chance(3, 4))
        {
            size_t i = c.below(x.size());
            YAML::Node next;
            if (x.IsSequence())
                next.reset(x[i]);
            else
            {
                auto it = x.begin();
                std::advance(it, static_cast<long>(i));
                next.reset(it->second);
            }
            m = x.IsSequence() ? &m->a.at(i) : &m->o.at(i).second;
            x.reset(next);
        }
        if (x.IsMap() && c.flip())
        {
            x["added"] = "1";
            if (J* there = m->find("added"))
                *there = J::string("1");
            else
                m->put("added", J::string("1"));
        }
        else if (x.IsSequence() && c.flip())
        {
            x.push_back("added");
            m->a.push_back(J::string("added"));
        }
        else
        {
            const std::string s = text(c);
            x = s;
            *m = J::string(s);
        }
    }
    template <typename T>
    void drop(std::vector<T>& from)
    {
        size_t i = c.below(from.size());
        if (from[i].source)
            c.nontrivial();
        from.erase(from.begin() + static_cast<long>(i));
    }
    void dump_twice()
    {
        const Rec& r = *value().live;
        std::string a = kl::json::dump(r), b = kl::json::dump(r), p = kl::json::pretty_dump(r);
        PBT_EQ(a, b, "dumping the same value twice gives different texts");
        PBT_CHECK(jm::same(jm::parse_text(a), jm::parse_text(p), true), "pretty and compact texts differ");
        PBT_EQ(kl::yaml::dump(r), kl::yaml::dump(r), "dumping the same value twice gives different YAML");
    }
};
} // namespace in

void property(pbt::Choices& c)
{
    using namespace in;
    World w{c, {}, {}, {}, nullptr};
    w.add(rec(c));
    for (unsigned n = 0; n < 24 && (n < 3 || c.more(14)); ++n)
    {
        const char* what = "";
        switch (c.weighted({3, 3, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1}))
        {
        case 0:
            if (w.vs.empty() || w.ds.size() >= World::most)
                continue;
            what = "value to JSON";
            w.json_from_value();
            break;
        case 1:
            if (w.vs.empty() || w.ys.size() >= World::most)
                continue;
            what = "value to YAML";
            w.yaml_from_value();
            break;
        case 2:
            if (w.ds.empty())
                continue;
            what = "reading or patching from JSON";
            w.read_json();
            break;
        case 3:
            if (w.ys.empty())
                continue;
            what = "reading or patching from YAML";
            w.read_yaml();
            break;
        case 4:
            if (w.vs.empty())
                continue;
            what = "changing a value";
            w.change_value();
            break;
        case 5:
            if (w.ds.empty())
                continue;
            what = "changing a JSON document";
            w.change_json();
            break;
        case 6:
            if (w.ys.empty())
                continue;
            what = "changing a YAML document";
            w.change_yaml();
            break;
        case 7:
            if (w.vs.empty())
                continue;
            what = "destroying a value";
            w.drop(w.vs);
            break;
        case 8:
            if (w.ds.empty())
                continue;
            what = "destroying a JSON document";
            w.drop(w.ds);
            break;
        case 9:
            if (w.ys.empty())
                continue;
            what = "destroying a YAML document";
            w.drop(w.ys);
            break;
        case 10:
            if (w.ds.empty() || w.ds.size() >= World::most)
                continue;
            what = "copying a view of a JSON document into another";
            w.json_from_view();
            break;
        case 11:
            if (w.ds.empty() && w.ys.empty())
                continue;
            what = "reading parts of a document";
            w.read_parts();
            break;
        case 12:
            if (w.vs.empty())
                continue;
            what = "dumping a value";
            w.dump_twice();
            break;
        default:
            if (w.vs.size() >= World::most)
                continue;
            what = "a new value";
            w.add(rec(c));
        }
        c.log() << what << "\n";
        c.label(what);
        w.check(what);
    }
    // the last ones standing
    while (!w.vs.empty() || !w.ds.empty() || !w.ys.empty())
    {
        const std::size_t pick = c.below(3); // the first of these that still has something, from here on
        for (std::size_t k = 0; k < 3; ++k)
        {
            const std::size_t i = (pick + k) % 3;
            if (i == 0 && !w.vs.empty())
                w.drop(w.vs);
            else if (i == 1 && !w.ds.empty())
                w.drop(w.ds);
            else if (i == 2 && !w.ys.empty())
                w.drop(w.ys);
            else
                continue;
            break;
        }
        w.check("destroying something else");
    }
}

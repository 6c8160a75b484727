// Shared by C05-C08: the hand-written schema of the resource in resource_types.hpp, an independent
// model of the five verbs on model values, and a request generator.
#pragma once

#include "jmodel.hpp"
#include "resource_types.hpp"

namespace jm {

struct ColorM : EnumM<res::Color, ColorM>
{
    static std::vector<std::pair<std::string, res::Color>> table()
    {
        return {{"red", res::Color::red}, {"green", res::Color::green}, {"blue", res::Color::blue}};
    }
};
template <>
struct M<res::Color> : ColorM
{
};

template <>
struct M<res::Leaf> : StructM<res::Leaf, M<res::Leaf>>
{
    static void describe(Builder<res::Leaf>& b)
    {
        b.f("i", &res::Leaf::i);
        b.f("s", &res::Leaf::s);
        b.f("o", &res::Leaf::o);
        b.validator = [](const J& v) { return v.at("i").i != 13; };
        b.repair = [](J& v) {
            if (v.at("i").i == 13)
                v.at("i").i = 14;
        };
    }
};
template <>
struct M<res::Limits> : StructM<res::Limits, M<res::Limits>>
{
    static void describe(Builder<res::Limits>& b)
    {
        b.f("min", &res::Limits::min);
        b.f("max", &res::Limits::max);
        b.validator = [](const J& v) { return v.at("min").i <= v.at("max").i; };
        b.repair = [](J& v) {
            if (v.at("min").i > v.at("max").i)
                std::swap(v.at("min").i, v.at("max").i);
        };
    }
};
template <>
struct M<res::Named> : StructM<res::Named, M<res::Named>>
{
    static void describe(Builder<res::Named>& b)
    {
        b.f("v", &res::Named::v);
        b.f("name", &res::Named::name);
        b.f("label", &res::Named::label);
        b.f("note", &res::Named::note);
        b.f("tags", &res::Named::tags);
        b.f("lim", &res::Named::lim);
        b.repair = [](J& v) { // short collision-rich names
            auto& s = v.at("name").s;
            if (s.size() > 1)
                s.resize(1);
            if (!s.empty() && static_cast<unsigned char>(s[0]) >= 0x80)
                s = "u";
        };
    }
};
template <>
struct M<res::IntKeyed> : StructM<res::IntKeyed, M<res::IntKeyed>>
{
    static void describe(Builder<res::IntKeyed>& b)
    {
        b.f("id", &res::IntKeyed::id);
        b.f("other", &res::IntKeyed::other);
        b.f("text", &res::IntKeyed::text);
    }
};
template <>
struct M<res::Req> : StructM<res::Req, M<res::Req>>
{
    static void describe(Builder<res::Req>& b) { b.f("v", &res::Req::v); }
};
template <>
struct M<std::optional<res::Req>> : OptM<res::Req>
{
    static SP schema()
    {
        auto s = base_schema();
        s->validator = [](const J& v) { return v.k != J::null; };
        s->repair = [](J& v) {
            if (v.k == J::null)
                v = schema_of<res::Req>()->dflt;
        };
        return s;
    }
};
template <>
struct M<res::Small> : StructM<res::Small, M<res::Small>>
{
    static void describe(Builder<res::Small>& b) { b.f("v", &res::Small::v); }
};
template <>
struct M<std::vector<res::Small>> : SeqM<std::vector<res::Small>, true>
{
    static SP schema()
    {
        auto s = base_schema();
        s->validator = [](const J& v) { return v.a.size() <= 3; };
        s->repair = [](J& v) {
            if (v.a.size() > 3)
                v.a.resize(3);
        };
        return s;
    }
};
template <>
struct M<res::Prot> : StructM<res::Prot, M<res::Prot>>
{
    static void describe(Builder<res::Prot>& b)
    {
        b.f("a", &res::Prot::a);
        b.f("ro", &res::Prot::ro).ro();
        b.f("inner", &res::Prot::inner);
        b.f("roinner", &res::Prot::roinner).ro();
        b.f("vals", &res::Prot::vals);
        b.f("maybe", &res::Prot::maybe);
        b.f("romaybe", &res::Prot::romaybe).ro();
        b.f("items", &res::Prot::items);
        b.f("roitems", &res::Prot::roitems).ro();
        b.f("tags", &res::Prot::tags);
    }
};
template <>
struct M<res::Fragile> : StructM<res::Fragile, M<res::Fragile>>
{
    static void describe(Builder<res::Fragile>& b)
    {
        b.f("v", &res::Fragile::v);
        b.f("w", &res::Fragile::w);
    }
};
template <>
struct M<res::Root> : StructM<res::Root, M<res::Root>>
{
    static void describe(Builder<res::Root>& b)
    {
        using R = res::Root;
        b.f("num", &R::num);
        b.f("dbl", &R::dbl);
        b.f("flag", &R::flag);
        b.f("text", &R::text);
        b.f("color", &R::color);
        b.f("cpp_name", &R::cpp_name).rename("wireName");
        b.f("leaf", &R::leaf);
        b.f("limits", &R::limits);
        b.f("oint", &R::oint);
        b.f("oleaf", &R::oleaf);
        b.f("ovec", &R::ovec);
        b.f("omap", &R::omap);
        b.f("olim", &R::olim);
        b.f("req", &R::req);
        b.f("ints", &R::ints);
        b.f("leaves", &R::leaves);
        b.f("deq", &R::deq);
        b.f("lst", &R::lst);
        b.f("arr", &R::arr);
        b.f("arrl", &R::arrl);
        b.f("smalls", &R::smalls);
        b.f("mleaf", &R::mleaf);
        b.f("mint", &R::mint);
        b.f("mopt", &R::mopt);
        b.f("mvec", &R::mvec);
        b.f("vopt", &R::vopt);
        b.f("grid", &R::grid);
        b.f("pr", &R::pr);
        b.f("named", &R::named).child_key("name");
        b.f("nlist", &R::nlist).child_key("name");
        b.f("idk", &R::idk).child_key("id");
        b.f("roitems", &R::roitems).ro();
        b.f("sroitems", &R::sroitems).sro();
        b.f("prot", &R::prot);
        b.f("roprot", &R::roprot).ro();
        b.f("sroprot", &R::sroprot).sro();
        b.f("both", &R::both).ro().sro();
        b.f("sroopt", &R::sroopt).sro();
        b.f("sromap", &R::sromap).sro();
        b.f("sronamed", &R::sronamed).sro().child_key("name");
        b.f("ronamed", &R::ronamed).ro().child_key("name");
        b.f("roopt", &R::roopt).ro();
        b.f("oprot", &R::oprot);
        b.f("omlim", &R::omlim);
        b.f("frag", &R::frag);
        b.f("ofrag", &R::ofrag);
        b.f("vfrag", &R::vfrag);
        b.f("mfrag", &R::mfrag);
        b.validator = [](const J& v) {
            return !(v.at("ints").a.size() > 5 || v.at("text").s == "bad" ||
                     (v.at("flag").b && v.at("leaf").at("i").i < 0) || v.at("mint").o.size() > 4);
        };
        b.repair = [](J& v) {
            if (v.at("ints").a.size() > 5)
                v.at("ints").a.resize(5);
            if (v.at("flag").b && v.at("leaf").at("i").i < 0)
                v.at("leaf").at("i").i = 3;
            if (v.at("mint").o.size() > 4)
                v.at("mint").o.resize(4);
        };
    }
};

} // namespace jm

namespace res {

using jm::Field;
using jm::J;
using jm::Kind;
using jm::Schema;
using Segs = std::vector<std::string>;

inline const Schema& root_schema() { return *jm::schema_of<Root>(); }

// --- model of the path walk ---------------------------------------------------------------------
struct Acc
{
    bool sro = false; // inside a subtree-read-only field
    bool key = false; // key member of a keyed element (or below it)
};
struct Node
{
    J* v = nullptr;
    const Schema* s = nullptr;
    const Field* f = nullptr;  // declared field this node is (null: root / element)
    std::string key_id;        // keyed element: id of its key member
    Acc acc;

    bool node_ro() const { return (f && f->ro) || acc.sro || acc.key; }
    bool child_ro() const { return node_ro() || (f && f->sro); }
};

inline std::optional<size_t> index_of(const std::string& seg)
{
    if (seg.empty() || seg.size() > 18 || (seg.size() > 1 && seg[0] == '0'))
        return {};
    size_t v = 0;
    for (char ch : seg)
    {
        if (ch < '0' || ch > '9')
            return {};
        v = v * 10 + static_cast<size_t>(ch - '0');
    }
    return v;
}

inline bool key_is(const J& elem, const std::string& key_id, const std::string& seg)
{
    const J& k = elem.at(key_id);
    return k.k == J::integer ? jm::num_text(k.i) == seg : k.s == seg;
}

// false: no such node (404)
inline bool step(Node& n, const std::string& seg)
{
    while (n.s->k == Kind::optional)
    {
        if (n.v->k == J::null)
            return false;
        n.acc.sro |= n.f && n.f->sro;
        n.s = n.s->of.get();
        n.f = nullptr;
        n.key_id.clear();
    }
    Node c;
    c.acc = n.acc;
    c.acc.sro |= n.f && n.f->sro;
    switch (n.s->k)
    {
    case Kind::strct: {
        const Field* f = n.s->by_name(seg);
        if (!f)
            return false;
        c.acc.key |= !n.key_id.empty() && n.key_id == f->id;
        c.f = f;
        c.s = f->type.get();
        c.v = &n.v->at(f->id);
        break;
    }
    case Kind::map: {
        J* x = n.v->find(seg);
        if (!x)
            return false;
        c.v = x;
        c.s = n.s->of.get();
        break;
    }
    case Kind::seq:
    case Kind::fixed: {
        c.s = n.s->of.get();
        if (n.f && !n.f->child_key.empty())
        {
            for (auto& e : n.v->a)
                if (!c.v && key_is(e, n.f->child_key, seg))
                    c.v = &e;
            if (!c.v)
                return false;
            c.key_id = n.f->child_key;
        }
        else
        {
            auto i = index_of(seg);
            if (!n.s->indexable || !i || *i >= n.v->a.size())
                return false;
            c.v = &n.v->a[*i];
        }
        break;
    }
    default:
        return false;
    }
    n = c;
    return true;
}

inline std::optional<Node> walk(J& root, const Segs& p, size_t count)
{
    Node n;
    n.v = &root;
    n.s = &root_schema();
    for (size_t i = 0; i < count; ++i)
        if (!step(n, p[i]))
            return {};
    return n;
}

inline bool dup_keys(const J& v, const std::string& key)
{
    for (size_t i = 0; i < v.a.size(); ++i)
        for (size_t j = i + 1; j < v.a.size(); ++j)
            if (jm::same(v.a[i].at(key), v.a[j].at(key), true))
                return true;
    return false;
}

inline bool valid_tree(const Schema& s, const J& v, const Field* f = nullptr)
{
    if (s.validator && !s.validator(v))
        return false;
    if (f && !f->child_key.empty() && dup_keys(v, f->child_key))
        return false;
    switch (s.k)
    {
    case Kind::optional:
        return v.k == J::null || valid_tree(*s.of, v);
    case Kind::strct:
        for (auto& fl : s.fields)
            if (!valid_tree(*fl.type, v.at(fl.id), &fl))
                return false;
        return true;
    case Kind::map:
        for (auto& kv : v.o)
            if (!valid_tree(*s.of, kv.second))
                return false;
        return true;
    case Kind::seq:
    case Kind::fixed:
        for (auto& e : v.a)
            if (!valid_tree(*s.of, e))
                return false;
        return true;
    default:
        return true;
    }
}

enum class Verb
{
    get,
    put,
    post,
    patch,
    del
};
inline const char* verb_name(Verb v)
{
    static const char* n[] = {"GET", "PUT", "POST", "PATCH", "DELETE"};
    return n[static_cast<int>(v)];
}

struct Request
{
    Verb verb{};
    Segs path;        // decoded, normalised
    std::string text; // what is given to kl::path
    J body;
};

// Execute on the model. Returns the status; `root` is only changed on success.
// `changed` receives the path of the node that was modified.
inline int model_exec(J& root, const Request& r, Segs* changed = nullptr)
{
    J copy = root;
    auto commit = [&](int ok, size_t depth) {
        if (!valid_tree(root_schema(), copy))
            return 409;
        root = std::move(copy);
        if (changed)
            *changed = Segs(r.path.begin(), r.path.begin() + static_cast<long>(depth));
        return ok;
    };

    if (r.verb == Verb::del && !r.path.empty())
    {
        auto p = walk(copy, r.path, r.path.size() - 1);
        if (!p)
            return 404;
        const std::string& seg = r.path.back();
        size_t pd = r.path.size() - 1;
        if (p->s->k == Kind::map)
        {
            if (!p->v->find(seg))
                return 404;
            if (p->child_ro())
                return 405;
            p->v->erase(seg);
            return commit(204, pd);
        }
        if (p->s->k == Kind::seq || p->s->k == Kind::fixed)
        {
            bool keyed = p->f && !p->f->child_key.empty();
            if (keyed)
            {
                for (size_t i = 0; i < p->v->a.size(); ++i)
                    if (key_is(p->v->a[i], p->f->child_key, seg))
                    {
                        if (p->child_ro())
                            return 405;
                        p->v->a.erase(p->v->a.begin() + static_cast<long>(i));
                        return commit(204, pd);
                    }
                return 404;
            }
            if (p->s->indexable)
            {
                auto i = index_of(seg);
                if (!i)
                    return 404;
                if (p->child_ro() || !p->s->erasable)
                    return 405;
                if (*i >= p->v->a.size())
                    return 404;
                p->v->a.erase(p->v->a.begin() + static_cast<long>(*i));
                return commit(204, pd);
            }
        }
    }

    auto n = walk(copy, r.path, r.path.size());
    if (!n)
        return 404;
    switch (r.verb)
    {
    case Verb::get:
        return 200;
    case Verb::put:
    case Verb::patch: {
        if (n->node_ro())
            return 405;
        J cand = *n->v;
        try
        {
            if (r.verb == Verb::put)
                jm::de(*n->s, cand, r.body);
            else
                jm::patch(*n->s, cand, r.body);
        }
        catch (const jm::DeError&)
        {
            return 400;
        }
        if (!n->key_id.empty() && !jm::same(cand.at(n->key_id), n->v->at(n->key_id), true))
            return 405;
        *n->v = std::move(cand);
        return commit(200, r.path.size());
    }
    case Verb::post: {
        if (n->child_ro() || !n->s->postable)
            return 405;
        J cand = n->s->of->dflt;
        try
        {
            jm::de(*n->s->of, cand, r.body);
        }
        catch (const jm::DeError&)
        {
            return 400;
        }
        n->v->a.push_back(std::move(cand));
        return commit(201, r.path.size());
    }
    case Verb::del: {
        if (n->node_ro() || n->s->k != Kind::optional)
            return 405;
        // the value itself may veto its removal
        if (n->v->k != J::null && n->s->of->validator && !n->s->of->validator(*n->v))
            return 409;
        *n->v = J{};
        return commit(204, r.path.size());
    }
    }
    return 0;
}

// --- every addressable path of a value ----------------------------------------------------------
inline void universe(const Schema& s, const J& v, const Field* f, Segs& cur, std::vector<Segs>& out)
{
    out.push_back(cur);
    const Schema* sp = &s;
    while (sp->k == Kind::optional)
    {
        if (v.k == J::null)
            return;
        sp = sp->of.get();
        f = nullptr;
    }
    auto go = [&](const std::string& seg, const Schema& cs, const J& cv, const Field* cf) {
        cur.push_back(seg);
        universe(cs, cv, cf, cur, out);
        cur.pop_back();
    };
    switch (sp->k)
    {
    case Kind::strct:
        for (auto& fl : sp->fields)
            go(fl.name, *fl.type, v.at(fl.id), &fl);
        break;
    case Kind::map:
        for (auto& kv : v.o)
            if (!kv.first.empty() && kv.first.find('/') == std::string::npos)
                go(kv.first, *sp->of, kv.second, nullptr);
        break;
    case Kind::seq:
    case Kind::fixed:
        if (f && !f->child_key.empty())
        {
            for (auto& e : v.a)
            {
                auto& k = e.at(f->child_key);
                std::string seg = k.k == J::integer ? jm::num_text(k.i) : k.s;
                if (!seg.empty() && seg.find('/') == std::string::npos)
                    go(seg, *sp->of, e, nullptr);
            }
        }
        else if (sp->indexable)
            for (size_t i = 0; i < v.a.size(); ++i)
                go(std::to_string(i), *sp->of, v.a[i], nullptr);
        break;
    default:
        break;
    }
}
inline std::vector<Segs> universe(const J& v)
{
    std::vector<Segs> out;
    Segs cur;
    universe(root_schema(), v, nullptr, cur, out);
    return out;
}

// --- path text ----------------------------------------------------------------------------------
inline std::string encode(const Segs& p, pbt::Choices* c = nullptr)
{
    std::string t;
    for (auto& s : p)
    {
        t += '/';
        if (c && c->chance(1, 20))
            t += c->flip() ? "./" : "x/../";
        bool dots = s == "." || s == "..";
        for (unsigned char ch : s)
        {
            if (ch == '%' || ch == '/' || ch < 0x20 || dots || (c && c->chance(1, 30)))
            {
                char b[4];
                std::snprintf(b, sizeof b, "%%%02X", ch);
                t += b;
            }
            else
                t += static_cast<char>(ch);
        }
    }
    return t;
}

// --- request generator --------------------------------------------------------------------------
struct Prefer
{
    bool protect = false; // bias to protected / keyed nodes
};

inline J gen_body(pbt::Choices& c, const Schema& s, const J* current, bool patching)
{
    static const std::vector<std::string> names = [] {
        std::vector<std::string> n;
        jm::all_names(root_schema(), n);
        return n;
    }();
    jm::GenOpts o;
    o.simple_reals = true;
    o.max_len = 2;
    J doc;
    switch (c.weighted({6, 3, 1}))
    {
    case 0:
        doc = jm::ser(s, jm::gen(c, s, o), c.flip());
        break;
    case 1:
        doc = current ? jm::ser(s, *current, c.flip()) : jm::ser(s, jm::gen(c, s, o), true);
        break;
    default:
        return jm::gen_any(c);
    }
    if (patching && doc.k == J::obj)
        for (size_t i = doc.o.size(); i-- > 0;)
            if (c.chance(3, 5))
                doc.o.erase(doc.o.begin() + static_cast<long>(i));
    if (c.chance(1, 3))
        for (size_t n = 1 + c.below(2); n; --n)
            jm::mutate(c, doc, names);
    // perturb a number so that "current" documents change something
    if (c.chance(1, 3))
    {
        std::vector<J*> nodes;
        jm::collect(doc, nodes);
        J& n = *nodes[c.below(nodes.size())];
        if (n.k == J::integer)
            n.i = static_cast<int>(c.draw(20));
        else if (n.k == J::str)
            n.s = jm::gen_text(c, 3);
    }
    // make a nested value one that its validator refuses
    if (c.chance(1, 6))
    {
        std::vector<J*> nodes, able;
        jm::collect(doc, nodes);
        for (J* n : nodes)
            if (n->k == J::obj && (n->find("i") || (n->find("min") && n->find("max"))))
                able.push_back(n);
        if (!able.empty())
        {
            J& n = *able[c.below(able.size())];
            if (n.find("i"))
                *n.find("i") = J::num(13);
            else
            {
                *n.find("min") = J::num(9);
                *n.find("max") = J::num(3);
            }
        }
    }
    return doc;
}

inline Request gen_request(pbt::Choices& c, const J& model, const Prefer& pref = {})
{
    Request r;
    static const Verb verbs[] = {Verb::put, Verb::patch, Verb::post, Verb::del, Verb::get};
    r.verb = verbs[c.weighted({7, 5, 5, 6, 1})];

    J& m = const_cast<J&>(model);
    Node n;
    n.v = &m;
    n.s = &root_schema();
    for (unsigned depth = 0; depth < 6; ++depth)
    {
        if (depth > 0 && c.chance(1, r.verb == Verb::post && n.s->postable ? 1 : 3))
            break;
        if (depth == 0 && c.chance(1, 25))
            break;
        const Schema* s = n.s;
        const Field* f = n.f;
        const J* v = n.v;
        while (s->k == Kind::optional && v->k != J::null)
        {
            s = s->of.get();
            f = nullptr;
        }
        std::string seg;
        bool leaf = false;
        if (c.chance(1, 25))
            seg = c.flip() ? std::string(c.pick(std::vector<std::string>{"missing", "0", "99", "-1", "cpp_name", "length", "i"}))
                           : jm::gen_key(c);
        else if (s->k == Kind::strct)
        {
            if (depth == 0 && pref.protect && c.chance(3, 4))
            {
                static const std::vector<std::string> prot = {"named", "nlist", "idk", "roitems", "sroitems", "prot",
                                                              "roprot", "sroprot", "both", "sroopt", "sromap",
                                                              "sronamed", "ronamed", "roopt"};
                seg = c.pick(prot);
            }
            else
                seg = s->fields[c.below(s->fields.size())].name;
        }
        else if (s->k == Kind::map)
            seg = v->o.empty() || c.chance(1, 10) ? jm::gen_key(c) : v->o[c.below(v->o.size())].first;
        else if (s->k == Kind::seq || s->k == Kind::fixed)
        {
            if (f && !f->child_key.empty() && !v->a.empty() && c.chance(9, 10))
            {
                auto& k = v->a[c.below(v->a.size())].at(f->child_key);
                seg = k.k == J::integer ? jm::num_text(k.i) : k.s;
            }
            else
            {
                size_t i = v->a.empty() || c.chance(1, 10) ? c.below(6) : c.below(v->a.size());
                seg = std::to_string(i);
                if (c.chance(1, 16))
                    seg = "0" + seg;
            }
        }
        else
        {
            leaf = true;
            if (!c.chance(1, 10))
                break;
            seg = jm::gen_key(c);
        }
        if (seg.empty() || seg.find('/') != std::string::npos)
            break;
        r.path.push_back(seg);
        if (leaf || !step(n, seg))
        {
            n.v = nullptr;
            break;
        }
    }
    r.text = encode(r.path, &c);
    bool patching = r.verb == Verb::patch;
    if (r.verb == Verb::post)
        r.body = n.v && n.s->of ? gen_body(c, *n.s->of, n.v->a.empty() ? nullptr : &n.v->a[c.below(n.v->a.size())], false)
                                : jm::gen_any(c);
    else if (r.verb == Verb::put || patching)
        r.body = n.v ? gen_body(c, *n.s, n.v, patching) : jm::gen_any(c);
    return r;
}

// --- real execution -----------------------------------------------------------------------------
struct Outcome
{
    int status = 0; // 0: an exception escaped
    std::string body;
    std::string exc;
};

inline Outcome execute(kl::resources::resource<Root>& r, const Request& q)
{
    Outcome out;
    rapidjson::Document d;
    rapidjson::Value body = jm::to_rj(q.body, d.GetAllocator());
    kl::path p{q.text};
    try
    {
        kl::resources::operation_result x;
        switch (q.verb)
        {
        case Verb::get:
            x = real_get(r, p);
            break;
        case Verb::put:
            x = real_put(r, p, body);
            break;
        case Verb::post:
            x = real_post(r, p, body);
            break;
        case Verb::patch:
            x = real_patch(r, p, body);
            break;
        case Verb::del:
            x = real_del(r, p);
            break;
        }
        out.status = static_cast<int>(x.status);
        out.body = x.body;
    }
    catch (const pbt::Failure&)
    {
        throw;
    }
    catch (const std::exception& e)
    {
        out.exc = e.what();
    }
    catch (const Foreign&)
    {
        out.exc = "Foreign";
    }
    return out;
}

inline std::string describe(const Request& q)
{
    std::ostringstream os;
    os << verb_name(q.verb) << " " << pbt::quote(q.text);
    if (q.verb == Verb::put || q.verb == Verb::post || q.verb == Verb::patch)
        os << " " << q.body;
    return os.str();
}

// Makes a valid root break one or two of the validators; returns where.
inline Segs break_root(pbt::Choices& c, J& v)
{
    Segs at;
    auto leaf13 = [] {
        J l = jm::schema_of<Leaf>()->dflt;
        l.at("i") = J::num(13);
        return l;
    };
    auto limits = [] {
        J l = jm::schema_of<Limits>()->dflt;
        l.at("min") = J::num(9);
        l.at("max") = J::num(3);
        return l;
    };
    for (size_t n = 1 + c.below(2); n; --n)
    {
        static const std::vector<Segs> where = {{"leaf"}, {"limits"}, {"oleaf"}, {"olim"}, {"mleaf", "m"}, {"text"},
                                                {"vopt", "0"}, {"req"}, {"deq", "0"}, {"arrl", "1"}, {"nlist", "a"}};
        const size_t k = c.draw(11);
        at = where[k];
        switch (k)
        {
        case 0: v.at("leaf") = leaf13(); break;
        case 1: v.at("limits") = limits(); break;
        case 2: v.at("oleaf") = leaf13(); break;
        case 3: v.at("olim") = limits(); break;
        case 4:
            v.at("mleaf") = J::object(); // one entry: no question of order
            v.at("mleaf").put("m", leaf13());
            break;
        case 5: v.at("text") = J::string("bad"); break;
        case 6: v.at("vopt").a.push_back(leaf13()); break;
        case 7: v.at("req") = J{}; break;
        case 8: v.at("deq").a.push_back(leaf13()); break;
        case 9: v.at("arrl").a[1] = leaf13(); break;
        default:
            for (size_t i = 0; i < 2; ++i)
                v.at("nlist").a.push_back(jm::schema_of<Named>()->dflt);
        }
    }
    return at;
}

inline J gen_root(pbt::Choices& c)
{
    jm::GenOpts o;
    o.simple_reals = true;
    o.max_len = 2;
    // Most fields default; a drawn subset is populated, so cases stay small and shrink well.
    J v = root_schema().dflt;
    for (auto& f : root_schema().fields)
        if (c.chance(2, 5))
        {
            Schema one;
            one.k = Kind::strct;
            one.fields = {f};
            v.at(f.id) = jm::gen(c, one, o).at(f.id);
        }
    root_schema().repair(v);
    if (!valid_tree(root_schema(), v))
        v = root_schema().dflt;
    return v;
}

} // namespace res

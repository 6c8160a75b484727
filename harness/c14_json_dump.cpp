// C14: dumped text == serialized tree == the document the declaration describes.
#include "json_model.hpp"

#include <set>

using jm::J;

const char* const property_rule =
    "non-trivial: the document has at least one member or element (container/struct types) or is a scalar at a numeric boundary or a non-empty string";

namespace {

// Remove whitespace outside of strings.
std::string strip_ws(const std::string& t)
{
    std::string r;
    bool in = false;
    for (size_t i = 0; i < t.size(); ++i)
    {
        char ch = t[i];
        if (in)
        {
            r += ch;
            if (ch == '\\' && i + 1 < t.size())
                r += t[++i];
            else if (ch == '"')
                in = false;
        }
        else if (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r')
            continue;
        else
        {
            r += ch;
            in = ch == '"';
        }
    }
    return r;
}

std::string show(const J& j)
{
    std::ostringstream o;
    o << j;
    return o.str();
}

#define SAME(got, want, ordered, what)                                                             \
    do                                                                                             \
    {                                                                                              \
        if (!jm::same(got, want, ordered))                                                         \
            PBT_FAIL(std::string(what) + ": got " + show(got) + ", expected " + show(want));       \
    } while (0)

void family(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, c.chance(1, 4) ? jt::attr_types() : jt::plain_types());
    c.label(t.name);
    J model = jm::gen(c, *t.schema, jm::with_scale());
    jm::drop_clashes(*t.schema, model);
    bool skip = c.flip();
    auto h = t.make();
    h->set(model);
    c.log() << t.name << " skip=" << skip << " value=" << jm::ser(*t.schema, model, false) << "\n";
    PBT_CHECK(jm::same(h->get(), model, false), "harness: model/value mismatch");
    J want = jm::ser(*t.schema, model, skip);

    J tree = h->tree(skip, static_cast<int>(c.draw(3)));
    std::string text = h->text(skip, false, c.flip());
    std::string pretty = h->text(skip, true, c.flip());
    c.log() << "text " << pbt::quote(text) << "\n";
    J dumped = jm::parse_text(text);
    SAME(dumped, tree, true, "dumped text and serialized document differ (first: text)");
    SAME(tree, want, false, "serialized document");
    // member order: declaration order / the map's own order.  Unordered maps: only the members.
    J ordered_want = want;
    if (std::string(t.name) == "Maps" || std::string(t.name).rfind("unordered", 0) == 0)
    {
        // compare the order of the top-level members, and everything below unordered
        if (tree.o.size() == want.o.size() && std::string(t.name) == "Maps")
            for (size_t i = 0; i < want.o.size(); ++i)
                PBT_EQ(tree.o[i].first, want.o[i].first, "member order");
    }
    else
        SAME(tree, want, true, "serialized document (with member order)");
    PBT_CHECK(strip_ws(text) == text, "compact text contains whitespace: " + pbt::quote(text));
    PBT_EQ(strip_ws(pretty), text, "pretty text differs by more than whitespace");
    PBT_CHECK(jm::same(h->get(), model, false), "serializing changed the value");
    if (want.a.size() + want.o.size() || (want.k == J::str && !want.s.empty()) ||
        (want.k == J::integer && (want.i > 100 || want.i < -100)) || want.k == J::real)
        c.nontrivial();
    c.label_if(skip, "skip null");
}

// json::view, string views, literals, builders
void pieces(pbt::Choices& c)
{
    c.label("views and builders");
    J doc = jm::gen_any(c);
    rapidjson::Document d;
    rapidjson::Value v = jm::to_rj(doc, d.GetAllocator());
    kl::json::view view{v};
    c.log() << "view of " << doc << "\n";
    SAME(jm::parse_text(kl::json::dump(view)), doc, true, "dump(view)");
    {
        rapidjson::Document out = kl::json::serialize(view);
        d = rapidjson::Document{}; // the copy must not refer to the source
        SAME(jm::from_rj(out), doc, true, "serialize(view)");
    }
    std::string s = jm::gen_text(c);
    {
        auto copy = std::make_unique<std::string>(s);
        std::string_view sv{*copy};
        PBT_CHECK(jm::parse_text(kl::json::dump(sv)).s == s, "dump(string_view) of " + pbt::quote(s));
        rapidjson::Document out = kl::json::serialize(sv);
        copy.reset();
        PBT_CHECK(jm::from_rj(out).k == J::str && jm::from_rj(out).s == s, "serialize(string_view) of " + pbt::quote(s));
    }
    {
        std::string z = s.substr(0, s.find('\0'));
        auto copy = std::make_unique<std::string>(z);
        const char* p = copy->c_str();
        PBT_CHECK(jm::parse_text(kl::json::dump(p)).s == z, "dump(const char*) of " + pbt::quote(z));
        kl::json::owning_serialize_context ctx;
        rapidjson::Value out = kl::json::serialize(p, ctx);
        copy.reset();
        PBT_CHECK(jm::from_rj(out).s == z, "serialize(const char*) of " + pbt::quote(z));
    }
    PBT_CHECK(kl::json::dump(nullptr) == "null" && kl::json::serialize(nullptr).IsNull(), "nullptr");
    {
        std::set<std::string> st;
        std::set<int> si;
        J ws = J::array(), wi = J::array();
        for (size_t n = c.below(4); n; --n)
            st.insert(jm::gen_text(c)), si.insert(c.integer<int>());
        for (auto& e : st)
            ws.a.push_back(J::string(e));
        for (auto e : si)
            wi.a.push_back(J::num(e));
        SAME(jm::parse_text(kl::json::dump(st)), ws, true, "dump(set<string>)");
        SAME(jm::from_rj(kl::json::serialize(st)), ws, true, "serialize(set<string>)");
        SAME(jm::parse_text(kl::json::dump(si)), wi, true, "dump(set<int>)");
        SAME(jm::from_rj(kl::json::serialize(si)), wi, true, "serialize(set<int>)");
    }
    // builders
    kl::json::owning_serialize_context ctx;
    auto ab = kl::json::to_array(ctx);
    auto ob = kl::json::to_object(ctx);
    J wa = J::array(), wo = J::object();
    std::vector<std::string> keep; // add() does not copy names
    keep.reserve(16);
    for (size_t n = c.below(6); n; --n)
    {
        std::string key = jm::gen_key(c);
        J e;
        rapidjson::Value rv;
        switch (c.draw(4))
        {
        case 0: {
            int i = c.integer<int>();
            e = J::num(i);
            ab.add(i);
            if (c.flip())
            {
                keep.push_back(key);
                ob.add(std::string_view{keep.back()}, i);
            }
            else
                ob.add_dynamic_name(std::string(key), i);
            break;
        }
        case 1: {
            auto tmp = std::make_unique<std::string>(jm::gen_text(c));
            e = J::string(*tmp);
            ab.add(*tmp);
            ob.add_dynamic_name(*std::make_unique<std::string>(key), *tmp);
            break;
        }
        case 2: {
            jt::Inner in{c.integer<int>(), jm::gen_text(c), c.flip() ? std::optional<double>{1.5} : std::nullopt};
            e = jm::ser(*jm::schema_of<jt::Inner>(), jm::to_j(in), true);
            ab.add(in);
            ob.add_dynamic_name(key, in);
            break;
        }
        default: {
            J sub = jm::gen_any(c, 2);
            e = sub;
            ab.add(jm::to_rj(sub, ctx.allocator()));
            ob.add_dynamic_name(std::string(key), jm::to_rj(sub, ctx.allocator()));
            break;
        }
        }
        wa.a.push_back(e);
        wo.put(key, e);
    }
    rapidjson::Value ga = c.flip() ? ab.done() : rapidjson::Value(ab);
    rapidjson::Value go = c.flip() ? ob.done() : rapidjson::Value(ob);
    SAME(jm::from_rj(ga), wa, true, "to_array builder");
    SAME(jm::from_rj(go), wo, true, "to_object builder");
    if (!wa.a.empty() || doc.a.size() + doc.o.size())
        c.nontrivial();
}

} // namespace

void property(pbt::Choices& c)
{
    if (c.chance(1, 8))
        pieces(c);
    else
        family(c);
}

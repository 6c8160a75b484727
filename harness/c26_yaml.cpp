// C26: the YAML backend writes and reads the same data as the model (and so as the JSON backend).
// YAML scalars are untyped text; a scalar whose reading as a number or boolean is a matter of
// yaml-cpp's conversion rules (octal, hexadecimal, "yes", ...) is "unspecified": then only the kind of
// the outcome is checked.
#include "json_checks.hpp"

const char* const property_rule =
    "non-trivial: a written document with at least one member or element read back, or a read/patched document with edits, or a text of several tokens that parses";

namespace {

using jm::Kind;
using jm::Schema;

struct Unspecified
{
};

const jt::Types& all_types()
{
    static jt::Types ts = [] {
        jt::Types t = jt::plain_types();
        for (auto& x : jt::attr_types())
            t.push_back(x);
        return t;
    }();
    return ts;
}

// --------------------------------------------------------------------------- scalars as text

std::string text_of(const J& v)
{
    return v.k == J::str ? v.s : jm::text(v);
}

// canonical JSON number; integer: no fraction, no exponent
bool is_number(const std::string& s, bool* integer)
{
    size_t i = 0;
    if (i < s.size() && s[i] == '-')
        ++i;
    auto digits = [&] {
        size_t b = i;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9')
            ++i;
        return i - b;
    };
    size_t b = i;
    size_t n = digits();
    if (!n || (n > 1 && s[b] == '0'))
        return false;
    *integer = true;
    if (i < s.size() && s[i] == '.')
    {
        ++i;
        *integer = false;
        if (!digits())
            return false;
    }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    {
        ++i;
        *integer = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            ++i;
        if (!digits())
            return false;
    }
    return i == s.size();
}

bool has_digit(const std::string& s)
{
    return s.find_first_of("0123456789") != std::string::npos;
}
std::string lower(std::string s)
{
    for (auto& ch : s)
        if (ch >= 'A' && ch <= 'Z')
            ch = static_cast<char>(ch - 'A' + 'a');
    return s;
}

J yaml_scalar(const Schema& s, const J& v)
{
    std::string t = text_of(v);
    bool integer = false;
    switch (s.k)
    {
    case Kind::boolean:
        if (t == "true")
            return J::of(true);
        if (t == "false")
            return J::of(false);
        for (const char* w : {"y", "n", "yes", "no", "true", "false", "on", "off"})
            if (lower(t) == w)
                throw Unspecified{};
        return J::string(t);
    case Kind::integer:
        if (is_number(t, &integer))
        {
            if (t == "-0" || t.size() > 30)
                throw Unspecified{};
            if (!integer)
                return J::string("not an integer");
            jm::i128 n = 0;
            for (char ch : t)
                if (ch != '-')
                    n = n * 10 + (ch - '0');
            return J::num(t[0] == '-' ? -n : n);
        }
        if (has_digit(t))
            throw Unspecified{};
        return J::string(t);
    case Kind::real:
    case Kind::real32:
        if (is_number(t, &integer))
        {
            double d = s.k == Kind::real ? std::strtod(t.c_str(), nullptr)
                                         : static_cast<double>(std::strtof(t.c_str(), nullptr));
            if (!std::isfinite(d) || t.size() > 40)
                throw Unspecified{};
            return J::dbl(d);
        }
        if (has_digit(t) || lower(t).find("inf") != std::string::npos || lower(t).find("nan") != std::string::npos)
            throw Unspecified{};
        return J::string("not a number");
    default:
        return J::string(t);
    }
}

struct YamlScalars
{
    YamlScalars() { jm::scalar_view = yaml_scalar; }
    ~YamlScalars() { jm::scalar_view = nullptr; }
};

template <typename Fn>
void with_message(std::string& msg, Fn&& fn)
{
    try
    {
        fn();
    }
    catch (const kl::serialization::deserialize_error& ex)
    {
        msg = ex.what();
        throw;
    }
}

// outcome of reading doc by the model; "any": unspecified scalar met
std::string predict(const Schema& s, J& value, const J& doc, bool patch, std::vector<std::string>* trail = nullptr)
{
    YamlScalars y;
    try
    {
        if (patch)
            jm::patch(s, value, doc);
        else
            jm::de(s, value, doc);
        return "ok";
    }
    catch (const jm::DeError& e)
    {
        if (trail)
            *trail = e.trail;
        return "deserialize_error";
    }
    catch (const Unspecified&)
    {
        return "any";
    }
}

// --------------------------------------------------------------------------- nodes

YAML::Node to_node(const J& j)
{
    switch (j.k)
    {
    case J::null:
        return YAML::Node{YAML::NodeType::Null};
    case J::arr: {
        YAML::Node n{YAML::NodeType::Sequence};
        for (auto& e : j.a)
            n.push_back(to_node(e));
        return n;
    }
    case J::obj: {
        YAML::Node n{YAML::NodeType::Map};
        for (auto& [k, e] : j.o)
            n.force_insert(k, to_node(e));
        return n;
    }
    default:
        return YAML::Node{text_of(j)};
    }
}

// The node tree as J with every scalar as text.
J from_node(const YAML::Node& n)
{
    if (!n.IsDefined() || n.IsNull())
        return {};
    if (n.IsScalar())
        return J::string(n.Scalar());
    if (n.IsSequence())
    {
        J j = J::array();
        for (const auto& e : n)
            j.a.push_back(from_node(e));
        return j;
    }
    J j = J::object();
    for (const auto& kv : n)
        j.put(kv.first.IsScalar() ? kv.first.Scalar() : "<non-scalar key>", from_node(kv.second));
    return j;
}

// untyped: a tree of texts; want: a typed document
bool describes(const J& untyped, const J& want)
{
    switch (want.k)
    {
    case J::null:
        return untyped.k == J::null;
    case J::arr:
        if (untyped.k != J::arr || untyped.a.size() != want.a.size())
            return false;
        for (size_t i = 0; i < want.a.size(); ++i)
            if (!describes(untyped.a[i], want.a[i]))
                return false;
        return true;
    case J::obj: {
        if (untyped.k != J::obj || untyped.o.size() != want.o.size())
            return false;
        for (auto& [k, e] : want.o)
        {
            auto p = untyped.find(k);
            if (!p || !describes(*p, e))
                return false;
        }
        return true;
    }
    case J::real: {
        if (untyped.k != J::str)
            return false;
        char* end = nullptr;
        double d = std::strtod(untyped.s.c_str(), &end);
        if (end != untyped.s.c_str() + untyped.s.size() || untyped.s.empty())
            return false;
        if (std::memcmp(&d, &want.d, 8) == 0)
            return true;
        // a float, written with the digits a float needs
        double f = static_cast<double>(std::strtof(untyped.s.c_str(), nullptr));
        return std::fabs(want.d) < 3.5e38 && static_cast<double>(static_cast<float>(want.d)) == want.d && std::memcmp(&f, &want.d, 8) == 0;
    }
    default:
        return untyped.k == J::str && untyped.s == text_of(want);
    }
}

// Reference emission of a document through yaml-cpp alone.
void emit(YAML::Emitter& em, const J& j)
{
    switch (j.k)
    {
    case J::null:
        em << YAML::Null;
        break;
    case J::arr:
        em << YAML::BeginSeq;
        for (auto& e : j.a)
            emit(em, e);
        em << YAML::EndSeq;
        break;
    case J::obj:
        em << YAML::BeginMap;
        for (auto& [k, e] : j.o)
        {
            em << YAML::Key << k << YAML::Value;
            emit(em, e);
        }
        em << YAML::EndMap;
        break;
    default:
        em << text_of(j);
    }
}
// Does yaml-cpp itself write and read this document faithfully?
bool yaml_cpp_carries(const J& doc)
{
    try
    {
        YAML::Emitter em;
        emit(em, doc);
        if (!em.good())
            return false;
        return describes(from_node(YAML::Load(em.c_str())), doc);
    }
    catch (const YAML::Exception&)
    {
        return false;
    }
}
bool yaml_cpp_reads(const std::string& text, const J& doc)
{
    try
    {
        return describes(from_node(YAML::Load(text)), doc);
    }
    catch (const YAML::Exception&)
    {
        return false;
    }
}

J gen_value(pbt::Choices& c, const Schema& s)
{
    J v = jm::gen(c, s, jm::with_scale());
    if (!c.chance(1, 10))
        jm::drop_clashes(s, v);
    return v;
}

// --------------------------------------------------------------------------- writing

void writing(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, all_types());
    c.label(t.name);
    J model = gen_value(c, *t.schema);
    bool skip = c.flip();
    auto h = t.make();
    h->set(model);
    c.log() << t.name << " skip=" << skip << " value=" << model << "\n";
    std::string expect = "ok";
    J want;
    try
    {
        want = jm::ser(*t.schema, model, skip);
    }
    catch (const jm::Collision&)
    {
        expect = "logic_error";
    }
    YAML::Node tree;
    std::string text;
    bool shortcut = c.flip();
    std::string o1 = outcome([&] { tree.reset(h->ytree(skip)); });
    std::string o2 = outcome([&] { text = h->ytext(skip, shortcut); });
    PBT_EQ(o1, expect, std::string("yaml::serialize ") + t.name);
    PBT_EQ(o2, expect, std::string("yaml::dump ") + t.name);
    if (expect != "ok")
        return;
    c.log() << "document " << want << "\ntext " << pbt::quote(text) << "\n";
    J got = from_node(tree);
    if (!describes(got, want))
        PBT_FAIL(std::string("yaml::serialize ") + t.name + ": got " + show(got) + ", expected " + show(want));
    SAME(h->get(), model, 0, "the value changed while being written");

    J back_model = t.schema->dflt;
    std::string e3 = predict(*t.schema, back_model, want, false);
    auto read_back = [&](const YAML::Node& n, const char* what) {
        auto r = t.make();
        std::string o = outcome([&] { r->yread(n); });
        if (e3 == "any")
        {
            PBT_CHECK(o == "ok" || o == "deserialize_error", std::string(what) + ": " + o);
            return;
        }
        PBT_EQ(o, e3, std::string(what) + " " + t.name);
        if (e3 == "ok")
            SAME(r->get(), back_model, 0, std::string(what) + " " + t.name);
    };
    read_back(tree, "reading the serialized node");
    c.label_if(e3 == "any", "ambiguous scalar");
    if (want.k == J::arr || want.k == J::obj ? !is_empty(want) : true)
        c.nontrivial();
    // serializing twice gives separate nodes
    if (c.chance(1, 4))
    {
        YAML::Node other = h->ytree(skip);
        if (other.IsMap())
            other["\x01"] = 1;
        else if (other.IsSequence())
            other.push_back(1);
        PBT_CHECK(describes(from_node(tree), want), "two serialized nodes share their content");
    }

    if (!yaml_cpp_carries(want))
    {
        c.label("text not carried by yaml-cpp");
        return;
    }
    YAML::Node parsed;
    std::string op = outcome([&] { parsed.reset(kl::yaml::parse(text.c_str())); });
    PBT_EQ(op, std::string("ok"), std::string("parsing the dump of ") + t.name + " " + pbt::quote(text));
    J pj = from_node(parsed);
    if (!describes(pj, want))
        PBT_FAIL(std::string("yaml::dump ") + t.name + ": text " + pbt::quote(text) + " reads as " + show(pj) + ", expected " + show(want));
    read_back(parsed, "reading the dumped text");
    c.label("text read back");
}

// --------------------------------------------------------------------------- reading

void reading(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, all_types());
    c.label(t.name);
    unsigned edits = 0;
    J doc = gen_document(c, *t.schema, &edits);
    bool patch = c.chance(1, 3);
    auto h = t.make();
    J start = t.schema->dflt;
    if (c.chance(2, 3))
    {
        start = gen_value(c, *t.schema);
        h->set(start);
    }
    bool through_text = c.flip();
    std::string text = jm::text(doc);
    c.log() << t.name << (patch ? " patch " : " into ") << start << " document " << doc << (through_text ? " as text" : "") << "\n";
    J want = start;
    std::vector<std::string> trail;
    std::string expect = predict(*t.schema, want, doc, patch, &trail);
    YAML::Node node;
    if (through_text)
    {
        if (text.find('\0') != std::string::npos || !yaml_cpp_reads(text, doc))
        {
            c.label("text not carried by yaml-cpp");
            return;
        }
        std::string o = outcome([&] { node.reset(kl::yaml::parse(text.c_str())); });
        PBT_EQ(o, std::string("ok"), "parsing " + text);
    }
    else
        node.reset(to_node(doc));
    J before = from_node(node);
    std::string msg;
    std::string o = outcome([&] { with_message(msg, [&] { patch ? h->ypatch(node) : h->yread(node); }); });
    PBT_CHECK(jm::same(from_node(node), before, true), "reading changed the document");
    c.label(patch ? "patch" : "read");
    if (edits != 99)
        c.nontrivial();
    if (expect == "any")
    {
        PBT_CHECK(o == "ok" || o == "deserialize_error", std::string("reading ") + t.name + " from " + show(doc) + ": " + o);
        c.label("ambiguous scalar");
        return;
    }
    PBT_EQ(o, expect, std::string(patch ? "patching " : "deserializing ") + t.name + " from " + show(doc));
    if (expect == "deserialize_error" && !has_nul(doc))
        check_trail(msg, trail, std::string(patch ? "patching " : "deserializing ") + t.name + " from " + show(doc));
    c.label(expect == "ok" ? "accepted" : "rejected");
    if (expect == "ok")
        SAME(h->get(), want, 0, std::string(patch ? "patching " : "deserializing ") + t.name + " from " + show(doc));
}

// --------------------------------------------------------------------------- any text

void any_text(pbt::Choices& c)
{
    static const std::vector<std::string> tokens = {
        "a", "b", "id", "x", "1", "-1", "0x1f", "1.5", ".5", "null", "~", "true", "yes", "\"q\"", "'s'", "\"\\x41\"",
        ": ", ":", " ", "  ", "\n", "\n  ", "\n    ", "- ", "-", "? ", "[", "]", "{", "}", ", ", ",", "# c", "\n---\n", "\n...\n",
        "|\n  ", ">\n  ", "!!str ", "!!int ", "!t ", "&a ", "*a", "%YAML 1.2\n", "\t", "\\", "\"", "'", "<<: ", "@", "`", "\xc3\xa9", "\xff", "\x7f"};
    auto& t = jt::pick_type(c, all_types());
    std::string text;
    size_t n = 1 + c.below(24);
    std::vector<std::string> names;
    jm::all_names(*t.schema, names);
    for (size_t i = 0; i < n; ++i)
        text += !names.empty() && c.chance(1, 4) ? names[c.below(names.size())] + (c.flip() ? ": " : "") : c.pick(tokens);
    c.log() << t.name << " text " << pbt::quote(text) << "\n";
    YAML::Node node;
    std::string o = outcome([&] { node.reset(kl::yaml::parse(text.c_str())); });
    PBT_CHECK(o == "ok" || o == "parse_error", "parsing " + pbt::quote(text) + ": " + o);
    bool ref = true;
    try
    {
        YAML::Load(text);
    }
    catch (const YAML::Exception&)
    {
        ref = false;
    }
    PBT_CHECK((o == "ok") == ref, "parsing " + pbt::quote(text) + ": " + o);
    c.label(o == "ok" ? "text parsed" : "text refused");
    if (o != "ok")
        return;
    // an alias may make the document cyclic: only types that cannot recurse
    if (std::string(t.name) == "Tree" && text.find('*') != std::string::npos)
        return;
    auto h = t.make();
    bool patch = c.chance(1, 3);
    std::string r = outcome([&] { patch ? h->ypatch(node) : h->yread(node); });
    PBT_CHECK(r == "ok" || r == "deserialize_error", std::string("reading ") + t.name + " from text " + pbt::quote(text) + ": " + r);
    if (n > 2)
        c.nontrivial();
    c.label(r == "ok" ? "text accepted" : "text rejected");
    if (text.find('&') != std::string::npos || text.find('?') != std::string::npos)
        return; // cyclic or with complex keys: no model
    J doc = from_node(node);
    J want = t.schema->dflt;
    std::string expect = predict(*t.schema, want, doc, patch);
    std::function<bool(const J&)> plain = [&](const J& j) {
        for (auto& e : j.a)
            if (!plain(e))
                return false;
        for (auto& kv : j.o)
            if (kv.first == "<non-scalar key>" || !plain(kv.second))
                return false;
        return true;
    };
    if (expect == "any" || !plain(doc))
        return;
    PBT_EQ(r, expect, std::string("reading ") + t.name + " from text " + pbt::quote(text));
    if (r == "ok")
        SAME(h->get(), want, 0, std::string("reading ") + t.name + " from text " + pbt::quote(text));
}

} // namespace

// --------------------------------------------------------------------------- raw nodes, builders, extractors
namespace jt {
struct WithView
{
    int a = 0;
    kl::yaml::view v;
    std::string z;
};
KL_REFLECT_STRUCT(WithView, a, v, z)
} // namespace jt

namespace {

void helpers(pbt::Choices& c)
{
    c.label("helpers");
    J any = jm::gen_any(c);
    std::function<void(J&)> uniq = [&](J& j) {
        jm::Obj keep;
        for (auto& e : j.a)
            uniq(e);
        for (auto& kv : j.o)
        {
            uniq(kv.second);
            bool dup = false;
            for (auto& q : keep)
                dup = dup || q.first == kv.first;
            if (!dup)
                keep.push_back(kv);
        }
        j.o = std::move(keep);
    };
    uniq(any);
    c.log() << "node " << any << "\n";
    YAML::Node node = to_node(any);
    {
        // at: absent positions read as null
        if (any.k == J::arr)
            for (size_t i = 0; i < any.a.size() + 3; ++i)
            {
                J got = from_node(kl::yaml::at(node, i));
                PBT_CHECK(describes(got, i < any.a.size() ? any.a[i] : J{}), "at(sequence, " + std::to_string(i) + ")");
            }
        if (any.k == J::obj)
        {
            for (auto& [k, e] : any.o)
                PBT_CHECK(describes(from_node(kl::yaml::at(node, k)), e), "at(map, " + pbt::quote(k) + ")");
            PBT_CHECK(from_node(kl::yaml::at(node, std::string("no such key"))).k == J::null, "at(map, absent)");
            PBT_CHECK(describes(from_node(node), any), "at() changed the node");
        }
    }
    {
        // a raw node member passes through
        J doc = J::object();
        doc.put("a", J::num(static_cast<int>(c.draw(1000))));
        bool present = c.chance(3, 4);
        if (present)
            doc.put("v", any);
        doc.put("z", J::string(jm::gen_text(c)));
        YAML::Node n = to_node(doc);
        jt::WithView w;
        std::string o = outcome([&] { kl::yaml::deserialize(w, n); });
        PBT_EQ(o, std::string("ok"), "deserializing a raw node");
        PBT_EQ(w.a, static_cast<int>(doc.at("a").i), "a");
        PBT_EQ(w.z, doc.at("z").s, "z");
        PBT_CHECK(describes(from_node(w.v), present ? any : J{}), "raw node content");
        YAML::Node again = kl::yaml::serialize(w);
        J full = J::object();
        full.put("a", doc.at("a"));
        full.put("v", present ? any : J{});
        full.put("z", doc.at("z"));
        PBT_CHECK(describes(from_node(again), full), "serializing a raw node: " + show(from_node(again)));
        if (yaml_cpp_carries(full))
        {
            std::string text = kl::yaml::dump(w);
            J got;
            std::string op = outcome([&] { got = from_node(kl::yaml::parse(text.c_str())); });
            PBT_EQ(op, std::string("ok"), "parsing the dump of a raw node " + pbt::quote(text));
            PBT_CHECK(describes(got, full), "dumping a raw node: " + pbt::quote(text));
        }
    }
    {
        // what yaml-cpp itself answers for a member that is not there reads as null
        J members = J::object();
        members.put("a", any);
        const YAML::Node here = to_node(members);
        std::optional<int64_t> none = c.integer<int64_t>();
        std::optional<std::string> text = jm::gen_text(c);
        std::string o = outcome([&] {
            c.flip() ? kl::yaml::deserialize(none, here["not there"]) : kl::yaml::patch(none, here["not there"]);
            c.flip() ? kl::yaml::deserialize(text, here["not there"]) : kl::yaml::patch(text, here["not there"]);
        });
        PBT_EQ(o, std::string("ok"), "reading an optional from an undefined node");
        PBT_CHECK(!none && !text, "an optional read from an undefined node is engaged");
    }
    {
        // builders
        kl::yaml::serialize_context ctx{c.flip()};
        J want = J::object();
        auto m = kl::yaml::to_map(ctx);
        for (size_t i = c.below(5); i; --i)
        {
            std::string k = jm::gen_key(c);
            J v = J::num(c.integer<int64_t>());
            if (auto p = want.find(k))
                *p = v;
            else
                want.put(k, v);
            m.add(k, static_cast<int64_t>(v.i));
        }
        YAML::Node raw = to_node(any);
        m.add("raw", raw);
        want.erase("raw");
        want.put("raw", any);
        PBT_CHECK(describes(from_node(m.done()), want), "to_map");
        J ws = J::array();
        auto sq = kl::yaml::to_sequence(ctx);
        for (size_t i = c.below(5); i; --i)
        {
            std::string v = jm::gen_text(c);
            ws.a.push_back(J::string(v));
            sq.add(v);
        }
        sq.add(raw);
        ws.a.push_back(any);
        YAML::Node sn = sq.done();
        PBT_CHECK(describes(from_node(sn), ws), "to_sequence");
    }
    {
        // extractors
        J doc = any;
        if (c.chance(2, 3))
        {
            doc = c.flip() ? J::object() : J::array();
            static const std::vector<std::string> keys = {"a", "b", "k", "key"};
            for (size_t i = c.below(5); i; --i)
            {
                J v = c.chance(1, 3) ? jm::gen_any(c) : J::num(static_cast<int>(c.draw(300)) - 100);
                uniq(v);
                if (doc.k == J::arr)
                    doc.a.push_back(v);
                else
                {
                    auto k = c.pick(keys);
                    if (!doc.find(k))
                        doc.put(k, v);
                }
            }
        }
        YAML::Node n = to_node(doc);
        bool map = c.flip();
        if (doc.k == J::obj || doc.k == J::arr)
            map = c.chance(7, 8) ? doc.k == J::obj : doc.k != J::obj;
        kl::yaml::deserialize_context ctx;
        std::string expect = doc.k == (map ? J::obj : J::arr) ? "ok" : "deserialize_error";
        J want = J::array(), got = J::array();
        struct Step
        {
            std::string key;
            bool seek;
            unsigned index;
            unsigned type;
        };
        std::vector<Step> steps;
        std::vector<std::string> trail;
        std::string msg;
        unsigned pos = 0;
        for (size_t i = 1 + c.below(4); i; --i)
        {
            static const std::vector<std::string> keys = {"a", "b", "k", "key"};
            Step s{c.pick(keys), c.chance(1, 4), static_cast<unsigned>(c.below(6)), static_cast<unsigned>(c.below(4))};
            steps.push_back(s);
            if (expect != "ok")
                continue;
            J x;
            if (map)
            {
                if (auto p = doc.find(s.key))
                    x = *p;
            }
            else
            {
                if (s.seek)
                    pos = s.index;
                if (pos < doc.a.size())
                    x = doc.a[pos];
                ++pos;
            }
            jm::SP sch = s.type == 0 ? jm::schema_of<int8_t>() : s.type == 1 ? jm::schema_of<std::string>() : s.type == 2 ? jm::schema_of<std::optional<int>>() : jm::schema_of<std::vector<int>>();
            J v = sch->dflt;
            expect = predict(*sch, v, x, false, &trail);
            if (expect == "deserialize_error")
                trail.push_back(map ? "field " + s.key : "element " + std::to_string(pos - 1));
            want.a.push_back(v);
        }
        auto each = [&](auto& ex, auto is_map) {
            for (auto& s : steps)
            {
                auto one = [&](auto value) {
                    if constexpr (is_map.value)
                        ex.extract(s.key, value);
                    else if (s.seek)
                        ex.extract(value, s.index);
                    else
                        ex.extract(value);
                    got.a.push_back(jm::to_j(value));
                };
                switch (s.type)
                {
                case 0: one(int8_t{}); break;
                case 1: one(std::string{}); break;
                case 2: one(std::optional<int>{}); break;
                default: one(std::vector<int>{});
                }
            }
        };
        std::string o = outcome([&] { with_message(msg, [&] {
            if (map)
            {
                auto ex = kl::yaml::from_map(n, ctx);
                each(ex, std::true_type{});
            }
            else
            {
                auto ex = kl::yaml::from_sequence(n, ctx);
                each(ex, std::false_type{});
            }
        }); });
        if (expect == "any")
            PBT_CHECK(o == "ok" || o == "deserialize_error", "extracting from " + show(doc) + ": " + o);
        else
        {
            PBT_EQ(o, expect, std::string(map ? "from_map" : "from_sequence") + " on " + show(doc));
            if (o == "deserialize_error" && !has_nul(doc))
                check_trail(msg, trail, "extracting from " + show(doc));
            if (o == "ok")
            {
                SAME(got, want, 0, "extracted from " + show(doc));
                c.nontrivial();
            }
        }
    }
}

} // namespace

void property(pbt::Choices& c)
{
    switch (c.draw(10))
    {
    case 0:
    case 1:
    case 2:
        writing(c);
        break;
    case 3:
    case 4:
        any_text(c);
        break;
    case 5:
        helpers(c);
        break;
    default:
        reading(c);
    }
}

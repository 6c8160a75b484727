// C16: deserialization of arbitrary documents agrees with the reference interpretation.
#include "json_checks.hpp"

const char* const property_rule =
    "non-trivial: a document that is an edited valid document, or an accepted one, or a non-empty text";

namespace {

void documents(pbt::Choices& c)
{
    bool attr = c.chance(1, 5);
    auto& t = jt::pick_type(c, attr ? jt::attr_types() : jt::plain_types());
    c.label(t.name);
    unsigned edits = 0;
    J doc = gen_document(c, *t.schema, &edits);
    J start = t.schema->k == jm::Kind::optional ? J{} : t.schema->dflt;
    auto h = t.make();
    int how = static_cast<int>(c.draw(3));
    if (how != 1 && c.flip())
    {
        start = jm::gen(c, *t.schema);
        h->set(start);
    }
    c.log() << t.name << " into " << start << " document " << doc << "\n";
    std::string expect = "ok";
    J want = start;
    try
    {
        jm::de(*t.schema, want, doc);
    }
    catch (const jm::DeError&)
    {
        expect = "deserialize_error";
    }
    rapidjson::Document d;
    std::string got;
    bool through_text = !attr && doc.k != J::null && c.chance(1, 6);
    unsigned tol = 0;
    if (through_text)
    {
        std::string tx = jm::text(doc);
        std::vector<char> exact(tx.begin(), tx.end());
        tol = 4;
        got = outcome([&] {
            auto pd = kl::json::parse({exact.data(), exact.size()});
            h->read(pd, how);
        });
    }
    else
    {
        rapidjson::Value rv = jm::to_rj(doc, d.GetAllocator());
        got = outcome([&] { h->read(rv, how); });
    }
    PBT_EQ(got, expect, std::string("deserializing into ") + t.name + " from " + show(doc));
    if (expect == "ok")
    {
        J now = h->get();
        if (!jm::same(now, want, false, tol))
        {
            bool has_float = std::string(t.name) == "Num" || std::string(t.name) == "float";
            if (!(tol && has_float && jm::same(now, want, false, (1u << 29) + 4)))
                PBT_FAIL(std::string(t.name) + " from " + show(doc) + ": got " + show(now) + ", expected " + show(want));
        }
    }
    c.label(expect == "ok" ? "accepted" : "rejected");
    if (edits != 99 || expect == "ok")
        c.nontrivial();
}

void extractors(pbt::Choices& c)
{
    c.label("extractors");
    J doc = jm::gen_any(c);
    if (c.flip())
    {
        doc = c.flip() ? J::object() : J::array();
        for (size_t n = c.below(5); n; --n)
        {
            J e;
            switch (c.draw(4))
            {
            case 0: e = J::num(jm::gen_int(c, -300, 300)); break;
            case 1: e = J::string(jm::gen_text(c, 4)); break;
            case 2: e = jm::gen(c, *jm::schema_of<jt::Inner>()); break;
            default: e = jm::gen_any(c, 1);
            }
            if (doc.k == J::obj)
                doc.put(jm::gen_key(c), e);
            else
                doc.a.push_back(e);
        }
    }
    rapidjson::Document d;
    rapidjson::Value rv = jm::to_rj(doc, d.GetAllocator());
    c.log() << "document " << doc << "\n";
    kl::json::deserialize_context ctx;
    struct Step
    {
        int type; // 0 int8, 1 string, 2 Inner, 3 optional<int>
        std::string key;
        bool seek;
        unsigned index;
    };
    std::vector<Step> steps;
    for (size_t n = 1 + c.below(4); n; --n)
    {
        std::string k = jm::gen_key(c);
        k = k.substr(0, k.find('\0'));
        steps.push_back({static_cast<int>(c.draw(4)), k, c.chance(1, 3), static_cast<unsigned>(c.below(6))});
    }
    auto schema = [](int ty) -> const jm::Schema& {
        switch (ty)
        {
        case 0: return *jm::schema_of<int8_t>();
        case 1: return *jm::schema_of<std::string>();
        case 2: return *jm::schema_of<jt::Inner>();
        default: return *jm::schema_of<std::optional<int>>();
        }
    };
    for (bool object : {true, false})
    {
        J want = J::array(), got = J::array();
        std::string expect = "ok";
        if (doc.k != (object ? J::obj : J::arr))
            expect = "deserialize_error";
        else
            try
            {
                unsigned idx = 0;
                for (auto& s : steps)
                {
                    J node;
                    if (object)
                    {
                        if (auto p = doc.find(s.key))
                            node = *p;
                    }
                    else
                    {
                        if (s.seek)
                            idx = s.index;
                        if (idx < doc.a.size())
                            node = doc.a[idx];
                        ++idx;
                    }
                    J v = schema(s.type).dflt;
                    jm::de(schema(s.type), v, node);
                    want.a.push_back(v);
                }
            }
            catch (const jm::DeError&)
            {
                expect = "deserialize_error";
            }
        auto each = [&](auto& ex, auto is_object) {
            for (auto& s : steps)
            {
                auto one = [&](auto value) {
                    if constexpr (is_object.value)
                        ex.extract(s.key.c_str(), value);
                    else if (s.seek)
                        ex.extract(value, s.index);
                    else
                        ex.extract(value);
                    got.a.push_back(jm::to_j(value));
                };
                switch (s.type)
                {
                case 0: one(int8_t{}); break;
                case 1: one(std::string{}); break;
                case 2: one(jt::Inner{}); break;
                default: one(std::optional<int>{});
                }
            }
        };
        std::string o = outcome([&] {
            if (object)
            {
                auto ex = kl::json::from_object(rv, ctx);
                each(ex, std::true_type{});
            }
            else
            {
                auto ex = kl::json::from_array(rv, ctx);
                each(ex, std::false_type{});
            }
        });
        PBT_EQ(o, expect, std::string(object ? "from_object" : "from_array") + " on " + show(doc));
        if (expect == "ok")
        {
            SAME(got, want, 0, "extracted values from " + show(doc));
            c.nontrivial();
        }
    }
    // json::at: absent positions read as null
    if (doc.k == J::arr)
        for (unsigned i = 0; i < doc.a.size() + 3; ++i)
            SAME(jm::from_rj(kl::json::at(static_cast<const rapidjson::Value&>(rv).GetArray(), i)), (i < doc.a.size() ? doc.a[i] : J{}), 0, "at(array)");
    // view: refers to the node itself
    kl::json::view view;
    PBT_CHECK(!view, "default view is empty");
    kl::json::deserialize(view, rv);
    PBT_CHECK(view && &view.value() == &rv && &*view == &rv && view.operator->() == &rv, "view of the document");
    // string_view
    std::string_view sv;
    std::string o = outcome([&] { kl::json::deserialize(sv, rv); });
    PBT_EQ(o, std::string(doc.k == J::str ? "ok" : "deserialize_error"), "string_view from " + show(doc));
    if (doc.k == J::str)
        PBT_CHECK(sv == doc.s, "string_view from " + show(doc));
}

// An independent recogniser of RFC 8259 text.
struct Rec
{
    const std::string& t;
    size_t i = 0;
    bool big = false; // a number outside of the range of double: rejected by the parser
    bool ws()
    {
        while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r'))
            ++i;
        return true;
    }
    bool lit(const char* s)
    {
        size_t n = std::strlen(s);
        if (t.compare(i, n, s) != 0)
            return false;
        i += n;
        return true;
    }
    bool hex4(unsigned& v)
    {
        v = 0;
        for (int k = 0; k < 4; ++k, ++i)
        {
            if (i >= t.size() || !std::isxdigit(static_cast<unsigned char>(t[i])))
                return false;
            v = v * 16 + static_cast<unsigned>(std::isdigit(static_cast<unsigned char>(t[i])) ? t[i] - '0' : (t[i] | 32) - 'a' + 10);
        }
        return true;
    }
    bool str()
    {
        if (i >= t.size() || t[i] != '"')
            return false;
        ++i;
        while (i < t.size())
        {
            unsigned char ch = static_cast<unsigned char>(t[i]);
            if (ch == '"')
            {
                ++i;
                return true;
            }
            if (ch < 0x20)
                return false;
            if (ch == '\\')
            {
                ++i;
                if (i >= t.size())
                    return false;
                char e = t[i++];
                if (e == 'u')
                {
                    unsigned v;
                    if (!hex4(v))
                        return false;
                    if (v >= 0xd800 && v <= 0xdfff)
                    {
                        unsigned w;
                        if (v > 0xdbff || !(i + 1 < t.size() && t[i] == '\\' && t[i + 1] == 'u'))
                            return false;
                        i += 2;
                        if (!hex4(w) || w < 0xdc00 || w > 0xdfff)
                            return false;
                    }
                }
                else if (!std::strchr("\"\\/bfnrt", e) || !e)
                    return false;
            }
            else
                ++i;
        }
        return false;
    }
    bool digits()
    {
        size_t s = i;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9')
            ++i;
        return i > s;
    }
    bool num()
    {
        size_t s = i;
        if (i < t.size() && t[i] == '-')
            ++i;
        if (i < t.size() && t[i] == '0')
            ++i;
        else if (!digits())
            return false;
        if (i < t.size() && t[i] == '.')
        {
            ++i;
            if (!digits())
                return false;
        }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
        {
            ++i;
            if (i < t.size() && (t[i] == '+' || t[i] == '-'))
                ++i;
            if (!digits())
                return false;
        }
        double d = std::strtod(t.substr(s, i - s).c_str(), nullptr);
        if (!(std::fabs(d) < 1e308))
            big = true;
        return true;
    }
    bool value(int depth = 0)
    {
        ws();
        if (i >= t.size())
            return false;
        switch (t[i])
        {
        case 'n': return lit("null");
        case 't': return lit("true");
        case 'f': return lit("false");
        case '"': return str();
        case '[':
            ++i;
            ws();
            if (i < t.size() && t[i] == ']')
                return ++i, true;
            for (;;)
            {
                if (!value(depth + 1))
                    return false;
                ws();
                if (i < t.size() && t[i] == ',')
                {
                    ++i;
                    continue;
                }
                if (i < t.size() && t[i] == ']')
                    return ++i, true;
                return false;
            }
        case '{':
            ++i;
            ws();
            if (i < t.size() && t[i] == '}')
                return ++i, true;
            for (;;)
            {
                ws();
                if (!str())
                    return false;
                ws();
                if (i >= t.size() || t[i] != ':')
                    return false;
                ++i;
                if (!value(depth + 1))
                    return false;
                ws();
                if (i < t.size() && t[i] == ',')
                {
                    ++i;
                    continue;
                }
                if (i < t.size() && t[i] == '}')
                    return ++i, true;
                return false;
            }
        default: return num();
        }
    }
    bool all()
    {
        if (!value())
            return false;
        ws();
        return i == t.size();
    }
};

void texts(pbt::Choices& c)
{
    c.label("text");
    std::string t;
    J doc;
    bool intact = false;
    if (c.chance(1, 5))
        t = c.bytes(20);
    else if (c.chance(1, 5))
        for (size_t n = c.len(14); n; --n)
        {
            static const std::vector<std::string> tok = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "-0", "1.5e3", "true", "null", " ", "\n",
                                                         "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"\\x\"", "01", "+1", ".5", "1.", "1e", "nul", "//", "NaN", "'a'", "\"", "\\", "\t"};
            t += c.pick(tok);
        }
    else
    {
        doc = jm::gen_any(c);
        t = jm::text(doc);
        intact = true;
        if (c.flip())
        {
            intact = false;
            for (size_t n = 1 + c.below(2); n; --n)
            {
                size_t at = c.below(t.size() + 1);
                switch (c.draw(4))
                {
                case 0: t.resize(at); break;
                case 1: t.insert(at, 1, static_cast<char>(c.draw(256))); break;
                case 2:
                    if (at < t.size())
                        t.erase(at, 1);
                    break;
                default:
                    if (at < t.size())
                        t[at] = static_cast<char>(c.draw(256));
                }
            }
        }
    }
    // The parser stops at a NUL character (documented behaviour of its streams is C strings); not
    // claimed either way.
    bool nul = t.find('\0') != std::string::npos;
    // RapidJSON skips a byte order mark, or any part of one, at the start: not claimed either way.
    nul = nul || (!t.empty() && std::strchr("\xef\xbb\xbf", t[0]));
    c.log() << "text " << pbt::quote(t) << "\n";
    if (!t.empty())
        c.nontrivial();
    std::vector<char> exact(t.begin(), t.end());
    J got;
    std::string o = outcome([&] { got = jm::from_rj(kl::json::parse({exact.data(), exact.size()})); });
    PBT_CHECK(o == "ok" || o == "parse_error", "parse of " + pbt::quote(t) + " ended with " + o);
    if (nul)
        return;
    Rec r{t};
    bool ok = r.all();
    if (!r.big)
        PBT_EQ(o, std::string(ok ? "ok" : "parse_error"), "parse of " + pbt::quote(t));
    c.label(o == "ok" ? "text accepted" : "text rejected");
    if (intact && o == "ok")
        SAME(got, doc, 4, "parsed document of " + pbt::quote(t));
}

} // namespace

void property(pbt::Choices& c)
{
    switch (c.draw(10))
    {
    case 0: extractors(c); break;
    case 1:
    case 2: texts(c); break;
    default: documents(c);
    }
}

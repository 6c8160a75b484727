// C15: deserialize(serialize(v)) == v, through the tree and through text; array form of structs.
#include "json_checks.hpp"

const char* const property_rule =
    "non-trivial: the value is not the default value of its type (some member/element/number is set)";

namespace {

// The document of v with struct objects replaced, at random, by the array of their field values;
// trailing nulls may be left out.
J arrayed(pbt::Choices& c, const jm::Schema& s, const J& v, bool& used)
{
    switch (s.k)
    {
    case jm::Kind::optional:
        return v.k == J::null ? J{} : arrayed(c, *s.of, v, used);
    case jm::Kind::seq:
    case jm::Kind::fixed:
    case jm::Kind::tuple: {
        J j = J::array();
        for (size_t i = 0; i < v.a.size(); ++i)
            j.a.push_back(arrayed(c, s.k == jm::Kind::tuple ? *s.items[i] : *s.of, v.a[i], used));
        return j;
    }
    case jm::Kind::map: {
        J j = J::object();
        for (auto& [k, e] : v.o)
            j.put(k, arrayed(c, *s.of, e, used));
        return j;
    }
    case jm::Kind::strct: {
        bool arr = c.chance(2, 3);
        J j = arr ? J::array() : J::object();
        for (auto& f : s.fields)
        {
            J x = arrayed(c, *f.type, v.at(f.id), used);
            if (arr)
                j.a.push_back(std::move(x));
            else
                j.put(f.name, std::move(x));
        }
        if (arr)
        {
            used = true;
            while (!j.a.empty() && j.a.back().k == J::null && c.flip())
                j.a.pop_back();
        }
        return j;
    }
    default:
        return v;
    }
}

// Types with attributes: what their document means to a reader is what the attributes prescribe.
void attributed(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, jt::attr_types());
    c.label(t.name);
    J model = jm::gen(c, *t.schema, jm::with_scale());
    jm::drop_clashes(*t.schema, model);
    bool skip = c.flip();
    auto h = t.make();
    h->set(model);
    c.log() << t.name << " skip=" << skip << " value=" << model << "\n";
    if (!jm::same(model, t.schema->dflt, false))
        c.nontrivial();
    J doc = h->tree(skip, 1);
    J target = t.schema->dflt;
    auto r = t.make();
    int how = static_cast<int>(c.draw(3));
    if (how != 1 && c.flip())
    {
        target = jm::gen(c, *t.schema);
        r->set(target);
    }
    std::string expect = "ok";
    try
    {
        jm::de(*t.schema, target, jm::ser(*t.schema, model, skip));
    }
    catch (const jm::DeError&)
    {
        expect = "deserialize_error"; // validation, or a member that is never written
    }
    rapidjson::Document d;
    rapidjson::Value rv = jm::to_rj(doc, d.GetAllocator());
    std::string o = outcome([&] { r->read(rv, how); });
    PBT_EQ(o, expect, "reading back the serialized document " + show(doc));
    if (expect != "ok")
        return;
    c.label("attributed, read back");
    SAME(r->get(), target, 0, "value read back from its serialized document " + show(doc));
}

} // namespace

void property(pbt::Choices& c)
{
    if (c.chance(1, 5))
        return attributed(c);
    auto& t = jt::pick_type(c, jt::plain_types());
    c.label(t.name);
    J model = jm::gen(c, *t.schema, jm::with_scale());
    bool skip = c.flip();
    auto h = t.make();
    h->set(model);
    c.log() << t.name << " skip=" << skip << " value=" << jm::ser(*t.schema, model, false) << "\n";
    J want = skip ? strip_null_entries(*t.schema, model) : model;
    if (!jm::same(model, t.schema->dflt, false))
        c.nontrivial();

    // targets: fresh, or already holding something else
    auto target = [&] {
        auto r = t.make();
        if (c.flip())
            r->set(jm::gen(c, *t.schema));
        return r;
    };
    int how = static_cast<int>(c.draw(3));

    J doc = h->tree(skip, 1);
    {
        rapidjson::Document d;
        rapidjson::Value rv = jm::to_rj(doc, d.GetAllocator());
        auto r = target();
        std::string o = outcome([&] { r->read(rv, how); });
        PBT_EQ(o, std::string("ok"), "reading back the serialized document " + show(doc));
        SAME(r->get(), want, 0, "value read back from its serialized document");
        J again = r->tree(skip, 1);
        SAME(again, doc, 0, "serializing the value read back");
    }
    {
        std::string text = h->text(skip, c.flip(), c.flip());
        // no terminator behind the text
        std::vector<char> exact(text.begin(), text.end());
        auto r = target();
        std::string o = outcome([&] {
            rapidjson::Document d = kl::json::parse({exact.data(), exact.size()});
            r->read(d, how);
        });
        PBT_EQ(o, std::string("ok"), "reading back the dumped text " + pbt::quote(text));
        // the parser is not exact for reals; floats may round to the neighbour
        J got = r->get();
        if (!jm::same(got, want, false, 4))
        {
            // retry allowing one float ULP (2^29 double ULPs) only where the type has floats
            bool has_float = std::string(t.name) == "Num" || std::string(t.name) == "float";
            if (!has_float || !jm::same(got, want, false, (1u << 29) + 4))
                PBT_FAIL("value read back from its text " + pbt::quote(text) + ": got " + show(got) + ", expected " + show(want));
        }
    }
    bool used = false;
    J arr = arrayed(c, *t.schema, model, used);
    if (used)
    {
        c.label("array form");
        rapidjson::Document d;
        rapidjson::Value rv = jm::to_rj(arr, d.GetAllocator());
        auto r = target();
        std::string o = outcome([&] { r->read(rv, how); });
        PBT_EQ(o, std::string("ok"), "reading the array form " + show(arr));
        SAME(r->get(), model, 0, "value read from the array form " + show(arr));
    }
}

// C17: per-field attributes have exactly their documented effect, in both directions.
#include "json_checks.hpp"

const char* const property_rule =
    "non-trivial: the document differs from the plain dump of a default value, i.e. some attribute-controlled member is present, absent, null, aliased or unknown";

namespace {

void writing(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, jt::attr_types());
    c.label(t.name);
    J model = jm::gen(c, *t.schema);
    bool clash_ok = c.chance(1, 5);
    if (!clash_ok)
        jm::drop_clashes(*t.schema, model);
    bool skip = c.flip();
    auto h = t.make();
    h->set(model);
    c.log() << t.name << " skip=" << skip << " value=" << model << "\n";
    std::string expect = "ok";
    J want;
    try
    {
        want = jm::ser(*t.schema, model, skip);
    }
    catch (const jm::Collision&)
    {
        expect = "logic_error";
    }
    J tree;
    std::string text;
    std::string o1 = outcome([&] { tree = h->tree(skip, static_cast<int>(c.draw(3))); });
    std::string o2 = outcome([&] { text = h->text(skip, c.flip(), c.flip()); });
    PBT_EQ(o1, expect, std::string("serialize ") + t.name);
    PBT_EQ(o2, expect, std::string("dump ") + t.name);
    c.label_if(expect != "ok", "name clash refused");
    c.nontrivial();
    if (expect != "ok")
        return;
    c.log() << "document " << want << "\n";
    if (!jm::same(tree, want, true))
        PBT_FAIL(std::string("serialize ") + t.name + ": got " + show(tree) + ", expected " + show(want));
    J dumped = jm::parse_text(text);
    if (!jm::same(dumped, want, true))
        PBT_FAIL(std::string("dump ") + t.name + ": got " + show(dumped) + ", expected " + show(want));

    // the document read back into a fresh object
    auto r = t.make();
    J back = t.schema->dflt;
    std::string e2 = "ok";
    try
    {
        jm::de(*t.schema, back, want);
    }
    catch (const jm::DeError&)
    {
        e2 = "deserialize_error";
    }
    rapidjson::Document d;
    rapidjson::Value rv = jm::to_rj(want, d.GetAllocator());
    std::string o3 = outcome([&] { r->read(rv, 0); });
    PBT_EQ(o3, e2, std::string("reading back ") + t.name + " from " + show(want));
    if (e2 == "ok")
    {
        SAME(r->get(), back, 0, std::string("reading back ") + t.name + " from " + show(want));
        c.label("read back");
        // what was read can be written again, unless members were dropped by an attribute it is the same document
        J again;
        std::string o4 = outcome([&] { again = r->tree(skip, 1); });
        PBT_EQ(o4, std::string("ok"), std::string("writing again ") + t.name + " read from " + show(want));
        SAME(again, jm::ser(*t.schema, back, skip), 0, "writing again");
    }
}

void reading(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, jt::attr_types());
    c.label(t.name);
    J doc;
    unsigned edits = 0;
    doc = gen_document(c, *t.schema, &edits);
    if (doc.k == J::obj && c.chance(2, 3))
    {
        // member-level edits of the top object: rename to an alias, null, drop, unknown
        std::vector<std::string> names;
        jm::all_names(*t.schema, names);
        for (size_t n = 1 + c.below(3); n && !doc.o.empty(); --n)
        {
            size_t at = c.below(doc.o.size());
            switch (c.draw(4))
            {
            case 0: {
                // to an alias of the same field, if it has some
                bool done = false;
                std::function<void(const jm::Schema&)> visit = [&](const jm::Schema& s) {
                    for (auto& f : s.fields)
                    {
                        if (f.flatten)
                            visit(*f.type);
                        else if (!done && f.name == doc.o[at].first && !f.aliases.empty())
                        {
                            done = true;
                            if (c.flip())
                                doc.o[at].first = f.aliases[c.below(f.aliases.size())];
                            else
                                doc.o.insert(doc.o.begin() + static_cast<long>(c.below(doc.o.size() + 1)),
                                             {f.aliases[c.below(f.aliases.size())], jm::gen(c, *f.type)});
                        }
                    }
                };
                visit(*t.schema);
                break;
            }
            case 1: doc.o[at].second = J{}; break;
            case 2: doc.o.erase(doc.o.begin() + static_cast<long>(at)); break;
            default:
                doc.o.insert(doc.o.begin() + static_cast<long>(at), {names[c.below(names.size())], J::num(static_cast<jm::i128>(c.draw(12)))});
            }
        }
    }
    auto h = t.make();
    J start = t.schema->dflt;
    int how = static_cast<int>(c.draw(3));
    if (how != 1 && c.chance(2, 3))
    {
        start = jm::gen(c, *t.schema);
        h->set(start);
    }
    c.log() << t.name << " into " << start << " document " << doc << "\n";
    std::string expect = "ok";
    J want = start;
    try
    {
        jm::de(*t.schema, want, doc);
    }
    catch (const jm::DeError&)
    {
        expect = "deserialize_error";
    }
    rapidjson::Document d;
    rapidjson::Value rv = jm::to_rj(doc, d.GetAllocator());
    std::string o = outcome([&] { h->read(rv, how); });
    PBT_EQ(o, expect, std::string("deserializing ") + t.name + " from " + show(doc));
    c.label(expect == "ok" ? "accepted" : "rejected");
    if (expect == "ok")
        SAME(h->get(), want, 0, std::string("deserializing ") + t.name + " from " + show(doc));
    if (edits != 99)
        c.nontrivial();
}

} // namespace

void property(pbt::Choices& c)
{
    if (c.chance(2, 5))
        writing(c);
    else
        reading(c);
}

// C18: patching changes exactly the mentioned members.
#include "json_checks.hpp"

const char* const property_rule =
    "non-trivial: an accepted patch that changed the value and left at least one other member as it was, or a law (identity/idempotence/disjoint) on a non-empty patch";

namespace {

const jt::Types& all_types()
{
    static jt::Types ts = [] {
        jt::Types t = jt::plain_types();
        for (auto& x : jt::attr_types())
            t.push_back(x);
        return t;
    }();
    return ts;
}

J gen_value(pbt::Choices& c, const jm::Schema& s)
{
    J v = jm::gen(c, s);
    jm::drop_clashes(s, v);
    return v;
}

// Keep a random part of the members of (nested) objects.
J thin(pbt::Choices& c, const J& doc, unsigned depth = 0)
{
    J r = doc;
    if (doc.k == J::obj)
    {
        r.o.clear();
        for (auto& [k, e] : doc.o)
            if (c.chance(1, 2))
                r.put(k, c.chance(1, 40) ? J{} : thin(c, e, depth + 1));
    }
    return r;
}

void patching(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, all_types());
    c.label(t.name);
    J start = gen_value(c, *t.schema);
    J doc;
    unsigned edits = 0;
    if (c.chance(1, 5))
        doc = gen_document(c, *t.schema, &edits);
    else
    {
        J other = gen_value(c, *t.schema);
        // mention existing map entries, too
        doc = thin(c, jm::ser(*t.schema, c.flip() ? other : start, c.flip()));
        std::vector<std::string> names;
        jm::all_names(*t.schema, names);
        for (size_t n = c.flip() ? 0 : c.below(3); n; --n)
            jm::mutate(c, doc, names);
    }
    auto h = t.make();
    h->set(start);
    c.log() << t.name << " value " << start << "\npatch " << doc << "\n";
    std::string expect = "ok";
    J want = start;
    try
    {
        jm::patch(*t.schema, want, doc);
    }
    catch (const jm::DeError&)
    {
        expect = "deserialize_error";
    }
    rapidjson::Document d;
    rapidjson::Value rv = jm::to_rj(doc, d.GetAllocator());
    int how = static_cast<int>(c.draw(2));
    std::string o = outcome([&] { h->patch(rv, how); });
    PBT_EQ(o, expect, std::string("patching ") + t.name + " with " + show(doc));
    c.label(expect == "ok" ? "accepted" : "rejected");
    if (expect != "ok")
        return;
    SAME(h->get(), want, 0, std::string("patching ") + t.name + " " + show(start) + " with " + show(doc));
    if (doc.k == J::obj && !jm::same(want, start, false))
        for (auto& f : t.schema->fields)
            if (jm::same(want.at(f.id), start.at(f.id), false))
            {
                c.nontrivial();
                break;
            }
}

void laws(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, all_types());
    if (t.schema->k != jm::Kind::strct)
        return;
    c.label("laws");
    J start = gen_value(c, *t.schema);
    auto h = t.make();
    h->set(start);
    c.log() << t.name << " value " << start << "\n";
    rapidjson::Document d;
    {
        // the empty patch
        rapidjson::Value rv{rapidjson::kObjectType};
        std::string o = outcome([&] { h->patch(rv, 0); });
        PBT_EQ(o, std::string("ok"), "empty patch");
        SAME(h->get(), start, 0, "empty patch");
    }
    // two patches on disjoint top-level fields commute
    J other = gen_value(c, *t.schema);
    J doc = jm::ser(*t.schema, other, false);
    J p = J::object(), q = J::object();
    std::set<std::string> used;
    bool flat = false;
    for (auto& f : t.schema->fields)
        flat = flat || f.flatten || f.extra;
    for (auto& [k, e] : doc.o)
        (c.flip() ? p : q).put(k, e);
    auto apply = [&](jt::Holder& x, const J& y) {
        rapidjson::Value rv = jm::to_rj(y, d.GetAllocator());
        return outcome([&] { x.patch(rv, 1); });
    };
    auto h1 = t.make(), h2 = t.make(), h3 = t.make();
    h1->set(start), h2->set(start), h3->set(start);
    c.log() << "patches " << p << " and " << q << "\n";
    std::string a1 = apply(*h1, p), a2 = apply(*h1, q);
    std::string b1 = apply(*h2, q), b2 = apply(*h2, p);
    std::string u = apply(*h3, doc);
    if (a1 == "ok" && a2 == "ok")
    {
        PBT_CHECK(b1 == "ok" && b2 == "ok" && u == "ok", "patches accepted in one order only");
        SAME(h2->get(), h1->get(), 0, "disjoint patches do not commute");
        SAME(h3->get(), h1->get(), 0, "disjoint patches differ from their union");
        // idempotence
        J once = h3->get();
        PBT_EQ(apply(*h3, doc), std::string("ok"), "repeated patch");
        SAME(h3->get(), once, 0, "repeated patch");
        if (p.o.size() && q.o.size())
            c.nontrivial();
    }
    // its own document
    J own;
    std::string so = outcome([&] { own = h1->tree(c.flip(), 1); });
    if (so == "ok")
    {
        J before = h1->get();
        bool defaults_or_validators = false; // null replaced by a default, or an invalid own value
        std::string r = apply(*h1, own);
        if (r == "ok")
        {
            J want = before;
            jm::patch(*t.schema, want, own);
            SAME(h1->get(), want, 0, "patch with the own document");
            std::function<bool(const jm::Schema&, int)> has_def = [&](const jm::Schema& s, int depth) {
                if (depth > 5)
                    return false;
                for (auto& f : s.fields)
                    if (f.def || has_def(*f.type, depth + 1))
                        return true;
                for (auto& i : s.items)
                    if (has_def(*i, depth + 1))
                        return true;
                return s.of && has_def(*s.of, depth + 1);
            };
            (void)defaults_or_validators;
            // containers are replaced: null map entries inside are dropped by the default policy, so
            // the identity is claimed for the kept-null document
            J full;
            auto h4 = t.make();
            h4->set(before);
            std::string fo = outcome([&] { full = h4->tree(false, 1); });
            PBT_EQ(fo, std::string("ok"), "serialize");
            bool attributed = false;
            for (auto& x : jt::attr_types())
                attributed = attributed || std::string(x.name) == t.name;
            if (!attributed && !has_def(*t.schema, 0))
            {
                PBT_EQ(apply(*h4, full), std::string("ok"), "patch with the own document");
                SAME(h4->get(), before, 0, "patch with the own document is not the identity");
            }
        }
    }
}

} // namespace

void property(pbt::Choices& c)
{
    if (c.chance(1, 5))
        laws(c);
    else
        patching(c);
}

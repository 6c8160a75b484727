// C29: an error of reading or patching names the way to the rejected node.
#include "json_checks.hpp"

const char* const property_rule =
    "non-trivial: a rejected document whose rejected node is at least two steps (fields, entries, elements) below the root";

namespace {

const jt::Types& all_types()
{
    static jt::Types ts = [] {
        jt::Types t = jt::plain_types();
        for (auto& x : jt::attr_types())
            t.push_back(x);
        return t;
    }();
    return ts;
}

std::string message(const std::function<void()>& fn)
{
    try
    {
        fn();
    }
    catch (const kl::serialization::deserialize_error& ex)
    {
        return ex.what();
    }
    return {};
}

// Spoils one node somewhere deep in a valid document.
void spoil(pbt::Choices& c, J& doc)
{
    J* n = &doc;
    for (unsigned d = 0; d < 8; ++d)
    {
        if (n->k == J::arr && !n->a.empty() && c.chance(9, 10))
            n = &n->a[c.below(n->a.size())];
        else if (n->k == J::obj && !n->o.empty() && c.chance(9, 10))
            n = &n->o[c.below(n->o.size())].second;
        else
            break;
    }
    switch (c.draw(5))
    {
    case 0: *n = J::string("no such value"); break;
    case 1: *n = J::num((jm::i128(1) << 63) + static_cast<jm::i128>(c.draw(5))); break;
    case 2: *n = J{}; break;
    case 3: *n = J::dbl(0.5); break;
    default: *n = jm::gen_any(c, 1);
    }
}

// A type picked apart by hand with from_object / from_array: the extractor adds its own step.
void extracted(pbt::Choices& c)
{
    using In = std::map<std::string, std::vector<std::optional<std::int8_t>>>;
    static const jm::SP schema = jm::schema_of<In>();
    J doc = c.flip() ? J::object() : J::array();
    for (size_t n = 1 + c.below(4); n; --n)
    {
        J e = jm::ser(*schema, jm::gen(c, *schema), c.flip());
        if (c.chance(1, 3))
            spoil(c, e);
        if (doc.k == J::obj)
            doc.put(std::string(1, static_cast<char>('a' + c.below(3))), e);
        else
            doc.a.push_back(e);
    }
    if (has_nul(doc))
        return;
    rapidjson::Document d;
    rapidjson::Value rv = jm::to_rj(doc, d.GetAllocator());
    c.label("extractor");
    c.log() << "extract from " << doc << ":";
    kl::json::deserialize_context ctx;
    std::vector<std::string> trail;
    std::string msg;
    bool rejected = false;
    unsigned next = 0;
    auto model = [&](const J* node, const std::string& step) {
        try
        {
            J v = schema->dflt;
            jm::de(*schema, v, node ? *node : J{});
        }
        catch (const jm::DeError& e)
        {
            rejected = true;
            trail = e.trail;
            trail.push_back(step);
        }
    };
    auto ob = doc.k == J::obj ? std::optional{kl::json::from_object(rv, ctx)} : std::nullopt;
    auto ar = doc.k == J::arr ? std::optional{kl::json::from_array(rv, ctx)} : std::nullopt;
    for (size_t n = 1 + c.below(4); n && !rejected; --n)
    {
        In out;
        if (ob)
        {
            const std::string k(1, static_cast<char>('a' + c.below(4)));
            c.log() << " " << k;
            model(doc.find(k), "field " + k);
            msg = message([&] { ob->extract(k.c_str(), out); });
        }
        else
        {
            const bool seek = c.chance(1, 3);
            if (seek)
                next = static_cast<unsigned>(c.below(6));
            c.log() << " " << (seek ? "@" : "") << next;
            model(next < doc.a.size() ? &doc.a[next] : nullptr, "element " + std::to_string(next));
            msg = message([&] {
                if (seek)
                    ar->extract(out, next);
                else
                    ar->extract(out);
            });
            ++next;
        }
        PBT_EQ(!msg.empty(), rejected, "error raised for extraction from " + show(doc));
    }
    c.log() << "\n";
    if (!rejected)
        return;
    if (trail.size() >= 2)
        c.nontrivial();
    check_trail(msg, trail, "extracting from " + show(doc));
}

} // namespace

void property(pbt::Choices& c)
{
    if (c.chance(1, 12))
        return extracted(c);
    auto& t = jt::pick_type(c, all_types());
    c.label(t.name);
    J doc;
    if (c.chance(1, 4))
        doc = gen_document(c, *t.schema);
    else
    {
        J v = jm::gen(c, *t.schema, jm::with_scale());
        jm::drop_clashes(*t.schema, v);
        doc = jm::ser(*t.schema, v, c.flip());
        spoil(c, doc);
    }
    const bool patch = c.chance(2, 5);
    J start = t.schema->k == jm::Kind::optional ? J{} : t.schema->dflt;
    if (patch)
    {
        start = jm::gen(c, *t.schema);
        jm::drop_clashes(*t.schema, start);
    }
    if (has_nul(doc))
        return; // what() is a C string
    auto h = t.make();
    if (patch)
        h->set(start);
    c.log() << (patch ? "patch " : "read ") << t.name << " document " << doc << "\n";
    std::vector<std::string> trail;
    bool rejected = false;
    try
    {
        J want = start;
        if (patch)
            jm::patch(*t.schema, want, doc);
        else
            jm::de(*t.schema, want, doc);
    }
    catch (const jm::DeError& e)
    {
        rejected = true;
        trail = e.trail;
    }
    rapidjson::Document d;
    rapidjson::Value rv = jm::to_rj(doc, d.GetAllocator());
    int how = static_cast<int>(c.draw(patch ? 2 : 3));
    std::string msg = message([&] {
        if (patch)
            h->patch(rv, how);
        else
            h->read(rv, how);
    });
    PBT_EQ(!msg.empty(), rejected, std::string(t.name) + ": error raised for " + show(doc));
    if (!rejected)
        return;
    c.label(patch ? "rejected patch" : "rejected document");
    c.label(trail.size() > 3 ? "depth 4+" : trail.size() > 1 ? "depth 2-3" : "depth 0-1");
    if (trail.size() >= 2)
        c.nontrivial();
    check_trail(msg, trail, std::string(patch ? "patching " : "reading ") + t.name + " from " + show(doc));
}

// C06: every verb has exactly the effect and status of the equivalent edit on the document.
#include "resource_common.hpp"

using namespace res;

const char* const property_rule =
    "non-trivial: at least one mutating request succeeded and changed the value, or was refused with 405/409";

void property(pbt::Choices& c)
{
    hook = {};
    J model = gen_root(c);
    Segs broken;
    if (c.chance(1, 8))
    {
        broken = break_root(c, model);
        c.label("invalid at the start");
    }
    Root v;
    jm::from_j(v, model);
    auto r = kl::resources::make_resource(std::move(v));
    PBT_CHECK(jm::same(jm::to_j(r.value), model, false), "harness: model/value mismatch at start");
    c.log() << "start " << jm::ser(root_schema(), model, true) << "\n";

    size_t n = 1 + c.below(6);
    for (size_t i = 0; i < n; ++i)
    {
        Request q = gen_request(c, model);
        if (!broken.empty() && c.chance(1, 4))
        {
            q.verb = Verb::del;
            q.path = broken;
            q.text = encode(broken, &c);
        }
        J before = model;
        int want = model_exec(model, q);
        Outcome got = execute(r, q);
        c.log() << describe(q) << " -> " << got.status << " (model " << want << ")\n";
        std::ostringstream d;
        d << describe(q);
        PBT_CHECK(got.exc.empty(), "exception escaped from " + d.str() + ": " + got.exc);
        if (got.status != want)
            PBT_FAIL(d.str() + ": status " + std::to_string(got.status) + ", expected " + std::to_string(want));
        J now = jm::to_j(r.value);
        if (!jm::same(now, model, false))
        {
            std::ostringstream m;
            m << d.str() << ": value is " << jm::ser(root_schema(), now, false) << ", expected "
              << jm::ser(root_schema(), model, false) << ", was " << jm::ser(root_schema(), before, false);
            PBT_FAIL(m.str());
        }
        if (q.verb != Verb::get)
        {
            bool changed = !jm::same(before, model, false);
            if (changed || want == 405 || want == 409)
                c.nontrivial();
            switch (want)
            {
            case 200: c.label(q.verb == Verb::put ? "put ok" : "patch ok"); break;
            case 201: c.label("post created"); break;
            case 204: c.label("delete ok"); break;
            case 400: c.label("400"); break;
            case 404: c.label("404"); break;
            case 405: c.label("405"); break;
            case 409: c.label("409"); break;
            }
        }
        // GET of a few paths
        auto uni = universe(model);
        for (size_t k = c.below(3); k; --k)
        {
            Request g;
            g.verb = Verb::get;
            g.path = uni[c.below(uni.size())];
            if (c.chance(1, 8))
                g.path.push_back(c.pick(std::vector<std::string>{"nope", "0", "a"}));
            g.text = encode(g.path, &c);
            auto node = walk(model, g.path, g.path.size());
            Outcome o = execute(r, g);
            PBT_EQ(o.status, node ? 200 : 404, "GET " + pbt::quote(g.text));
            if (node)
            {
                J doc = jm::ser(*node->s, *node->v, true);
                J out = jm::parse_text(o.body);
                if (!jm::same(out, doc, true))
                {
                    std::ostringstream m;
                    m << "GET " << pbt::quote(g.text) << " returned " << out << ", expected " << doc;
                    PBT_FAIL(m.str());
                }
            }
        }
    }
    // whole document
    J doc = jm::parse_text(execute(r, {Verb::get, {}, "", {}}).body);
    PBT_CHECK(jm::same(doc, jm::ser(root_schema(), model, true), true), "GET / differs from the document");

    // dump_at_path / serialize_at_path / deserialize_at_path agree with the walk
    auto uni = universe(model);
    Segs p = uni[c.below(uni.size())];
    if (c.chance(1, 8))
        p.push_back("nope");
    auto node = walk(model, p, p.size());
    kl::path kp{encode(p)};
    try
    {
        kl::json::owning_serialize_context sctx;
        auto val = real_serialize_at(r, kp, sctx);
        PBT_CHECK(node.has_value(), "serialize_at_path found a node that does not exist: " + encode(p));
        PBT_CHECK(jm::same(jm::from_rj(val), jm::ser(*node->s, *node->v, true), true),
                  "serialize_at_path returned another value: " + encode(p));
    }
    catch (const kl::resources::resource_error&)
    {
        PBT_CHECK(!node.has_value(), "serialize_at_path did not find " + encode(p));
    }

    J body = node && c.chance(3, 4) ? gen_body(c, *node->s, node->v, false) : jm::gen_any(c);
    c.log() << "deserialize_at_path " << encode(p) << " " << body << "\n";
    rapidjson::Document d;
    rapidjson::Value rv = jm::to_rj(body, d.GetAllocator());
    const auto gen = r.state.modifications.current();
    try
    {
        real_deserialize_at(r, kp, rv);
        PBT_CHECK(node.has_value(), "deserialize_at_path found a node that does not exist: " + encode(p));
        try
        {
            jm::de(*node->s, *node->v, body);
        }
        catch (const jm::DeError&)
        {
            PBT_FAIL("deserialize_at_path accepted a mismatching document at " + encode(p));
        }
        PBT_CHECK(jm::same(jm::to_j(r.value), model, false), "deserialize_at_path stored something else at " + encode(p));
        PBT_CHECK(r.state.modifications.current() == gen, "deserialize_at_path changed the generation");
    }
    catch (const kl::serialization::deserialize_error&)
    {
        PBT_CHECK(node.has_value(), "deserialize_at_path did not find " + encode(p));
        bool refused = false;
        try
        {
            jm::de(*node->s, *node->v, body);
        }
        catch (const jm::DeError&)
        {
            refused = true;
        }
        PBT_CHECK(refused, "deserialize_at_path refused a matching document at " + encode(p));
    }
    catch (const kl::resources::resource_error&)
    {
        PBT_CHECK(!node.has_value(), "deserialize_at_path did not find " + encode(p));
    }
}

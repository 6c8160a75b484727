// C08: protected nodes and keys never change through their paths; keys stay unique.
#include "resource_common.hpp"

using namespace res;

const char* const property_rule =
    "non-trivial: a request addressed a protected node, or a keyed element / collection with at least one element";

namespace {

struct Coll
{
    Segs path;
    std::string key;
    std::vector<J> keys;
};

void keyed(const Schema& s, const J& v, const Field* f, Segs& cur, std::vector<Coll>& out)
{
    if (f && !f->child_key.empty())
    {
        Coll k;
        k.path = cur;
        k.key = f->child_key;
        for (auto& e : v.a)
            k.keys.push_back(e.at(f->child_key));
        out.push_back(k);
    }
    if (s.k == Kind::strct)
        for (auto& fl : s.fields)
        {
            cur.push_back(fl.name);
            keyed(*fl.type, v.at(fl.id), &fl, cur, out);
            cur.pop_back();
        }
}
std::vector<Coll> keyed(const J& v)
{
    std::vector<Coll> out;
    Segs cur;
    keyed(root_schema(), v, nullptr, cur, out);
    return out;
}

} // namespace

void property(pbt::Choices& c)
{
    hook = {};
    J model = gen_root(c);
    Root v;
    jm::from_j(v, model);
    auto r = kl::resources::make_resource(std::move(v));
    c.log() << "start " << jm::ser(root_schema(), model, true) << "\n";

    size_t n = 1 + c.below(6);
    for (size_t i = 0; i < n; ++i)
    {
        J before = jm::to_j(r.value);
        Prefer pref;
        pref.protect = true;
        Request q = gen_request(c, before, pref);

        // What the declaration says about the addressed node.
        bool refuse = false;
        auto node = walk(before, q.path, q.path.size());
        bool element = false;
        if (node && q.verb != Verb::get)
        {
            if (q.verb == Verb::del && !q.path.empty())
            {
                auto par = walk(before, q.path, q.path.size() - 1);
                element = par->s->k == Kind::map || par->s->k == Kind::seq || par->s->k == Kind::fixed;
                refuse = element ? par->child_ro() : node->node_ro();
            }
            else if (q.verb == Verb::post)
                refuse = node->child_ro();
            else
                refuse = node->node_ro();
        }
        bool identity = false; // writes to a keyed element that would change its key
        if (node && !node->key_id.empty() && (q.verb == Verb::put || q.verb == Verb::patch))
        {
            c.nontrivial();
            J cand = *node->v;
            try
            {
                q.verb == Verb::put ? jm::de(*node->s, cand, q.body) : jm::patch(*node->s, cand, q.body);
                identity = !jm::same(cand.at(node->key_id), node->v->at(node->key_id), true);
            }
            catch (const jm::DeError&)
            {
            }
        }
        auto k0 = keyed(before);
        Outcome got = execute(r, q);
        J after = jm::to_j(r.value);
        c.log() << describe(q) << " -> " << got.status << " " << got.exc << "\n";

        if (refuse)
        {
            c.nontrivial();
            c.label("protected node addressed");
            PBT_EQ(got.status, 405, describe(q) + ": write to a protected node");
            PBT_CHECK(jm::same(before, after, true), describe(q) + ": refused write changed the value");
        }
        if (identity)
        {
            c.label("identity change attempted");
            PBT_EQ(got.status, 405, describe(q) + ": identity-changing write");
            PBT_CHECK(jm::same(before, after, true), describe(q) + ": refused identity change changed the value");
        }
        // Whatever the status, the protected node itself is unchanged.
        if (node && refuse)
        {
            J b2 = before;
            auto x = walk(b2, q.path, q.path.size());
            auto y = walk(after, q.path, q.path.size());
            PBT_CHECK(y && jm::same(*x->v, *y->v, false), describe(q) + ": protected value changed");
        }
        auto k1 = keyed(after);
        PBT_EQ(k1.size(), k0.size(), "keyed collections");
        for (size_t k = 0; k < k1.size(); ++k)
        {
            auto& a = k0[k];
            auto& b = k1[k];
            for (size_t x = 0; x < b.keys.size(); ++x)
                for (size_t y = x + 1; y < b.keys.size(); ++y)
                    PBT_CHECK(!jm::same(b.keys[x], b.keys[y], true), describe(q) + ": duplicate keys in " + encode(b.path));
            bool below = q.path.size() > a.path.size() && std::equal(a.path.begin(), a.path.end(), q.path.begin());
            if (below)
            {
                c.label("below a keyed collection");
                bool whole = q.path.size() == a.path.size() + 1;
                std::vector<J> want = a.keys;
                if (whole && q.verb == Verb::del && got.status == 204)
                {
                    for (size_t x = 0; x < want.size(); ++x)
                    {
                        J e = J::object();
                        e.put(a.key, want[x]);
                        if (key_is(e, a.key, q.path.back()))
                        {
                            want.erase(want.begin() + static_cast<long>(x));
                            break;
                        }
                    }
                    PBT_CHECK(want.size() + 1 == a.keys.size(), describe(q) + ": deleted an element that is not addressed by key");
                }
                bool eq = want.size() == b.keys.size();
                for (size_t x = 0; eq && x < want.size(); ++x)
                    eq = jm::same(want[x], b.keys[x], true);
                PBT_CHECK(eq, describe(q) + " (" + std::to_string(got.status) + ") changed the keys of " + encode(a.path));
            }
            else if (q.path == a.path && q.verb == Verb::post)
            {
                if (!a.keys.empty())
                    c.nontrivial();
                if (node && !refuse)
                {
                    J cand = node->s->of->dflt;
                    bool dup = false, bad = false;
                    try
                    {
                        jm::de(*node->s->of, cand, q.body);
                        for (auto& x : a.keys)
                            dup |= jm::same(x, cand.at(a.key), true);
                    }
                    catch (const jm::DeError&)
                    {
                        bad = true;
                    }
                    if (!bad && dup)
                    {
                        c.label("duplicate key posted");
                        PBT_EQ(got.status, 409, describe(q) + ": duplicate key");
                    }
                }
            }
        }
        // keyed children are not addressable by position
        for (auto& k : k1)
            for (size_t x = 0; x < std::min<size_t>(k.keys.size(), 2); ++x)
            {
                Segs p = k.path;
                p.push_back(std::to_string(x));
                J a2 = after;
                bool exists = walk(a2, p, p.size()).has_value();
                Outcome o = execute(r, {Verb::get, p, encode(p), {}});
                PBT_EQ(o.status, exists ? 200 : 404, "GET " + encode(p) + " (keyed collection)");
            }
    }
}

// C07: every observable change is reported by the tracker, nothing unrelated is.
#include "resource_common.hpp"

using namespace res;

const char* const property_rule = "non-trivial: a request succeeded and changed the value readable at some path";

namespace {

bool related(const Segs& a, const Segs& b)
{
    size_t n = std::min(a.size(), b.size());
    return std::equal(a.begin(), a.begin() + static_cast<long>(n), b.begin());
}

// Value readable at a path through the library, or a marker.
std::string read(kl::resources::resource<Root>& r, const Segs& p)
{
    Outcome o = execute(r, {Verb::get, p, encode(p), {}});
    return std::to_string(o.status) + o.body;
}

} // namespace

void property(pbt::Choices& c)
{
    hook = {};
    J model = gen_root(c);
    Root v;
    jm::from_j(v, model);
    auto r = kl::resources::make_resource(std::move(v));
    c.log() << "start " << jm::ser(root_schema(), model, true) << "\n";

    size_t n = 1 + c.below(5);
    for (size_t i = 0; i < n; ++i)
    {
        J before = jm::to_j(r.value);
        Request q = gen_request(c, before);
        auto gen0 = r.state.modifications.current();

        // alternative spellings of indices in paths near the request
        std::vector<Segs> alias;
        for (size_t k = 0; k < q.path.size(); ++k)
            if (index_of(q.path[k]) || (q.path[k].size() > 1 && q.path[k][0] == '0'))
                for (auto s : {"0" + q.path[k], "00" + q.path[k], "+" + q.path[k], q.path[k].substr(q.path[k][0] == '0' && q.path[k].size() > 1)})
                {
                    Segs p = q.path;
                    p[k] = s;
                    alias.push_back(p);
                }
        std::vector<std::string> alias_before;
        for (auto& p : alias)
            alias_before.push_back(read(r, p));

        Segs target = q.path;
        if (q.verb == Verb::del && !q.path.empty())
        {
            auto par = walk(before, q.path, q.path.size() - 1);
            if (par && (par->s->k == Kind::map || par->s->k == Kind::seq || par->s->k == Kind::fixed))
                target.pop_back();
        }

        Outcome got = execute(r, q);
        c.log() << describe(q) << " -> " << got.status << " " << got.exc << "\n";
        bool ok = got.status >= 200 && got.status < 300 && q.verb != Verb::get;
        J after = jm::to_j(r.value);
        auto& t = r.state.modifications;

        if (ok)
            PBT_CHECK(t.current() > gen0, describe(q) + " succeeded without a new generation");

        auto uni = universe(before);
        {
            auto u2 = universe(after);
            uni.insert(uni.end(), u2.begin(), u2.end());
            std::sort(uni.begin(), uni.end());
            uni.erase(std::unique(uni.begin(), uni.end()), uni.end());
        }
        for (auto& p : uni)
        {
            auto x = walk(before, p, p.size());
            auto y = walk(after, p, p.size());
            bool differs = x.has_value() != y.has_value() || (x && !jm::same(*x->v, *y->v, false));
            kl::path kp{encode(p)};
            bool reported = t.changed_since(kp, gen0);
            if (differs)
            {
                c.nontrivial();
                PBT_CHECK(reported, describe(q) + " (" + std::to_string(got.status) + ") changed the value at " +
                                        encode(p) + " but it is not reported as changed");
                Segs anc = p;
                while (!anc.empty())
                {
                    anc.pop_back();
                    PBT_CHECK(t.changed_since(kl::path{encode(anc)}, gen0),
                              describe(q) + " changed " + encode(p) + " but its ancestor " + encode(anc) +
                                  " is not reported as changed");
                }
            }
            if (reported)
            {
                PBT_CHECK(ok, describe(q) + " did not succeed but " + encode(p) + " is reported as changed");
                PBT_CHECK(related(p, target), describe(q) + ": unrelated path " + encode(p) + " is reported as changed");
            }
        }
        for (size_t k = 0; k < alias.size(); ++k)
            if (read(r, alias[k]) != alias_before[k])
                PBT_CHECK(t.changed_since(kl::path{encode(alias[k])}, gen0),
                          describe(q) + " changed the value at " + encode(alias[k]) + " but it is not reported as changed");
        // cross-check: the library's own GET differs only where our reading of the members differs
        for (size_t k = c.below(3); k && !uni.empty(); --k)
        {
            auto& p = uni[c.below(uni.size())];
            auto y = walk(after, p, p.size());
            std::string now = read(r, p);
            PBT_CHECK((now.substr(0, 3) == "200") == y.has_value(), "GET " + encode(p) + " status disagrees with the value");
        }
        if (ok)
        {
            c.label(q.verb == Verb::put ? "put" : q.verb == Verb::patch ? "patch" : q.verb == Verb::post ? "post" : "delete");
            if (q.verb == Verb::del)
                c.label_if(target.size() == q.path.size(), "optional reset");
        }
    }
}

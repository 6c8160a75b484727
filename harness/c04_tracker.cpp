#include "pbt.hpp"
#include <kl/resource.hpp>

const char* const property_rule =
    "histories of up to ~60 notifications over a collision-rich segment alphabet, every used path and random paths "
    "queried along the way; non-trivial = at least 3 notifications, one of them a subtree notification, and a queried path "
    "that differs from all notified paths";

using Segs = std::vector<std::string>;
struct Note
{
    Segs path;
    bool subtree;
    uint64_t gen;
};

static Segs gen_path(pbt::Choices& c)
{
    static const std::vector<std::string> alphabet = {"a", "b", "ab", "aa", "c", "a.b", "a b", "0", "1", "10", "aab"};
    Segs s;
    if (c.chance(1, 12))
        return s;
    unsigned avg = c.chance(1, 15) ? 20 : 2;
    do
        s.push_back(alphabet[c.below(c.chance(3, 4) ? 3 : alphabet.size())]);
    while (c.more(avg));
    return s;
}

static std::string text(const Segs& s)
{
    std::string r;
    for (auto& x : s)
        r += "/" + x;
    return r.empty() ? "/" : r;
}

static bool prefix_of(const Segs& a, const Segs& b)
{
    return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
}

static uint64_t model(const std::vector<Note>& h, const Segs& p)
{
    uint64_t r = 0;
    for (auto& n : h)
        if (prefix_of(p, n.path) || (n.subtree && prefix_of(n.path, p)))
            r = std::max(r, n.gen);
    return r;
}

using MT = kl::resources::modification_tracker;

static void query(pbt::Choices& c, const MT& t, const std::vector<Note>& h, const Segs& s, const std::vector<uint64_t>& gens)
{
    kl::path p{text(s)};
    auto want = model(h, s);
    auto got = static_cast<uint64_t>(t.changed_at(p));
    PBT_EQ(got, want, "changed_at " << text(s));
    PBT_EQ(static_cast<uint64_t>(t.changed_at(p.view())), want, "changed_at(view) " << text(s));
    // view obtained by dropping the last segment of a longer path
    Segs longer = s;
    longer.push_back("tail");
    kl::path lp{text(longer)};
    PBT_EQ(static_cast<uint64_t>(t.changed_at(lp.view().drop_back())), want, "changed_at(dropped view) " << text(s));
    for (auto g : {want, want + 1, want ? want - 1 : 0, gens[c.below(gens.size())]})
    {
        PBT_EQ(t.changed_since(p, static_cast<MT::generation>(g)), want > g, "changed_since " << text(s) << " " << g);
        PBT_EQ(t.changed_since(p.view(), static_cast<MT::generation>(g)), want > g, "changed_since(view) " << text(s) << " " << g);
    }
}

void property(pbt::Choices& c)
{
    MT t;
    std::vector<Note> h;
    std::vector<Segs> used;
    std::vector<uint64_t> gens{static_cast<uint64_t>(t.current())};
    bool any_sub = false, foreign = false;
    unsigned avg = c.chance(1, 6) ? 30 : 6;
    while (c.more(avg))
    {
        if (c.chance(1, 20))
        {
            MT copy = t;
            t = copy;
        }
        Segs s = !used.empty() && c.chance(1, 3) ? used[c.below(used.size())] : gen_path(c);
        bool sub = c.chance(1, 3);
        kl::path p{text(s)};
        c.log() << "notify " << text(s) << (sub ? " subtree; " : "; ");
        auto before = static_cast<uint64_t>(t.current());
        uint64_t g;
        switch (c.draw(3))
        {
        case 0: g = static_cast<uint64_t>(sub ? t.notify_changed(p, true) : t.notify_changed(p)); break;
        case 1: g = static_cast<uint64_t>(sub ? t.notify_changed(p.view(), true) : t.notify_changed(p.view())); break;
        default: {
            Segs longer = s;
            longer.push_back("x");
            kl::path lp{text(longer)};
            g = static_cast<uint64_t>(t.notify_changed(lp.view().drop_back(), sub));
        }
        }
        PBT_EQ(g, before + 1, "generation returned");
        PBT_EQ(static_cast<uint64_t>(t.current()), before + 1, "current generation");
        any_sub |= sub;
        h.push_back({s, sub, g});
        used.push_back(s);
        gens.push_back(g);
        for (int k = 0; k < 2; ++k)
        {
            Segs q = gen_path(c);
            if (!used.empty() && c.flip())
            {
                q = used[c.below(used.size())];
                if (c.flip() && !q.empty())
                    q.pop_back();
                else
                    q.push_back(c.flip() ? "a" : "b");
            }
            if (std::find(used.begin(), used.end(), q) == used.end())
                foreign = true;
            query(c, t, h, q, gens);
        }
    }
    for (auto& s : used)
        query(c, t, h, s, gens);
    query(c, t, h, {}, gens);
    c.label_if(any_sub, "subtree");
    c.label_if(h.size() > 20, "long-history");
    if (h.size() >= 3 && any_sub && foreign)
        c.nontrivial();
}

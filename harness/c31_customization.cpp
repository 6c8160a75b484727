#include "customization.hpp"

const char* const property_rule =
    "non-trivial: at least two recorded conversions, or an error or a foreign exception raised inside a nested conversion";

namespace cu {

template <typename T>
void check_write(pbt::Choices& c, const T& v)
{
    Way w;
    w.json = c.flip();
    w.stream = c.flip();
    w.mask = static_cast<unsigned>(c.below(1u << slots));
    const bool bare = c.flip();
    const bool builders = bare && !w.stream && c.chance(1, 3);
    const std::string what = std::string("writing through ") + w.tag() + (bare ? " with a context of the caller" : " with a context naming its backend") +
                             (builders ? ", builders" : "");
    Log want;
    J doc = mser(v, w, want);
    if (builders)
    {
        J o = J::object();
        o.put("v", doc);
        o.put("w", J::array());
        o.at("w").a.push_back(doc);
        doc = o;
        Log twice = want;
        want.insert(want.end(), twice.begin(), twice.end());
    }
    CtxBase r;
    if (!want.empty() && c.chance(1, 5))
        r.t.countdown = 1 + static_cast<int>(c.below(want.size()));
    const int armed = r.t.countdown;
    c.log() << what << " mask " << w.mask << (armed ? " armed " + std::to_string(armed) : std::string()) << "\n";
    try
    {
        J got = w.json ? Json<T>::write(v, r, w, bare, builders) : Yaml<T>::write(v, r, w, bare, builders);
        PBT_CHECK(!armed, what + ": an exception thrown by a conversion was swallowed");
        same_doc(got, w.json ? doc : untyped(doc), what);
        same_events(r.t.events, want, what);
        if (want.size() > 1)
            c.nontrivial();
    }
    catch (const Boom& b)
    {
        PBT_CHECK(armed && b.at == armed, what + ": not the exception that was thrown");
        PBT_CHECK(r.t.events.size() == static_cast<size_t>(armed), what + ": conversions went on after one had thrown");
        c.nontrivial();
        c.label("foreign exception while writing");
        return;
    }
    // the library's own contexts
    Way dw;
    Log ignored;
    dw.json = w.json;
    dw.stream = w.stream;
    J plain = w.json ? Json<T>::plain(v, w.stream) : Yaml<T>::plain(v, w.stream);
    J expect = mser(v, dw, ignored);
    same_doc(plain, w.json ? expect : untyped(expect), "writing through " + w.tag() + " without a context");
    c.label(w.json ? (w.stream ? "json text" : "json tree") : (w.stream ? "yaml text" : "yaml tree"));
}

// ------------------------------------------------------------------------------- reading
template <typename T>
void check_read(pbt::Choices& c, const T& start, const T& other)
{
    Way w;
    w.json = c.flip();
    const bool patching = c.flip(), bare = c.flip();
    const int extract = bare && !patching ? static_cast<int>(c.below(4)) : 0;
    // the document of another value, changed here and there
    Way wd = w;
    wd.mask = static_cast<unsigned>(c.below(1u << slots));
    Log ignored;
    J doc = mser(other, wd, ignored);
    if (patching && doc.k == J::obj)
        for (size_t i = doc.o.size(); i-- > 0;)
            if (c.chance(1, 2))
                doc.o.erase(doc.o.begin() + static_cast<long>(i));
    if (c.chance(1, 3))
        for (size_t n = 1 + c.below(2); n; --n)
        {
            std::vector<J*> nodes;
            jm::collect(doc, nodes);
            J& x = *nodes[c.below(nodes.size())];
            switch (c.below(5))
            {
            case 0:
                x = J{};
                break;
            case 1:
                if (x.k == J::str && !x.s.empty())
                    x.s = x.s.substr(0, 1) + "77";
                break;
            case 2:
                if (x.k == J::str)
                    x.s = "bad";
                break;
            case 3:
                if (x.k == J::obj && !x.o.empty())
                    x.o.erase(x.o.begin() + static_cast<long>(c.below(x.o.size())));
                break;
            default:
                if (x.k == J::arr && !x.a.empty())
                    x.a.pop_back();
            }
        }
    const std::string what = std::string(patching ? "patching" : "reading") + " through " + w.tag() +
                             (bare ? " with a context of the caller" : " with a context naming its backend") +
                             (extract ? ", way " + std::to_string(extract) : std::string());
    T want_v = start;
    Log want;
    bool fails = false;
    try
    {
        if (patching)
            mpatch(want_v, doc, w, want);
        else
        {
            if (extract == 3)
                want_v = T{};
            mde(want_v, doc, w, want);
        }
    }
    catch (const DeErr&)
    {
        fails = true;
    }
    CtxBase r;
    if (!want.empty() && !fails && c.chance(1, 5))
        r.t.countdown = 1 + static_cast<int>(c.below(want.size()));
    const int armed = r.t.countdown;
    c.log() << what << " " << jm::text(doc) << (armed ? " armed " + std::to_string(armed) : std::string()) << "\n";
    J given = doc;
    if (extract == 1)
    {
        given = J::object();
        given.put("u", J::string("other"));
        given.put("v", doc);
    }
    else if (extract == 2)
    {
        given = J::array();
        given.a = {J::string("other"), doc};
    }
    T v = start;
    try
    {
        w.json ? Json<T>::read(v, given, r, patching, bare, extract) : Yaml<T>::read(v, given, r, patching, bare, extract);
        PBT_CHECK(!armed, what + ": an exception thrown by a conversion was swallowed");
        PBT_CHECK(!fails, what + ": a nested conversion failed, but the whole was accepted");
        const std::string got_text = dumped(v), want_text = dumped(want_v);
        PBT_CHECK(got_text == want_text, what + ": read " + got_text + ", expected " + want_text);
        same_events(r.t.events, want, what);
        if (want.size() > 1)
            c.nontrivial();
        c.label(patching ? "patched" : "read");
    }
    catch (const ks::deserialize_error& e)
    {
        PBT_CHECK(fails, what + ": rejected: " + e.what());
        c.nontrivial();
        c.label("nested error");
    }
    catch (const Boom& b)
    {
        PBT_CHECK(armed && b.at == armed, what + ": not the exception that was thrown");
        PBT_CHECK(r.t.events.size() == static_cast<size_t>(armed), what + ": conversions went on after one had thrown");
        c.nontrivial();
        c.label("foreign exception while reading");
    }
}

template <typename T>
void run(pbt::Choices& c)
{
    T v{}, other{};
    gen(c, v);
    c.log() << "value " << dumped(v) << "\n";
    if (c.flip())
        check_write(c, v);
    else
    {
        gen(c, other);
        check_read(c, v, other);
    }
}

} // namespace cu

void property(pbt::Choices& c)
{
    using namespace cu;
    switch (c.weighted({8, 1, 1, 1, 1, 1, 1, 1}))
    {
    case 0:
        return run<Root>(c);
    case 1:
        return run<In>(c);
    case 2:
        return run<std::vector<In>>(c);
    case 3:
        return run<MapOA>(c);
    case 4:
        return run<Tup>(c);
    case 5:
        return run<P>(c);
    case 6:
        return run<Fl>(c);
    default:
        return run<std::optional<Q>>(c);
    }
}

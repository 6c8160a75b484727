// Helpers shared by C15-C18.
#pragma once
#include "json_model.hpp"

#include "kl/serialization_error.hpp"

using jm::J;

inline std::string show(const J& j)
{
    std::ostringstream o;
    o << j;
    return o.str();
}

#define SAME(got, want, tol, what)                                                                 \
    do                                                                                             \
    {                                                                                              \
        if (!jm::same(got, want, false, tol))                                                      \
            PBT_FAIL(std::string(what) + ": got " + show(got) + ", expected " + show(want));       \
    } while (0)

// The value with the null entries of its maps removed: what remains after the default policy, under
// which null map entries are not written.
inline J strip_null_entries(const jm::Schema& s, const J& v)
{
    J r = v;
    switch (s.k)
    {
    case jm::Kind::optional:
        if (v.k != J::null)
            r = strip_null_entries(*s.of, v);
        break;
    case jm::Kind::seq:
    case jm::Kind::fixed:
        for (auto& e : r.a)
            e = strip_null_entries(*s.of, e);
        break;
    case jm::Kind::tuple:
        for (size_t i = 0; i < s.items.size(); ++i)
            r.a[i] = strip_null_entries(*s.items[i], v.a[i]);
        break;
    case jm::Kind::map: {
        jm::Obj keep;
        for (auto& [k, e] : v.o)
            if (!jm::is_null(*s.of, e))
                keep.emplace_back(k, strip_null_entries(*s.of, e));
        r.o = std::move(keep);
        break;
    }
    case jm::Kind::strct:
        for (auto& f : s.fields)
            r.at(f.id) = strip_null_entries(*f.type, v.at(f.id));
        break;
    default:
        break;
    }
    return r;
}

// Runs fn; the outcome is "ok", "deserialize_error", "logic_error" or the kind of another exception.
template <typename Fn>
std::string outcome(Fn&& fn)
{
    try
    {
        fn();
        return "ok";
    }
    catch (const kl::serialization::deserialize_error& ex)
    {
        if (!*ex.what())
            return "deserialize_error without a message";
        return "deserialize_error";
    }
    catch (const pbt::Failure&)
    {
        throw;
    }
    catch (const kl::serialization::parse_error& ex)
    {
        return "parse_error";
    }
    catch (const std::logic_error& ex)
    {
        return "logic_error";
    }
    catch (const std::exception& ex)
    {
        return std::string("exception ") + ex.what();
    }
    catch (...)
    {
        return "unknown exception";
    }
}

// A document for type t: mostly a valid one with a few edits.
inline J gen_document(pbt::Choices& c, const jm::Schema& s, unsigned* edits = nullptr)
{
    unsigned n = 0;
    J doc;
    switch (c.draw(8))
    {
    case 0:
        doc = jm::gen_any(c);
        n = 99;
        break;
    default: {
        J v = jm::gen(c, s, jm::with_scale());
        jm::drop_clashes(s, v);
        doc = jm::ser(s, v, c.flip());
        n = c.chance(1, 4) ? 0 : static_cast<unsigned>(1 + c.below(3));
        if (n)
        {
            std::vector<std::string> names;
            jm::all_names(s, names);
            for (unsigned i = 0; i < n; ++i)
                jm::mutate(c, doc, names);
        }
    }
    }
    if (edits)
        *edits = n;
    return doc;
}

inline size_t count_of(const std::string& s, const std::string& what)
{
    size_t n = 0;
    for (size_t at = 0; (at = s.find(what, at)) != std::string::npos; at += what.size())
        ++n;
    return n;
}

// The steps appear in the message from the innermost outwards, each closing its line; there are no other steps.
inline void check_trail(const std::string& msg, const std::vector<std::string>& trail, const std::string& ctx)
{
    std::string all;
    for (auto& t : trail)
        all += t + " | ";
    size_t at = 0;
    for (auto& t : trail)
    {
        for (;;)
        {
            at = msg.find(" " + t, at);
            PBT_CHECK(at != std::string::npos, ctx << ": the message does not name \"" << t << "\" (steps, innermost first: " << all << "):\n" << msg);
            at += 1 + t.size();
            if (at == msg.size() || msg[at] == '\n')
                break;
        }
    }
    size_t steps = 0;
    for (const char* verb : {"\nerror when deserializing ", "\nerror when patching "})
        for (const char* kind : {"field ", "extra field ", "element "})
            steps += count_of(msg, std::string(verb) + kind);
    PBT_EQ(steps, trail.size(), ctx + ": the message names a different number of steps than " + all + ":\n" + msg);
    PBT_CHECK(!msg.empty() && msg.compare(0, 11, "error when ") != 0 && msg[0] != '\n', ctx << ": the message does not begin with the cause:\n" << msg);
}

inline bool has_nul(const J& d)
{
    if (d.k == J::str)
        return d.s.find('\0') != std::string::npos || d.s.find("error when") != std::string::npos;
    for (auto& e : d.a)
        if (has_nul(e))
            return true;
    for (auto& kv : d.o)
        if (kv.first.find('\0') != std::string::npos || has_nul(kv.second))
            return true;
    return false;
}

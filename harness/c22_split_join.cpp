// C22: splitting and joining are exact and mutually inverse.
#include <cstdint>
#include <array>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "pbt.hpp"
#include "kl/split.hpp"
#include "kl/stream_join.hpp"

const char* const property_rule = "the text contains at least one delimiter, or the joined sequence has at least two elements";

namespace {

using Strs = std::vector<std::string>;

Strs ref_split(const std::string& s, const std::string& delims, bool skip)
{
    Strs out;
    std::string cur;
    bool open = false; // characters (or a delimiter-terminated piece) pending
    for (char ch : s)
    {
        bool d = false;
        for (char x : delims)
            d |= x == ch;
        if (d)
        {
            if (!cur.empty() || !skip)
                out.push_back(cur);
            cur.clear();
            open = false;
        }
        else
        {
            cur += ch;
            open = true;
        }
    }
    if (open)
        out.push_back(cur);
    return out;
}

std::string show(const Strs& v)
{
    std::string r = "[";
    for (auto& s : v)
        r += (r.size() > 1 ? ", " : "") + pbt::quote(s);
    return r + "]";
}

void same(const Strs& got, const Strs& want, const char* what, const std::string& s, const std::string& d)
{
    PBT_CHECK(got == want, what << " of " << pbt::quote(s) << " by " << pbt::quote(d) << " gave " << show(got) << ", expected " << show(want));
}

std::string short_text(pbt::Choices& c, const std::string& delims)
{
    std::string alpha = "abz";
    alpha += delims.empty() ? "," : delims;
    alpha += delims.empty() ? ";" : delims;
    switch (c.draw(4))
    {
    case 0:
        return c.bytes(30);
    case 1: {
        std::string s = c.over(alpha, 120);
        return s;
    }
    case 2: { // pieces with explicit runs of delimiters
        std::string s;
        while (c.more(5))
        {
            s += c.over("xyz", 4);
            for (size_t n = c.below(4); n > 0 && !delims.empty(); --n)
                s += delims[c.below(delims.size())];
        }
        return s;
    }
    default:
        return c.over(alpha, 12);
    }
}

std::string text(pbt::Choices& c, const std::string& delims)
{
    std::string s = short_text(c, delims);
    if (!s.empty() && c.chance(1, 300))
    {
        c.label("long text");
        const size_t n = c.chance(1, 10) ? 65530 + c.below(20) : 250 + c.below(20);
        const std::string unit = s;
        while (s.size() < n)
            s += unit;
        s.resize(n);
    }
    return s;
}

std::string delimiters(pbt::Choices& c)
{
    switch (c.draw(4))
    {
    case 0:
        return c.over(", ;\t|", 4);
    case 1:
        return c.bytes(4);
    case 2:
        return std::string(1, static_cast<char>(c.draw(256)));
    default:
        return ",";
    }
}

struct Odd // prints itself with several insertions
{
    int v;
    friend std::ostream& operator<<(std::ostream& os, const Odd& o) { return os << '<' << o.v << '>'; }
};

void splitting(pbt::Choices& c)
{
    std::string d = delimiters(c);
    std::string s = text(c, d);
    bool skip = c.flip();
    bool has = s.find_first_of(d) != std::string::npos;
    if (has)
        c.nontrivial();
    c.label(skip ? "split, skip empty" : "split, keep empty");
    c.label_if(!s.empty() && d.find(s.back()) != std::string::npos, "trailing delimiter");
    c.log() << "split " << pbt::quote(s) << " by " << pbt::quote(d) << (skip ? " skip" : " keep") << "\n";
    auto want = ref_split(s, d, skip);
    same(kl::split(s, d, skip), want, "split(string,string)", s, d);
    if (skip)
        same(kl::split(s, d), want, "split(string,string) default", s, d);
    same(kl::split(std::string_view(s), std::string_view(d), skip), want, "split(view,view)", s, d);
    same(kl::split(std::vector<char>(s.begin(), s.end()), std::list<char>(d.begin(), d.end()), skip), want, "split(vector,list)", s, d);
    same(kl::split(std::deque<char>(s.begin(), s.end()), std::set<char>(d.begin(), d.end()), skip), want, "split(deque,set)", s, d);
    same(kl::split(std::list<char>(s.begin(), s.end()), d, skip), want, "split(list,string)", s, d);

    // a char array literal carries its terminating NUL as one more delimiter / character
    {
        auto want2 = ref_split(s, std::string(",;\0", 3), skip);
        same(kl::split(s, ",;", skip), want2, "split(string,literal)", s, std::string(",;\0", 3));
        auto want3 = ref_split(s, std::string(" ,", 2), skip);
        const std::array<char, 2> arr{' ', ','};
        same(kl::split(s, arr, skip), want3, "split(string,array)", s, " ,");
    }

    // for_each_token reports every piece, empty ones included, as ranges into the text
    Strs pieces;
    auto cur = s.cbegin();
    kl::for_each_token(s.cbegin(), s.cend(), d.cbegin(), d.cend(), [&](std::string::const_iterator f, std::string::const_iterator l) {
        PBT_CHECK(f == cur && f <= l && l <= s.cend(), "for_each_token piece out of place");
        pieces.emplace_back(f, l);
        cur = l == s.cend() ? l : l + 1;
    });
    same(pieces, ref_split(s, d, false), "for_each_token", s, d);
    {
        Strs f;
        std::forward_list<char> fl(s.begin(), s.end());
        kl::for_each_token(fl.begin(), fl.end(), d.begin(), d.end(), [&](auto a, auto b) { f.emplace_back(a, b); });
        same(f, ref_split(s, d, false), "for_each_token(forward_list)", s, d);
    }
    // wide code units
    {
        std::vector<int> w;
        for (unsigned char ch : s)
            w.push_back(ch * 1000);
        std::vector<int> wd;
        for (unsigned char ch : d)
            wd.push_back(ch * 1000);
        size_t n = 0;
        auto all = ref_split(s, d, false);
        kl::for_each_token(w.begin(), w.end(), wd.begin(), wd.end(), [&](auto a, auto b) {
            PBT_CHECK(n < all.size() && static_cast<size_t>(b - a) == all[n].size(), "for_each_token(vector<int>) piece " << n);
            for (size_t i = 0; i < all[n].size(); ++i)
                PBT_CHECK(a[static_cast<std::ptrdiff_t>(i)] == static_cast<unsigned char>(all[n][i]) * 1000, "for_each_token(vector<int>) element");
            ++n;
        });
        PBT_EQ(n, all.size(), "for_each_token(vector<int>) piece count");
    }
}

template <typename Seq>
void join_seq(pbt::Choices& c, const Seq& xs, const char* kind)
{
    Strs parts;
    for (auto it = std::begin(xs); it != std::end(xs); ++it)
    {
        std::ostringstream ss;
        ss << *it;
        parts.push_back(ss.str());
    }
    if (parts.size() > 1)
        c.nontrivial();
    c.label(kind);
    c.label_if(parts.empty(), "join of empty sequence");
    auto joined = [&](const std::string& d, const std::string& e) {
        std::string r;
        for (size_t i = 0; i < parts.size(); ++i)
            r += (i ? d : "") + parts[i];
        return parts.empty() ? e : r;
    };
    static const char* const delims[] = {", ", "", ",", " - ", "\n", "a", "|||"};
    std::string delim = c.pick(delims);
    std::string empty = c.over("x.<", 4);
    c.log() << "join " << kind << " " << show(parts) << " by " << pbt::quote(delim) << "\n";
    auto str = [](auto&& j) {
        std::ostringstream ss;
        ss << j;
        return ss.str();
    };
    PBT_EQ(str(kl::stream_join(xs)), joined(", ", "."), "default join");
    PBT_EQ(str(kl::stream_join(xs).set_delimiter(delim.c_str())), joined(delim, "."), "join with delimiter");
    PBT_EQ(str(kl::stream_join(xs).set_empty_string(empty.c_str())), joined(", ", empty), "join with empty string");
    PBT_EQ(str(kl::stream_join(xs).set_delimiter(delim.c_str()).set_empty_string(empty.c_str())), joined(delim, empty), "join with both");
    PBT_EQ(str(kl::stream_join(xs).set_empty_string(empty.c_str()).set_delimiter("x").set_delimiter(delim.c_str())), joined(delim, empty), "join with both, reset");
    {
        auto j = kl::stream_join(xs);
        j.set_delimiter(delim.c_str());
        std::ostringstream ss;
        ss << "[" << j << "]" << j << "\n";
        PBT_EQ(ss.str(), "[" + joined(delim, ".") + "]" + joined(delim, ".") + "\n", "streaming the same joiner twice");
    }
}

void joining(pbt::Choices& c)
{
    switch (c.draw(8))
    {
    case 0: {
        std::vector<int> v;
        while (c.more(4))
            v.push_back(c.integer<int>());
        return join_seq(c, v, "vector<int>");
    }
    case 1: {
        std::list<std::string> v;
        while (c.more(4))
            v.push_back(c.over("ab,. ", 5));
        return join_seq(c, v, "list<string>");
    }
    case 2: {
        std::array<int, 3> v{c.range(-5, 5), c.range(-5, 5), c.range(-5, 5)};
        return join_seq(c, v, "array<int,3>");
    }
    case 3: {
        int v[4] = {c.range(-5, 5), c.range(-5, 5), c.range(-5, 5), c.range(-5, 5)};
        return join_seq(c, v, "int[4]");
    }
    case 4: {
        std::deque<Odd> v;
        while (c.more(4))
            v.push_back(Odd{c.range(-9, 9)});
        return join_seq(c, v, "deque<Odd>");
    }
    case 5: {
        std::set<long> v;
        while (c.more(4))
            v.insert(c.integer<long>());
        return join_seq(c, v, "set<long>");
    }
    case 6: {
        std::vector<bool> v;
        while (c.more(4))
            v.push_back(c.flip());
        return join_seq(c, v, "vector<bool>");
    }
    default: {
        std::array<double, 0> v{};
        return join_seq(c, v, "array<double,0>");
    }
    }
}

void output_joining(pbt::Choices& c)
{
    // Elements written through output-iterator joiners, in the ways algorithms write.
    Strs parts;
    while (c.more(5))
        parts.push_back(c.over("pq,", 4));
    if (parts.size() > 1)
        c.nontrivial();
    std::string delim = c.over(",; ", 3);
    std::string want;
    for (size_t i = 0; i < parts.size(); ++i)
        want += (i ? delim : "") + parts[i];
    c.label("output joiner");
    c.log() << "outstream_joiner " << show(parts) << " by " << pbt::quote(delim) << "\n";
    {
        std::ostringstream ss;
        std::copy(parts.begin(), parts.end(), kl::make_outstream_joiner(ss, delim));
        PBT_EQ(ss.str(), want, "std::copy, string delimiter");
    }
    {
        std::ostringstream ss;
        std::copy(parts.begin(), parts.end(), kl::make_outstream_joiner(ss, delim.c_str()));
        PBT_EQ(ss.str(), want, "std::copy, const char* delimiter");
    }
    {
        std::ostringstream ss;
        std::transform(parts.begin(), parts.end(), kl::make_outstream_joiner(ss, ", "), [](const std::string& s) { return s.size(); });
        std::string w;
        for (size_t i = 0; i < parts.size(); ++i)
            w += (i ? ", " : "") + std::to_string(parts[i].size());
        PBT_EQ(ss.str(), w, "std::transform, literal delimiter");
    }
    {
        std::ostringstream ss;
        std::copy(parts.begin(), parts.end(), kl::make_outstream_joiner(ss, '|'));
        std::string w;
        for (size_t i = 0; i < parts.size(); ++i)
            w += (i ? "|" : "") + parts[i];
        PBT_EQ(ss.str(), w, "std::copy, char delimiter");
    }
    {
        // algorithms may hand the iterator on by value: the returned iterator continues the list
        std::ostringstream ss;
        size_t cut = c.below(parts.size() + 1);
        auto mid = parts.begin() + static_cast<std::ptrdiff_t>(cut);
        auto it = std::copy(parts.begin(), mid, kl::make_outstream_joiner(ss, delim));
        auto copy = it;
        std::copy(mid, parts.end(), copy);
        PBT_EQ(ss.str(), want, "continued after " << cut);
    }
    {
        std::ostringstream ss, other;
        auto it = kl::make_outstream_joiner(ss, delim);
        auto assigned = kl::make_outstream_joiner(other, std::string("?"));
        for (size_t i = 0; i < parts.size(); ++i)
        {
            switch (c.draw(4))
            {
            case 0: it = parts[i]; break;
            case 1: *it = parts[i]; break;
            case 2: *it++ = parts[i]; break;
            default:
                *it = parts[i];
                ++it;
            }
            if (c.chance(1, 4))
            {
                assigned = it;
                it = std::move(assigned);
                assigned = it;
            }
        }
        PBT_EQ(ss.str(), want, "hand-written output");
        PBT_EQ(other.str(), "", "untouched stream");
    }
}

void round_trip(pbt::Choices& c)
{
    std::string delims = c.over(",;|", 3);
    if (delims.empty())
        delims = ",";
    Strs parts;
    while (c.more(5))
    {
        std::string s = c.bytes(6);
        for (auto& ch : s)
            if (delims.find(ch) != std::string::npos)
                ch = 'x';
        if (s.empty())
            s = "y";
        parts.push_back(s);
    }
    if (parts.size() > 1)
        c.nontrivial();
    c.label("round trip");
    c.log() << "round trip " << show(parts) << " delimiters " << pbt::quote(delims) << "\n";
    std::ostringstream ss;
    ss << kl::stream_join(parts).set_delimiter(delims.c_str()).set_empty_string("");
    same(kl::split(ss.str(), delims), parts, "split(join)", ss.str(), delims);
    std::ostringstream s1;
    std::copy(parts.begin(), parts.end(), kl::make_outstream_joiner(s1, delims[0]));
    same(kl::split(s1.str(), delims, false), parts, "split(join), keeping empties", s1.str(), delims);
    same(kl::split(s1.str(), delims, true), parts, "split(join)", s1.str(), delims);
}
} // namespace

void property(pbt::Choices& c)
{
    switch (c.weighted({5, 3, 2, 2}))
    {
    case 0: return splitting(c);
    case 1: return joining(c);
    case 2: return output_joining(c);
    default: return round_trip(c);
    }
}

#include "pbt.hpp"
#include <kl/path.hpp>
#include <optional>

const char* const property_rule =
    "1..4 assignments of grammar-built texts (segments '', '.', '..', plain, escapes, up to 60 segments) or raw bytes to one "
    "path object; non-trivial = some text has >= 2 non-empty segments and contains an escape, '.' / '..' or empty segment";

// --- reference normaliser -------------------------------------------------------------------------
static int hexval(char ch)
{
    const std::string lower = "0123456789abcdef", upper = "0123456789ABCDEF";
    auto p = lower.find(ch);
    if (p != std::string::npos)
        return static_cast<int>(p);
    p = upper.find(ch);
    return p != std::string::npos ? static_cast<int>(p) : -1;
}

// nullopt = must be rejected
static std::optional<std::vector<std::string>> reference(const std::string& text)
{
    std::vector<std::string> pieces(1), out;
    for (char ch : text)
        if (ch == '/')
            pieces.emplace_back();
        else
            pieces.back() += ch;
    for (auto& p : pieces)
    {
        if (p.empty() || p == ".")
            continue;
        if (p == "..")
        {
            if (!out.empty())
                out.pop_back();
            continue;
        }
        std::string d;
        for (size_t i = 0; i < p.size(); ++i)
        {
            if (p[i] != '%')
            {
                d += p[i];
                continue;
            }
            if (p.size() - i < 3)
                return std::nullopt;
            int h = hexval(p[i + 1]), l = hexval(p[i + 2]);
            if (h < 0 || l < 0)
                return std::nullopt;
            char ch = static_cast<char>(h * 16 + l);
            if (ch == '/')
                return std::nullopt;
            d += ch;
            i += 2;
        }
        out.push_back(d);
    }
    return out;
}

static std::string join(const std::vector<std::string>& v, size_t from, size_t to)
{
    std::string s;
    for (size_t i = from; i < to; ++i)
        s += (i > from ? "/" : "") + v[i];
    return s;
}

static std::string show(const std::vector<std::string>& v)
{
    std::string s = "[";
    for (auto& x : v)
        s += pbt::quote(x) + " ";
    return s + "]";
}

#define TEXT_EQ(got, want, msg)                                                                    \
    do                                                                                             \
    {                                                                                              \
        std::string_view got_ = (got);                                                             \
        const std::string& want_ = (want);                                                         \
        if (got_ != want_)                                                                         \
            PBT_FAIL("got " << pbt::quote(got_) << ", expected " << pbt::quote(want_) << "; " << msg); \
    } while (0)

static void check_view(kl::path_view v, const std::vector<std::string>& want, size_t from, size_t to)
{
    PBT_EQ(v.size(), to - from, "view size");
    PBT_EQ(v.empty(), to == from, "view empty");
    for (size_t i = from; i < to; ++i)
        TEXT_EQ(v[i - from], want[i], "view segment " << i);
    if (to > from)
        TEXT_EQ(v.front(), want[from], "view front");
    if (from == 0)
        for (size_t n = 0; n <= to; ++n)
            TEXT_EQ(v.prefix(n), join(want, 0, n), "prefix " << n << " of " << show(want));
}

static void check_path(pbt::Choices& c, const kl::path& p, const std::vector<std::string>& want)
{
    PBT_EQ(p.size(), want.size(), "size, expected " << show(want));
    PBT_EQ(p.empty(), want.empty(), "empty");
    for (size_t i = 0; i < want.size(); ++i)
        TEXT_EQ(p[i], want[i], "segment " << i);
    for (size_t i = 0; i <= want.size() + 1; ++i)
        TEXT_EQ(p.joined(i), i < want.size() ? join(want, i, want.size()) : "",
               "joined(" << i << ") of " << show(want));
    auto v = p.view();
    size_t from = 0, to = want.size();
    check_view(v, want, from, to);
    while (from < to && c.draw(3) != 0)
    {
        if (c.flip())
        {
            v = v.drop_front();
            ++from;
        }
        else
        {
            v = v.drop_back();
            --to;
        }
        check_view(v, want, from, to);
    }
}

static std::string gen_text(pbt::Choices& c, bool& rich)
{
    if (c.chance(1, 400))
    {
        // many or long segments: beyond what a narrowed offset, length or count holds
        c.label("big");
        rich = true;
        std::string s;
        size_t n = c.flip() ? 2 + c.below(4) : 240 + c.below(40);
        size_t len = n > 10 ? 1 + c.below(4) : 200 + c.below(c.chance(1, 4) ? 70000 : 400);
        for (size_t i = 0; i < n; ++i)
        {
            s += '/';
            if (c.chance(1, 40))
                s += c.pick(std::vector<std::string>{"..", ".", "", "%41"});
            else
                s += std::string(len, static_cast<char>('a' + i % 26)) + std::to_string(i);
        }
        return s;
    }
    if (c.chance(1, 8))
        return c.chance(1, 2) ? c.bytes(40) : c.over("/.%2fFeEaA0", 30);
    std::string s;
    if (c.chance(3, 4))
        s += "/";
    unsigned avg = c.chance(1, 8) ? 25 : 5;
    bool special = false;
    size_t real = 0;
    bool first = true;
    while (c.more(avg))
    {
        if (!first)
            s += "/";
        first = false;
        switch (c.weighted({6, 2, 2, 3, 4, 2, 1, 1, 1}))
        {
        case 0:
            s += c.over("abcxyz", 4) + "q";
            ++real;
            break;
        case 1:
            special = true;
            break; // empty segment
        case 2:
            s += ".";
            special = true;
            break;
        case 3:
            s += "..";
            special = true;
            break;
        case 4: {
            // valid escape, upper/lower digits, not '/'
            unsigned b = static_cast<unsigned>(c.draw(256));
            if (b == '/')
                b = 'z';
            char buf[8];
            std::snprintf(buf, sizeof buf, c.flip() ? "%%%02x" : "%%%02X", b);
            s += c.over("ab", 2) + buf + c.over("ab.", 2);
            special = true;
            ++real;
            break;
        }
        case 5:
            s += "..." + c.over(".a", 2);
            ++real;
            break;
        case 6:
            s += c.bytes(60);
            ++real;
            break;
        case 7: // invalid or slash escapes
        {
            static const char* bad[] = {"%", "%4", "%zz", "%4g", "%g4", "%2F", "%2f", "a%", "a%2", "%%41", "%2", "%-1", "% 1", "%+1", "%0x", "%@0", "%0`", "%G0", "%:0", "%0/"};
            s += c.over("a", 1) + std::string(bad[c.draw(20)]);
            special = true;
            break;
        }
        default:
            s += std::string(c.pick(std::vector<std::string>{"%2E%2E", "%2E", "%2e.", ".%2e", "%00", "%25", "%2525"}));
            special = true;
            ++real;
        }
    }
    if (c.chance(1, 4))
        s += "/";
    if (real >= 2 && special)
        rich = true;
    return s;
}

void property(pbt::Choices& c)
{
    {
        kl::path_view none;
        PBT_CHECK(none.empty() && none.size() == 0, "a default-constructed view is not empty");
        PBT_CHECK(none.prefix(0).empty(), "prefix(0) of a default-constructed view");
    }
    kl::path p;
    std::optional<std::vector<std::string>> state = std::vector<std::string>{};
    size_t n = 1 + c.below(4);
    bool rich = false;
    for (size_t i = 0; i < n; ++i)
    {
        if (c.chance(1, 10))
        {
            p.clear();
            state = std::vector<std::string>{};
            c.log() << "clear; ";
            check_path(c, p, *state);
            continue;
        }
        std::string text = gen_text(c, rich);
        c.log() << "set " << pbt::quote(text) << "; ";
        auto want = reference(text);
        c.label(want ? "accepted" : "rejected");
        // exactly-sized heap copy
        std::vector<char> heap(text.begin(), text.end());
        std::string_view sv{heap.data(), heap.size()};
        bool rejected = false;
        if (c.flip())
        {
            try
            {
                p.set(sv);
            }
            catch (const kl::path_parse_error&)
            {
                rejected = true;
            }
        }
        else
        {
            try
            {
                kl::path q{sv};
                switch (c.draw(3))
                {
                case 0: p = q; break;
                case 1: p = std::move(q); break;
                default: p = kl::path{q};
                }
            }
            catch (const kl::path_parse_error&)
            {
                rejected = true;
            }
        }
        PBT_EQ(rejected, !want.has_value(), "acceptance of " << pbt::quote(text));
        if (want)
        {
            c.label_if(want->size() > 15, "more-than-15-segments");
            c.label_if(want->empty(), "root");
            check_path(c, p, *want);
            kl::path copy = p;
            p.clear();
            check_path(c, copy, *want);
            p = copy;
            check_path(c, p, *want);
            // idempotence: re-parsing the joined text of an escape-free segment list gives the same path
            bool plain = true;
            for (auto& s : *want)
                plain &= s.find('%') == std::string::npos && s != "." && s != "..";
            if (plain)
                check_path(c, kl::path{join(*want, 0, want->size())}, *want);
        }
    }
    if (rich)
        c.nontrivial();
}

#include "pbt.hpp"
#include "base64_ref.hpp"
#include <kl/base64.hpp>
#include <memory>

const char* const property_rule =
    "texts: valid encodings, valid encodings with 1..3 byte mutations, strings over a mixed alphabet; "
    "non-trivial = length >= 2 and (the reference accepts a non-empty text or the text differs from a valid "
    "one by a mutation)";

static void check(std::string_view text, bool url)
{
    std::unique_ptr<char[]> heap(new char[text.size()]);
    std::memcpy(heap.get(), text.data(), text.size());
    std::string_view v{heap.get(), text.size()};
    auto got = url ? kl::base64url_decode(v) : kl::base64_decode(v);
    auto want = b64ref::decode(text, url);
    PBT_EQ(got.has_value(), want.has_value(),
           (url ? "url" : "standard") << " acceptance of " << pbt::quote(text.substr(0, 1000)));
    if (got && text.size() > 1000)
        PBT_CHECK(std::string(reinterpret_cast<const char*>(got->data()), got->size()) == *want,
                  (url ? "url" : "standard") << " decode of a text of " << text.size() << " characters");
    else if (got)
        PBT_EQ(pbt::quote(std::string(reinterpret_cast<const char*>(got->data()), got->size())),
               pbt::quote(*want), (url ? "url" : "standard") << " decode of " << pbt::quote(text));
}

void property(pbt::Choices& c)
{
    static bool once = [] {
        // every single byte at every position of a quad and of the 2/3 tails
        for (int pos = 0; pos < 8; ++pos)
            for (int b = 0; b < 256; ++b)
                for (int n = pos + 1; n <= 8; ++n)
                    for (int eq = 0; eq <= 3; ++eq)
                    {
                        std::string s(static_cast<size_t>(n), 'B');
                        s[static_cast<size_t>(pos)] = static_cast<char>(b);
                        s.append(static_cast<size_t>(eq), '=');
                        check(s, false);
                        check(s, true);
                    }
        // long texts: valid, and with one wrong character near either end
        for (size_t n : {1020, 1024, 1026, 1027, 65532, 65536, 65538, 262140, 262144, 262146, 262148})
            for (bool url : {false, true})
            {
                std::string s(n, 'B');
                for (size_t i = 0; i < n; ++i)
                    s[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[(i * 2654435761u >> 11) % 62];
                check(s, url);
                for (size_t pos : {size_t(0), size_t(5), n / 2, n - 6, n - 3, n - 1})
                    for (char bad : {'*', '=', '\n'})
                    {
                        std::string t = s;
                        t[pos] = bad;
                        check(t, url);
                    }
            }
        return true;
    }();
    (void)once;
    const bool url = c.flip();
    std::string text;
    const auto kind = c.draw(4);
    bool mutated = false;
    if (kind <= 1)
    {
        text = b64ref::encode(c.bytes(c.chance(1, 6) ? 300 : 24), c.chance(7, 8) ? url : !url);
        if (url && c.chance(1, 3))
            text.append(c.draw(4), '=');
        if (kind == 1)
        {
            size_t n = 1 + c.below(3);
            for (size_t i = 0; i < n; ++i)
            {
                size_t pos = c.below(text.size() + 1);
                switch (c.draw(5))
                {
                case 0:
                    if (pos < text.size())
                        text[pos] = static_cast<char>(c.draw(256));
                    break;
                case 1:
                    text.insert(pos, 1, "=+/-_A\n \0z"[c.draw(10)]);
                    break;
                case 2:
                    if (pos < text.size())
                        text.erase(pos, 1);
                    break;
                case 3:
                    if (pos < text.size())
                        text[pos] = "=+/-_@[`{:;.,*"[c.draw(14)];
                    break;
                default:
                    text.append(c.draw(3), '=');
                }
            }
            mutated = true;
        }
    }
    else if (kind == 2)
        text = c.over("ABCabc019+/-_=", 16);
    else
        text = c.over("AQgw+/-_=\xff\x80@[", 40);
    auto want = b64ref::decode(text, url);
    if (text.size() >= 2 && (mutated || want))
        c.nontrivial();
    c.label(want ? "accepted" : "rejected");
    c.label(url ? "url" : "standard");
    c.label_if(text.find('=') != std::string::npos, "has-padding");
    c.log() << (url ? "url " : "std ") << pbt::quote(text);
    check(text, url);
    check(text, !url);
}

#pragma once
// Independent Base64 reference, written from RFC 4648 as a bit stream.
#include <optional>
#include <string>
#include <string_view>
namespace b64ref {
inline std::string alphabet(bool url)
{
    std::string a;
    for (char ch = 'A'; ch <= 'Z'; ++ch) a += ch;
    for (char ch = 'a'; ch <= 'z'; ++ch) a += ch;
    for (char ch = '0'; ch <= '9'; ++ch) a += ch;
    a += url ? "-_" : "+/";
    return a;
}
inline std::string encode(std::string_view in, bool url)
{
    static const std::string std_a = alphabet(false), url_a = alphabet(true);
    const std::string& a = url ? url_a : std_a;
    std::string out;
    unsigned acc = 0, bits = 0;
    for (unsigned char ch : in)
    {
        acc = (acc << 8) | ch;
        bits += 8;
        while (bits >= 6)
        {
            out += a[(acc >> (bits - 6)) & 63];
            bits -= 6;
        }
        acc &= (1u << bits) - 1;
    }
    if (bits)
        out += a[(acc << (6 - bits)) & 63];
    if (!url)
        while (out.size() % 4)
            out += '=';
    return out;
}
// nullopt = must be rejected
inline std::optional<std::string> decode(std::string_view text, bool url)
{
    static const std::string std_a = alphabet(false), url_a = alphabet(true);
    const std::string& a = url ? url_a : std_a;
    if (!url && text.size() % 4 != 0)
        return std::nullopt;
    size_t eq = 0;
    while (eq < text.size() && text[text.size() - 1 - eq] == '=')
        ++eq;
    if (eq > 2)
        return std::nullopt;
    text = text.substr(0, text.size() - eq);
    if (text.size() % 4 == 1)
        return std::nullopt;
    std::string out;
    unsigned acc = 0, bits = 0;
    for (char ch : text)
    {
        auto p = a.find(ch);
        if (p == std::string::npos)
            return std::nullopt;
        acc = (acc << 6) | static_cast<unsigned>(p);
        bits += 6;
        if (bits >= 8)
        {
            out += static_cast<char>((acc >> (bits - 8)) & 255);
            bits -= 8;
            acc &= (1u << bits) - 1;
        }
    }
    return out; // surplus low bits are ignored
}
} // namespace b64ref

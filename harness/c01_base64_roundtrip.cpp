#include "pbt.hpp"
#include "base64_ref.hpp"
#include <kl/base64.hpp>

const char* const property_rule =
    "byte strings of length 0..600 (short-biased, runs of one byte, full range); non-trivial = at least "
    "one complete triple or a tail of 1/2 bytes containing a byte outside 0x20..0x7e";

static std::string as_str(const std::vector<std::byte>& v)
{
    return std::string(reinterpret_cast<const char*>(v.data()), v.size());
}

static void check(const std::string& in)
{
    // exactly-sized heap copy: over-reads are visible to ASan
    std::vector<std::byte> buf(in.size());
    std::memcpy(buf.data(), in.data(), in.size());
    gsl::span<const std::byte> s{buf.data(), buf.size()};
    const std::string std_text = kl::base64_encode(s);
    const std::string url_text = kl::base64url_encode(s);
    if (in.size() > 1000)
    {
        PBT_CHECK(std_text == b64ref::encode(in, false), "standard encoding of " << in.size() << " bytes");
        PBT_CHECK(url_text == b64ref::encode(in, true), "url encoding of " << in.size() << " bytes");
        auto a = kl::base64_decode(std_text), b = kl::base64url_decode(url_text);
        PBT_CHECK(a && as_str(*a) == in, "standard round trip of " << in.size() << " bytes");
        PBT_CHECK(b && as_str(*b) == in, "url round trip of " << in.size() << " bytes");
        return;
    }
    PBT_EQ(pbt::quote(std_text), pbt::quote(b64ref::encode(in, false)), "standard encoding of " << pbt::quote(in));
    PBT_EQ(pbt::quote(url_text), pbt::quote(b64ref::encode(in, true)), "url encoding of " << pbt::quote(in));
    PBT_CHECK(std_text.c_str()[std_text.size()] == '\0' && url_text.c_str()[url_text.size()] == '\0', "the encoded string lost its terminator");
    auto d1 = kl::base64_decode(std_text);
    PBT_CHECK(d1.has_value(), "standard decode failed on " << pbt::quote(std_text));
    PBT_EQ(pbt::quote(as_str(*d1)), pbt::quote(in), "standard round trip");
    auto d2 = kl::base64url_decode(url_text);
    PBT_CHECK(d2.has_value(), "url decode failed on " << pbt::quote(url_text));
    PBT_EQ(pbt::quote(as_str(*d2)), pbt::quote(in), "url round trip");
}

void property(pbt::Choices& c)
{
    static bool once = [] {
        check("");
        for (int a = 0; a < 256; ++a)
        {
            check(std::string(1, char(a)));
            check(std::string(3, char(a)));
            for (int b = 0; b < 256; b += 1)
                check(std::string{char(a), char(b)});
        }
        // sizes around the powers of two that a narrowed counter would wrap at
        for (size_t n : {765, 766, 767, 768, 769, 1023, 1024, 4095, 4097, 65534, 65535, 65536, 65537, 196604, 196605,
                         196608, 196609, 262145})
        {
            std::string big(n, '\0');
            for (size_t i = 0; i < n; ++i)
                big[i] = static_cast<char>((i * 2654435761u) >> 13);
            check(big);
        }
        return true;
    }();
    (void)once;
    std::string s;
    switch (c.draw(4))
    {
    case 0:
        s = c.bytes(24);
        break;
    case 1:
        s = c.bytes(600);
        break;
    case 2:
        s = std::string(c.len(600), static_cast<char>(c.draw(256)));
        break;
    default:
        s = c.over(std::string_view("\x00\xff\x80\x7f\xfb\xf0\x0f\xaa", 8), 100);
    }
    bool high = false;
    for (unsigned char ch : s)
        high |= ch < 0x20 || ch > 0x7e;
    if (s.size() >= 3 || high)
        c.nontrivial();
    c.label(s.size() % 3 == 0 ? "len%3==0" : s.size() % 3 == 1 ? "len%3==1" : "len%3==2");
    c.label_if(s.empty(), "empty");
    c.label_if(s.size() > 64, "long");
    c.log() << "bytes " << pbt::quote(s);
    check(s);
}

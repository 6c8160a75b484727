#include "binary_types.hpp"

const char* const property_rule =
    "sequences of 1..8 values over ~50 types written with every entry point, bytes compared with an independent encoder, read back, "
    "and written again into exactly-sized heap buffers that are too short; writer skips (back-patching) included; non-trivial = a container "
    "or variant value with at least 8 encoded bytes was in the sequence";

template <typename... Ts>
static auto all(list<Ts...>)
{
    return makers(list<Ts..., bool, std::pair<bool, uint16_t>, std::optional<bool>>{});
}

static std::unique_ptr<std::byte[]> heap(size_t n, uint8_t fill)
{
    auto p = std::make_unique<std::byte[]>(n);
    std::memset(p.get(), fill, n);
    return p;
}

void property(pbt::Choices& c)
{
    static const auto mk = all(HostileTypes{});
    std::vector<std::unique_ptr<Item>> items;
    std::vector<int> how;
    std::vector<size_t> starts;
    Bytes want;
    do
    {
        items.push_back(c.pick(mk)());
        items.back()->generate(c);
        how.push_back(static_cast<int>(c.draw(4)));
        starts.push_back(want.size());
        items.back()->encode(want);
        size_t len = want.size() - starts.back();
        c.log() << items.back()->name() << " (" << len << " bytes)\n";
        if (len > 8)
            c.nontrivial();
    } while (items.size() < 8 && c.more(3));

    // --- exact or roomy buffer
    size_t room = c.flip() ? 0 : c.below(40);
    auto buf = heap(want.size() + room, 0xA5);
    auto w = cursor_over<kl::binary_writer>(buf.get(), want.size() + room, c.draw(8));
    for (size_t i = 0; i < items.size(); ++i)
    {
        PBT_EQ(w.pos(), starts[i], "writer position");
        items[i]->write(w, how[i]);
        PBT_CHECK(!w.err(), "error although the buffer is large enough, item " << i);
    }
    PBT_EQ(w.pos(), want.size(), "bytes written");
    PBT_EQ(w.left(), room, "bytes left");
    PBT_EQ(w.empty(), room == 0, "empty()");
    for (size_t i = 0; i < want.size() + room; ++i)
    {
        auto exp = i < want.size() ? static_cast<uint8_t>(want[i]) : 0xA5;
        PBT_CHECK(static_cast<uint8_t>(buf[i]) == exp, "byte " << i << " of " << want.size() << " is " << static_cast<int>(buf[i]) << " expected "
                                                                << static_cast<int>(exp));
    }

    // --- back-patching: go back to the start of an item and write it again
    if (c.flip())
    {
        size_t i = c.below(items.size());
        std::vector<uint8_t> before(want.size() + room);
        std::memcpy(before.data(), buf.get(), before.size());
        w.skip(-static_cast<std::ptrdiff_t>(want.size() - starts[i]));
        PBT_CHECK(!w.err(), "skip back inside the buffer fails");
        PBT_EQ(w.pos(), starts[i], "position after skipping back");
        items[i]->write(w, how[i]);
        PBT_CHECK(!w.err() && std::memcmp(before.data(), buf.get(), before.size()) == 0, "rewriting the same value changes other bytes");
        w.skip(static_cast<std::ptrdiff_t>(want.size() - w.pos()));
        PBT_EQ(w.pos(), want.size(), "position after skipping forward");
    }

    // --- read back
    {
        auto r = cursor_over<kl::binary_reader>(static_cast<const std::byte*>(buf.get()), want.size(), c.draw(8));
        for (size_t i = 0; i < items.size(); ++i)
        {
            items[i]->read_equal(r, static_cast<int>(c.draw(4)));
            PBT_EQ(r.pos(), i + 1 < starts.size() ? starts[i + 1] : want.size(), "bytes consumed by item " << i << " " << items[i]->name());
        }
        PBT_CHECK(r.empty() && !r.err(), "reader not at the end");
    }

    // --- too small
    if (!want.empty())
    {
        size_t cap = c.flip() ? want.size() - 1 : c.below(want.size());
        c.label("short buffer");
        auto small = heap(cap, 0x5A);
        auto ws = cursor_over<kl::binary_writer>(small.get(), cap, c.draw(8));
        bool errored = false;
        for (size_t i = 0; i < items.size(); ++i)
        {
            size_t end = i + 1 < starts.size() ? starts[i + 1] : want.size();
            items[i]->write(ws, how[i]);
            if (!errored && end <= cap)
                PBT_CHECK(!ws.err(), "error although item " << i << " fits");
            else
            {
                PBT_CHECK(ws.err(), "no error although item " << i << " does not fit");
                errored = true;
            }
        }
        PBT_CHECK(ws.err(), "no error although the buffer is too small");
        size_t pos = ws.pos();
        PBT_CHECK(pos <= cap, "position outside the buffer");
        PBT_CHECK(std::memcmp(small.get(), want.data(), pos) == 0, "bytes before the failing write differ");
        ws << uint8_t{1};
        PBT_CHECK(ws.err() && ws.pos() == pos, "writing continues after an error");
        PBT_CHECK(!ws.write_raw(uint8_t{1}), "write_raw succeeds after an error");
        PBT_CHECK(std::memcmp(small.get(), want.data(), pos) == 0, "bytes before the failing write changed");
    }
}

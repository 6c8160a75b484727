#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>

static bool g_armed = false;
static std::size_t g_limit = 0, g_largest = 0;
static bool g_exceeded = false;

static void* counted(std::size_t n)
{
    if (g_armed)
    {
        if (n > g_largest)
            g_largest = n;
        if (n > g_limit)
        {
            g_exceeded = true;
            throw std::bad_alloc{};
        }
    }
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void* operator new(std::size_t n) { return counted(n); }
void* operator new[](std::size_t n) { return counted(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

struct Armed
{
    Armed() { g_armed = true; }
    ~Armed() { g_armed = false; }
};
#define BINARY_LIB(x) do { Armed armed_; x; } while (0)
#include "binary_types.hpp"

const char* const property_rule =
    "byte buffers (random, valid encodings with mutations and truncations, hostile element counts) read by sequences of 1..10 reads, peeks, "
    "skips and spans over ~50 types next to a reference decoder, allocations bounded; non-trivial = some read failed on a "
    "container/variant or at least two reads succeeded before a failure";

template <typename T>
static void peek_check(kl::binary_reader& r, const Src& s)
{
    T a{};
    size_t pos = r.pos();
    bool err = r.err();
    bool ok = r.peek(a);
    PBT_EQ(ok, !err && s.left() >= sizeof(T), "result of peek");
    if (ok)
    {
        T b{};
        std::memcpy(&b, s.p + s.pos, sizeof b);
        PBT_CHECK(std::memcmp(&a, &b, sizeof a) == 0, "peeked value");
        T d = r.peek<T>();
        PBT_CHECK(std::memcmp(&d, &b, sizeof d) == 0, "peeked value (by return)");
    }
    PBT_EQ(r.pos(), pos, "peek moved the position");
    PBT_EQ(r.err(), err, "peek changed the error state");
}

void property(pbt::Choices& c)
{
    static const auto mk = makers(HostileTypes{});
    std::vector<std::unique_ptr<Item>> plan;
    do
        plan.push_back(c.pick(mk)());
    while (plan.size() < 10 && c.more(4));

    // --- the buffer
    Bytes b;
    std::vector<size_t> marks;
    switch (c.draw(4))
    {
    case 0:
        b = c.bytes(80);
        break;
    case 1: // small counts, so containers nest
        b = c.over(std::string_view("\0\0\0\1\0\0\0\0\2\3\xff", 11), 120);
        break;
    default: // encodings of the plan, mutated
        for (auto& i : plan)
        {
            i->generate(c);
            marks.push_back(b.size());
            i->encode(b);
        }
        for (size_t n = c.below(4); n > 0 && !b.empty(); --n)
        {
            size_t at = c.flip() ? c.pick(marks) : c.below(b.size());
            at = std::min(at, b.size() - 1);
            switch (c.draw(4))
            {
            case 0: b[at] = static_cast<char>(c.draw(256)); break;
            case 1: b.erase(at, 1 + c.below(4)); break;
            case 2: b.insert(at, 1 + c.below(4), static_cast<char>(c.draw(3))); break;
            default: { // hostile count
                static const uint32_t hostile[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0x10000u, 0x40000000u, 0x20000001u, 0xfffffff0u, 0x3fffffffu};
                uint32_t v = c.flip() ? c.pick(hostile) : static_cast<uint32_t>(b.size() - at + c.below(9) - 4);
                for (size_t k = 0; k < 4 && at + k < b.size(); ++k)
                    b[at + k] = static_cast<char>(v >> (8 * k));
                break;
            }
            }
            if (b.empty())
                break;
        }
        if (c.chance(1, 3))
            b.resize(c.below(b.size() + 1));
        break;
    }
    c.log() << "buffer " << pbt::quote(b) << "\n";

    std::unique_ptr<std::byte[]> heap(new std::byte[b.size()]);
    std::memcpy(heap.get(), b.data(), b.size());
    auto r = cursor_over<kl::binary_reader>(static_cast<const std::byte*>(heap.get()), b.size(), c.draw(8));
    Src s{reinterpret_cast<const uint8_t*>(heap.get()), b.size()};

    size_t good = 0;
    bool failed_complex = false;
    for (auto& it : plan)
    {
        // --- optional extra operation
        switch (c.draw(10))
        {
        case 1: peek_check<uint8_t>(r, s); break;
        case 2: peek_check<uint32_t>(r, s); break;
        case 3: peek_check<double>(r, s); break;
        case 4: {
            static const std::ptrdiff_t wild[] = {PTRDIFF_MIN, PTRDIFF_MAX, PTRDIFF_MIN + 1, -1, 1, 0};
            std::ptrdiff_t off = c.chance(1, 3) ? c.pick(wild) : static_cast<std::ptrdiff_t>(c.below(40)) - 20;
            size_t pos = r.pos();
            bool err = r.err();
            // all in 128 bit arithmetic
            __int128 target = static_cast<__int128>(pos) + off;
            bool ok = !err && target >= 0 && target <= static_cast<__int128>(b.size());
            c.log() << "skip " << off << " at " << pos << "\n";
            r.skip(off);
            PBT_EQ(r.err(), !ok, "error state after skip " << off << " at " << pos << " of " << b.size());
            PBT_EQ(r.pos(), ok ? static_cast<size_t>(target) : pos, "position after skip " << off);
            s.pos = r.pos();
            break;
        }
        case 5: {
            size_t n = c.chance(1, 3) ? c.pick(std::vector<size_t>{SIZE_MAX, SIZE_MAX - 1, size_t{1} << 63, b.size() + 1}) : c.below(20);
            bool move = c.flip();
            size_t pos = r.pos();
            bool ok = !r.err() && n <= b.size() - pos;
            auto sp = move && c.flip() ? r.span(n) : r.span(n, move);
            PBT_EQ(r.err(), !ok, "error state after span(" << n << ")");
            PBT_EQ(r.pos(), ok && move ? pos + n : pos, "position after span(" << n << ")");
            PBT_EQ(sp.size(), ok ? n : 0, "size of the span");
            if (ok && n)
                PBT_CHECK(sp.data() == heap.get() + pos, "span data");
            s.pos = r.pos();
            break;
        }
        case 6: { // raw array read
            uint16_t arr[5] = {};
            size_t n = c.below(6);
            size_t pos = r.pos();
            bool ok = !r.err() && n * 2 <= b.size() - pos;
            if (c.flip())
                r >> gsl::span<uint16_t>(arr, n);
            else
            {
                const bool done = r.read_span(gsl::span<uint16_t>(arr, n));
                PBT_EQ(done, ok, "result of read_span()");
            }
            PBT_EQ(r.err(), !ok, "error state after reading a span of " << n);
            PBT_EQ(r.pos(), ok ? pos + 2 * n : pos, "position after reading a span");
            if (ok)
                PBT_CHECK(std::memcmp(arr, heap.get() + pos, 2 * n) == 0, "span content");
            s.pos = r.pos();
            break;
        }
        case 7:
            if (c.chance(1, 6))
            {
                r.notify_error();
                PBT_CHECK(r.err(), "notify_error");
            }
            break;
        default: break;
        }
        const bool was_err = r.err();
        const size_t before = r.pos();
        PBT_EQ(r.left(), b.size() - before, "left()");
        PBT_EQ(r.empty(), b.size() == before, "empty()");
        c.log() << "read " << it->name() << " at " << before << (was_err ? " (error state)" : "") << "\n";
        // every element takes at least one byte; the largest element type is well below 256 bytes
        g_limit = 4096 + 512 * (b.size() + 1);
        g_exceeded = false;
        bool ok;
        try
        {
            ok = it->read_any(r, s, static_cast<int>(c.draw(4)), c, before);
        }
        catch (const pbt::Failure&)
        {
            throw;
        }
        catch (const std::exception& e)
        {
            if (g_exceeded)
                PBT_FAIL("reading " << it->name() << " from " << b.size() - before << " bytes allocates " << g_largest << " bytes at once");
            PBT_FAIL("reading " << it->name() << " throws " << e.what());
        }
        PBT_CHECK(!g_exceeded, "reading " << it->name() << " allocates " << g_largest << " bytes");
        PBT_CHECK(r.pos() <= b.size(), "position outside the buffer");
        if (was_err)
            PBT_EQ(r.pos(), before, "position moved although the error state was set");
        if (ok)
            ++good;
        else
        {
            if (!was_err && (good >= 2 || std::strstr(it->name(), "std::")))
                failed_complex = true;
            PBT_CHECK(r.err(), "no error");
            s.pos = r.pos();
            size_t pos = r.pos();
            uint8_t x = 7;
            PBT_CHECK(!r.read(x) && !r.read_raw(x) && !r.peek(x), "a read succeeds after an error");
            PBT_CHECK(r.span(0).size() == 0 && r.span(1).size() == 0, "a span is returned after an error");
            r.skip(-1);
            r.skip(1);
            PBT_EQ(r.pos(), pos, "position moves after an error");
        }
    }
    if (failed_complex)
        c.nontrivial();
    c.label_if(good >= 2, "two or more good reads");
}

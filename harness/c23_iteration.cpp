// C23: zip / enumerate / iota / range / enum_range / iterator_facade.
#include <cstdint>
#include <array>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "pbt.hpp"
#include "kl/enum_range.hpp"
#include "kl/enum_traits.hpp"
#include "kl/iterator_facade.hpp"
#include "kl/range.hpp"
#include "kl/zip.hpp"

const char* const property_rule =
    "sequences of different, non-zero lengths are zipped, a non-empty range is covered, or an iterator program takes at least three steps";

namespace {

// --- zip -----------------------------------------------------------------------------------------
std::vector<int> ints(pbt::Choices& c, size_t max = 40)
{
    std::vector<int> v(c.len(max));
    for (auto& x : v)
        x = c.range(-1000, 1000);
    if (!v.empty() && c.chance(1, 400))
    {
        const size_t old = v.size();
        v.resize(c.chance(1, 10) ? 65530 + c.below(20) : 250 + c.below(20));
        for (size_t i = old; i < v.size(); ++i)
            v[i] = static_cast<int>(i) ^ v[i % old];
    }
    return v;
}

template <typename S>
std::vector<int> content(const S& s)
{
    return std::vector<int>(std::begin(s), std::end(s));
}

std::string show(const std::vector<int>& v)
{
    std::string r = "[";
    for (int x : v)
        r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "]";
}

#define SEQ_EQ(got, want, what) PBT_CHECK((got) == (want), what << ": got " << show(got) << ", expected " << show(want))

// Zips two containers of any kind, checks the tuples, then writes through them.
template <typename A, typename B>
void zip2(pbt::Choices& c, A a, B b, const char* kinds)
{
    const auto va = content(a), vb = content(b);
    c.label(kinds);
    c.log() << "zip " << kinds << " " << show(va) << " " << show(vb) << "\n";
    if (!va.empty() && !vb.empty() && va.size() != vb.size())
        c.nontrivial();
    const size_t n = std::min(va.size(), vb.size());

    size_t i = 0;
    auto ita = std::begin(a);
    auto itb = std::begin(b);
    for (auto&& t : kl::zipped(a, b))
    {
        PBT_CHECK(i < n, "zip goes on after " << n << " tuples");
        PBT_CHECK((std::is_same_v<std::tuple_element_t<0, std::decay_t<decltype(t)>>, decltype(*ita)>), "element type of a zipped tuple");
        PBT_CHECK(std::get<0>(t) == va[i] && std::get<1>(t) == vb[i], "tuple " << i << " is (" << std::get<0>(t) << "," << std::get<1>(t) << ")");
        PBT_CHECK(&std::get<0>(t) == &*ita && &std::get<1>(t) == &*itb, "tuple " << i << " does not refer to the elements");
        ++i, ++ita, ++itb;
    }
    PBT_EQ(i, n, "number of tuples");

    // structured bindings write through
    i = 0;
    for (auto [x, y] : kl::zipped(a, b))
    {
        x = static_cast<int>(7000 + i);
        y += x;
        ++i;
    }
    auto wa = va, wb = vb;
    for (size_t k = 0; k < n; ++k)
    {
        wa[k] = static_cast<int>(7000 + k);
        wb[k] += wa[k];
    }
    SEQ_EQ(content(a), wa, "first sequence after writing");
    SEQ_EQ(content(b), wb, "second sequence after writing");

    // const sequences
    const A& ca = a;
    i = 0;
    for (auto [x, y] : kl::zipped(b, ca))
    {
        PBT_CHECK(std::is_const_v<std::remove_reference_t<decltype(y)>>, "element of a const sequence is const");
        PBT_CHECK(i < n && x == wb[i] && y == wa[i], "const zip, tuple " << i);
        ++i;
    }
    PBT_EQ(i, n, "number of tuples (const)");

    // explicit iterator use: begin()/end() can be taken repeatedly; copies are independent
    auto z = kl::zipped(a, b);
    auto first = z.begin();
    auto other = first;
    size_t steps = 0;
    for (; first != z.end(); ++first)
    {
        PBT_CHECK(std::get<0>(*first) == wa[steps], "iterator at " << steps);
        ++steps;
    }
    PBT_EQ(steps, n, "iterator loop");
    if (n > 0)
        PBT_CHECK(std::get<0>(*other) == wa[0] && std::get<1>(*other) == wb[0], "copy of begin() moved");

    // one sequence
    i = 0;
    for (auto [x] : kl::zipped(b))
    {
        PBT_CHECK(i < wb.size() && x == wb[i], "single zip " << i);
        ++i;
    }
    PBT_EQ(i, wb.size(), "single zip length");
}

void zipping(pbt::Choices& c)
{
    auto a = ints(c), b = ints(c);
    switch (c.draw(7))
    {
    case 0: return zip2(c, a, b, "vector+vector");
    case 1: return zip2(c, a, std::list<int>(b.begin(), b.end()), "vector+list");
    case 2: return zip2(c, std::forward_list<int>(a.begin(), a.end()), std::deque<int>(b.begin(), b.end()), "forward_list+deque");
    case 3: {
        std::array<int, 5> arr{1, 2, 3, 4, 5};
        return zip2(c, arr, b, "array+vector");
    }
    case 4: return zip2(c, std::deque<int>(a.begin(), a.end()), std::list<int>(b.begin(), b.end()), "deque+list");
    case 5: {
        // three and four sequences of different lengths, with arrays and ranges
        auto d = ints(c);
        int raw[6] = {10, 11, 12, 13, 14, 15};
        const int craw[3] = {20, 21, 22};
        std::list<int> lb(b.begin(), b.end());
        size_t n3 = std::min({a.size(), b.size(), d.size()});
        c.label("three or four sequences");
        c.log() << "zip3 " << show(a) << show(b) << show(d) << "\n";
        if (n3 > 0 && (a.size() != n3 || b.size() != n3 || d.size() != n3))
            c.nontrivial();
        size_t i = 0;
        for (auto [x, y, z] : kl::zipped(a, lb, d))
        {
            PBT_CHECK(i < n3 && &x == &a[i] && y == b[i] && &z == &d[i], "zip of three, tuple " << i);
            ++i;
        }
        PBT_EQ(i, n3, "zip of three");
        i = 0;
        size_t n4 = std::min({a.size(), b.size(), size_t{3}});
        for (auto [x, y, z, w] : kl::zipped(raw, craw, lb, a))
        {
            PBT_CHECK(i < n4 && &x == raw + i && &y == craw + i && z == b[i] && &w == &a[i], "zip of four, tuple " << i);
            x = -1;
            ++i;
        }
        PBT_EQ(i, n4, "zip of four");
        for (size_t k = 0; k < 6; ++k)
            PBT_EQ(raw[k], k < n4 ? -1 : static_cast<int>(10 + k), "array after writing, index " << k);
        return;
    }
    default: {
        // borrowed ranges as temporaries
        int lo = c.range(-50, 50), n = c.range(0, 20);
        c.label("zip with iota");
        c.log() << "zip iota " << lo << " +" << n << " with " << show(a) << "\n";
        if (n > 0 && !a.empty())
            c.nontrivial();
        size_t want = std::min(a.size(), static_cast<size_t>(n)), i = 0;
        for (auto [k, x] : kl::zipped(kl::iota_range<int>(lo, lo + n), a))
        {
            PBT_CHECK(i < want && k == lo + static_cast<int>(i) && &x == &a[i], "zip with iota, tuple " << i);
            ++i;
        }
        PBT_EQ(i, want, "zip with iota");
        i = 0;
        for (auto [x, k] : kl::zipped(a, kl::unbounded_iota_range<long>(lo)))
        {
            PBT_CHECK(i < a.size() && k == lo + static_cast<long>(i) && &x == &a[i], "zip with unbounded iota, tuple " << i);
            ++i;
        }
        PBT_EQ(i, a.size(), "zip with unbounded iota");
        return;
    }
    }
}

void enumerating(pbt::Choices& c)
{
    auto a = ints(c, 80);
    c.label("enumerate");
    c.log() << "enumerate " << show(a) << "\n";
    if (!a.empty())
        c.nontrivial();
    std::list<int> l(a.begin(), a.end());
    std::map<int, int> m;
    for (int x : a)
        m[x] = x * 2;
    size_t n = 0;
    for (auto [i, x] : kl::enumerated(a))
    {
        PBT_CHECK(i == n && n < a.size() && &x == &a[n], "enumerated vector at " << n << " has index " << i);
        x += static_cast<int>(i);
        ++n;
    }
    PBT_EQ(n, a.size(), "enumerated vector");
    n = 0;
    auto li = l.begin();
    for (auto [i, x] : kl::enumerated(l))
    {
        PBT_CHECK(i == n && n < a.size() && &x == &*li && a[n] == x + static_cast<int>(n), "enumerated list at " << n);
        ++n, ++li;
    }
    PBT_EQ(n, l.size(), "enumerated list");
    n = 0;
    const auto& cm = m;
    auto mi = cm.begin();
    for (auto [i, kv] : kl::enumerated(cm))
    {
        PBT_CHECK(i == n && &kv == &*mi, "enumerated map at " << n);
        ++n, ++mi;
    }
    PBT_EQ(n, m.size(), "enumerated map");
    int raw[4] = {4, 3, 2, 1};
    n = 0;
    for (auto [i, x] : kl::enumerated(raw))
    {
        PBT_CHECK(i == n && n < 4 && &x == raw + n, "enumerated array at " << n);
        ++n;
    }
    PBT_EQ(n, size_t{4}, "enumerated array");
}

template <typename T>
void iota_case(pbt::Choices& c, const char* name)
{
    using L = std::numeric_limits<T>;
    T lo = c.integer<T>();
    unsigned long long room = static_cast<unsigned long long>(L::max()) - static_cast<unsigned long long>(lo);
    if (std::is_signed_v<T> && lo < 0)
        room = static_cast<unsigned long long>(L::max());
    T hi = static_cast<T>(lo + static_cast<T>(std::min<unsigned long long>(room, c.chance(1, 100) ? 65000 + c.below(1000) : c.chance(1, 20) ? c.below(520) : c.below(60))));
    c.label("iota");
    c.log() << "iota " << name << " [" << +lo << ", " << +hi << ")\n";
    if (lo != hi)
        c.nontrivial();
    T at = lo;
    for (auto v : kl::iota_range<T>(lo, hi))
    {
        PBT_CHECK((std::is_same_v<decltype(v), T>), "element type");
        PBT_CHECK(at < hi && v == at, "iota " << name << " visits " << +v);
        ++at;
    }
    PBT_CHECK(at == hi, "iota " << name << " stops at " << +at);
    kl::unbounded_iota_range<T> u(lo);
    at = lo;
    for (auto it = u.begin(); it != u.end(); ++it)
    {
        PBT_CHECK(*it == at, "unbounded iota visits " << +*it);
        if (at == hi)
            break;
        ++at;
    }
    PBT_CHECK(*kl::unbounded_iota_range<T>{}.begin() == T{}, "unbounded iota default start");
}

template <typename C>
void range_case(pbt::Choices& c, C cont, const char* name)
{
    const auto v = content(cont);
    c.label("range");
    c.log() << "range over " << name << " " << show(v) << "\n";
    if (!v.empty())
        c.nontrivial();
    kl::range r{cont};
    PBT_CHECK((std::is_same_v<decltype(r), kl::range<typename C::iterator>>), "deduced range type");
    SEQ_EQ(content(r), v, "range over container");
    PBT_EQ(r.size(), v.size(), "range size");
    const C& cc = cont;
    kl::range cr{cc};
    PBT_CHECK((std::is_same_v<decltype(cr), kl::range<typename C::const_iterator>>), "deduced const range type");
    SEQ_EQ(content(cr), v, "range over const container");
    PBT_EQ(cr.size(), v.size(), "const range size");
    size_t a = c.below(v.size() + 1), b = a + c.below(v.size() - a + 1);
    kl::range sub{std::next(cont.begin(), static_cast<std::ptrdiff_t>(a)), std::next(cont.begin(), static_cast<std::ptrdiff_t>(b))};
    SEQ_EQ(content(sub), std::vector<int>(v.begin() + static_cast<std::ptrdiff_t>(a), v.begin() + static_cast<std::ptrdiff_t>(b)), "sub range");
    PBT_EQ(sub.size(), b - a, "sub range size");
    for (auto& x : sub)
        x = 5;
    auto w = v;
    for (size_t i = a; i < b; ++i)
        w[i] = 5;
    SEQ_EQ(content(cont), w, "container after writing through a range");
    kl::range<typename C::iterator> d = r; // copy
    PBT_EQ(d.size(), v.size(), "copied range");
    PBT_EQ(kl::range<int*>{}.size(), size_t{0}, "default range");
    int raw[3] = {1, 2, 3};
    const int craw[2] = {4, 5};
    kl::range rr{raw};
    kl::range rc{craw};
    SEQ_EQ(content(rr), (std::vector<int>{1, 2, 3}), "array range");
    SEQ_EQ(content(rc), (std::vector<int>{4, 5}), "const array range");
    PBT_EQ(rr.size(), size_t{3}, "array range size");
    // nested use: zip of ranges
    size_t n = 0;
    for (auto [x, y] : kl::zipped(sub, rr))
    {
        PBT_CHECK(x == 5 && y == static_cast<int>(n + 1), "zip of ranges at " << n);
        ++n;
    }
    PBT_EQ(n, size_t{std::min<size_t>(b - a, 3)}, "zip of ranges");
}

// --- facade iterators ------------------------------------------------------------------------------
struct Cell
{
    int v;
    int twice() const { return 2 * v; }
};

template <typename Ref, typename Cat = std::random_access_iterator_tag>
class It : public kl::iterator_facade<It<Ref, Cat>, Ref, Cat>
{
public:
    It() = default;
    It(Cell* base, std::ptrdiff_t i) : base_(base), i_(i) {}
    Ref dereference() const { return base_[i_]; }
    void increment() { ++i_; }
    void decrement() { --i_; }
    void advance(std::ptrdiff_t n) { i_ += n; }
    std::ptrdiff_t distance_to(const It& o) const { return i_ - o.i_; }
    bool equal_to(const It& o) const { return i_ == o.i_; }
    std::ptrdiff_t position() const { return i_; }

private:
    Cell* base_ = nullptr;
    std::ptrdiff_t i_ = 0;
};

// Runs a step program with two iterators p, q over positions [0, n] next to integers.
// `at(i)` gives an iterator, `val(it)` the value it denotes and `want(i)` the expected one.
template <typename I, typename At, typename Val, typename Want>
void laws(pbt::Choices& c, const char* name, std::ptrdiff_t n, At at, Val val, Want want)
{
    c.label(name);
    c.log() << name << " n=" << n << "\n";
    std::ptrdiff_t pos[2] = {c.range<std::ptrdiff_t>(0, n), c.range<std::ptrdiff_t>(0, n)};
    I it[2] = {at(pos[0]), at(pos[1])};
    unsigned steps = 0;
    auto check = [&](const char* op) {
        for (int k = 0; k < 2; ++k)
        {
            PBT_CHECK(it[k] == at(pos[k]), name << " after " << op << ": iterator " << k << " is not at " << pos[k]);
            if (pos[k] < n)
                PBT_CHECK(val(*it[k]) == want(pos[k]), name << " after " << op << ": iterator " << k << " denotes another element than " << pos[k]);
        }
        const I &p = it[0], &q = it[1];
        std::ptrdiff_t d = pos[0] - pos[1];
        PBT_EQ(p - q, d, name << ": p - q at " << pos[0] << "," << pos[1]);
        PBT_EQ(q - p, -d, name << ": q - p at " << pos[0] << "," << pos[1]);
        PBT_EQ(p == q, d == 0, name << ": ==");
        PBT_EQ(p != q, d != 0, name << ": !=");
        PBT_EQ(p < q, d < 0, name << ": < at " << pos[0] << "," << pos[1]);
        PBT_EQ(p > q, d > 0, name << ": > at " << pos[0] << "," << pos[1]);
        PBT_EQ(p <= q, d <= 0, name << ": <= at " << pos[0] << "," << pos[1]);
        PBT_EQ(p >= q, d >= 0, name << ": >= at " << pos[0] << "," << pos[1]);
        PBT_EQ(std::distance(p, q), -d, name << ": std::distance at " << pos[0] << "," << pos[1]);
    };
    check("start");
    while (c.more(8))
    {
        int k = static_cast<int>(c.below(2));
        std::ptrdiff_t x = pos[k];
        std::ptrdiff_t to = c.range<std::ptrdiff_t>(0, n);
        ++steps;
        unsigned op = static_cast<unsigned>(c.draw(11));
        c.log() << " it" << k << "@" << x << " op" << op << " to " << to << "\n";
        switch (op)
        {
        case 0:
            if (x < n)
            {
                I& r = ++it[k];
                PBT_CHECK(&r == &it[k], name << ": ++ returns another object");
                ++pos[k];
            }
            check("++p");
            break;
        case 1:
            if (x < n)
            {
                I old = it[k]++;
                PBT_CHECK(old == at(x), name << ": p++ result");
                ++pos[k];
            }
            check("p++");
            break;
        case 2:
            if (x > 0)
            {
                I& r = --it[k];
                PBT_CHECK(&r == &it[k], name << ": -- returns another object");
                --pos[k];
            }
            check("--p");
            break;
        case 3:
            if (x > 0)
            {
                I old = it[k]--;
                PBT_CHECK(old == at(x), name << ": p-- result");
                --pos[k];
            }
            check("p--");
            break;
        case 4: {
            I& r = (it[k] += to - x);
            PBT_CHECK(&r == &it[k], name << ": += returns another object");
            pos[k] = to;
            check("+=");
            break;
        }
        case 5: {
            I& r = (it[k] -= x - to);
            PBT_CHECK(&r == &it[k], name << ": -= returns another object");
            pos[k] = to;
            check("-=");
            break;
        }
        case 6:
            PBT_CHECK((it[k] + (to - x)) == at(to), name << ": p + " << (to - x));
            check("p + n");
            break;
        case 7:
            PBT_CHECK(((to - x) + it[k]) == at(to), name << ": " << (to - x) << " + p");
            check("n + p");
            break;
        case 8:
            PBT_CHECK((it[k] - (x - to)) == at(to), name << ": p - " << (x - to));
            check("p - n");
            break;
        case 9:
            if (to < n)
                PBT_CHECK(val(it[k][to - x]) == want(to), name << ": p[" << (to - x) << "]");
            check("p[n]");
            break;
        default: {
            // n single steps equal one advance, through the standard algorithms
            if (to - x > 1000 || x - to > 1000)
                to = std::min(std::max(x + (to > x ? 1000 : -1000), std::ptrdiff_t{0}), n);
            I s = it[k];
            std::advance(s, to - x);
            PBT_CHECK(s == at(to), name << ": std::advance by " << (to - x));
            I t = it[k];
            for (std::ptrdiff_t i = x; i < to; ++i)
                ++t;
            for (std::ptrdiff_t i = x; i > to; --i)
                --t;
            PBT_CHECK(s == t, name << ": advance differs from single steps by " << (to - x));
            it[k] = t;
            pos[k] = to;
            check("advance");
        }
        }
    }
    if (steps >= 3)
        c.nontrivial();
}

void facades(pbt::Choices& c)
{
    std::vector<Cell> cells(c.len(30));
    for (auto& x : cells)
        x.v = c.range(-100, 100);
    const auto n = static_cast<std::ptrdiff_t>(cells.size());
    auto want = [&](std::ptrdiff_t i) { return cells[static_cast<size_t>(i)].v; };
    auto run = [&](auto tag, const char* name) {
        using I = decltype(tag);
        auto at = [&](std::ptrdiff_t i) { return I(cells.data(), i); };
        laws<I>(c, name, n, at, [](const Cell& x) { return x.v; }, want);
        // -> and * denote the same element
        for (std::ptrdiff_t i = 0; i < n; ++i)
        {
            PBT_CHECK(at(i)->v == want(i) && at(i)->twice() == 2 * want(i), name << ": -> at " << i);
            if constexpr (std::is_lvalue_reference_v<typename I::reference>)
                PBT_CHECK(at(i).operator->() == &cells[static_cast<size_t>(i)] && &*at(i) == &cells[static_cast<size_t>(i)] && &at(0)[i] == &cells[static_cast<size_t>(i)],
                          name << ": address at " << i);
        }
        // std algorithms on reversed ranges
        std::vector<int> fwd, back;
        for (auto it = at(0); it != at(n); it++)
            fwd.push_back((*it).v);
        for (auto it = at(n); it != at(0);)
            back.push_back((*--it).v);
        std::reverse(back.begin(), back.end());
        SEQ_EQ(fwd, back, "forward and backward walk");
        PBT_EQ(fwd.size(), cells.size(), "walk length");
    };
    switch (c.draw(4))
    {
    case 0:
        run(It<Cell&>{}, "facade<T&>");
        // writes through the reference
        if (n > 0)
        {
            std::ptrdiff_t i = c.range<std::ptrdiff_t>(0, n - 1);
            It<Cell&> b(cells.data(), 0);
            b[i].v = 12345;
            PBT_EQ(cells[static_cast<size_t>(i)].v, 12345, "write through []");
            (b + i)->v = 54321;
            PBT_EQ(cells[static_cast<size_t>(i)].v, 54321, "write through ->");
            *(b + i) = Cell{3};
            PBT_EQ(cells[static_cast<size_t>(i)].v, 3, "write through *");
        }
        return;
    case 1: return run(It<const Cell&>{}, "facade<const T&>");
    case 2: return run(It<Cell>{}, "facade<T>");
    default: {
        // weaker categories
        c.label("weaker categories");
        if (n > 2)
            c.nontrivial();
        c.log() << "forward/bidirectional walk over " << n << "\n";
        using F = It<Cell&, std::forward_iterator_tag>;
        using B = It<const Cell&, std::bidirectional_iterator_tag>;
        std::ptrdiff_t i = 0;
        for (F f(cells.data(), 0), e(cells.data(), n); f != e; ++i)
        {
            F old = f++;
            PBT_CHECK(old.position() == i && f.position() == i + 1 && old->v == want(i), "forward walk at " << i);
        }
        PBT_EQ(i, n, "forward walk");
        PBT_EQ(std::distance(B(cells.data(), 0), B(cells.data(), n)), n, "std::distance over bidirectional");
        i = n;
        for (B b(cells.data(), n), e(cells.data(), 0); b != e;)
        {
            B old = b--;
            --i;
            PBT_CHECK(old.position() == i + 1 && b.position() == i && b->v == want(i), "bidirectional walk at " << i);
        }
        PBT_EQ(i, std::ptrdiff_t{0}, "bidirectional walk");
    }
    }
}

// --- enum ranges -----------------------------------------------------------------------------------
} // namespace

namespace en {
enum class Small { a, b, c, d };
enum class U8 : std::uint8_t {};
enum class S8 : std::int8_t {};
enum class U16 : std::uint16_t {};
enum class U32 : std::uint32_t {};
enum class S32 : std::int32_t {};
enum class U64 : std::uint64_t {};
enum class S64 : std::int64_t {};
enum class S16W : std::int16_t {};
enum class S32W : std::int32_t {};
enum class U32W : std::uint32_t {};
enum class S64W : std::int64_t {};
enum Unsc : unsigned { u0, u1, u2, u3 };
} // namespace en

#define RANGE(E, LO, HI, OPEN)                                                                   \
    template <>                                                                                  \
    struct kl::enum_traits<en::E>                                                                \
        : kl::enum_trait_support_range<en::E, static_cast<en::E>(LO), static_cast<en::E>(HI), OPEN> \
    {                                                                                            \
        static constexpr std::underlying_type_t<en::E> lo_ = LO, hi_ = HI;                       \
        static constexpr bool open_ = OPEN;                                                      \
    };
RANGE(Small, 0, 3, false)
RANGE(U8, 3, 200, true)
RANGE(S8, -128, 127, true)
RANGE(U16, 65500, 65535, true)
RANGE(U32, 4294967200u, 4294967290u, false)
RANGE(S32, -20, 20, false)
RANGE(U64, 0x7ffffffffffffff0ull, 0x8000000000000010ull, true)
RANGE(S64, -5000000010ll, -5000000000ll, false)
RANGE(S16W, -30000, 30000, false)
RANGE(S32W, -1000000000, 1000000000, true)
RANGE(U32W, 7, UINT32_MAX, true)
RANGE(S64W, -(std::int64_t{1} << 61), std::int64_t{1} << 61, true)
RANGE(Unsc, 1, 3, false)

namespace {

template <typename E>
void enum_case(pbt::Choices& c, const char* name)
{
    using U = std::underlying_type_t<E>;
    using T = kl::enum_traits<E>;
    const auto n = static_cast<std::ptrdiff_t>(static_cast<std::uint64_t>(T::hi_) - static_cast<std::uint64_t>(T::lo_)) + (T::open_ ? 0 : 1);
    auto value = [](std::ptrdiff_t i) { return static_cast<E>(static_cast<U>(static_cast<std::uint64_t>(T::lo_) + static_cast<std::uint64_t>(i))); };

    kl::enum_range<E> r;
    if (n < 1000)
    {
        std::ptrdiff_t i = 0;
        for (E e : kl::enum_range<E>())
        {
            PBT_CHECK(i < n && e == value(i), "enum_range<" << name << "> visits " << +static_cast<U>(e) << " at " << i);
            ++i;
        }
        PBT_EQ(i, n, "enum_range<" << name << "> length");
        std::vector<E> copied(r.begin(), r.end());
        PBT_EQ(copied.size(), static_cast<size_t>(n), "vector(begin, end) of " << name);
    }
    PBT_EQ(r.end() - r.begin(), n, "enum_range<" << name << ">: end - begin");
    PBT_EQ(std::distance(r.begin(), r.end()), n, "enum_range<" << name << ">: std::distance");
    PBT_CHECK(kl::enum_iterator<E>{} == r.end(), "default enum_iterator is not the end");
    // binary search relies on the difference and advance
    std::ptrdiff_t goal = c.range<std::ptrdiff_t>(0, n - 1);
    auto found = std::lower_bound(r.begin(), r.end(), value(goal));
    PBT_CHECK(found == r.begin() + goal && *found == value(goal), "lower_bound in enum_range<" << name << "> for " << goal);

    using I = kl::enum_iterator<E>;
    laws<I>(
        c, name, n, [&](std::ptrdiff_t k) { return I{value(k)}; }, [](E e) { return e; }, value);
}

void enums(pbt::Choices& c)
{
    switch (c.draw(13))
    {
    case 8: return enum_case<en::S16W>(c, "S16W");
    case 9: return enum_case<en::S32W>(c, "S32W");
    case 10: return enum_case<en::U32W>(c, "U32W");
    case 11: return enum_case<en::S64W>(c, "S64W");
    case 0: return enum_case<en::Small>(c, "Small");
    case 1: return enum_case<en::U8>(c, "U8");
    case 2: return enum_case<en::S8>(c, "S8");
    case 3: return enum_case<en::U16>(c, "U16");
    case 4: return enum_case<en::U32>(c, "U32");
    case 5: return enum_case<en::S32>(c, "S32");
    case 6: return enum_case<en::U64>(c, "U64");
    case 7: return enum_case<en::S64>(c, "S64");
    default: return enum_case<en::Unsc>(c, "Unsc");
    }
}
} // namespace

void property(pbt::Choices& c)
{
    switch (c.weighted({3, 1, 1, 1, 3, 3}))
    {
    case 0: return zipping(c);
    case 1: return enumerating(c);
    case 2:
        switch (c.draw(5))
        {
        case 0: return iota_case<int>(c, "int");
        case 1: return iota_case<std::uint8_t>(c, "uint8");
        case 2: return iota_case<std::size_t>(c, "size_t");
        case 3: return iota_case<std::int64_t>(c, "int64");
        default: return iota_case<signed char>(c, "schar");
        }
    case 3: {
        auto v = ints(c);
        switch (c.draw(3))
        {
        case 0: return range_case(c, v, "vector");
        case 1: return range_case(c, std::list<int>(v.begin(), v.end()), "list");
        default: return range_case(c, std::deque<int>(v.begin(), v.end()), "deque");
        }
    }
    case 4: return facades(c);
    default: return enums(c);
    }
}

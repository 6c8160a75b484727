// C28: deferred actions, overload matching and tuple helpers.
#include <cstdint>

#include "pbt.hpp"
#include <sstream>

#include <cmath>
#include <list>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>

#include "kl/defer.hpp"
#include "kl/match.hpp"
#include "kl/tuple.hpp"
#include "kl/type_traits.hpp"
#include "kl/meta.hpp"
#include "kl/utility.hpp"

const char* const property_rule =
    "non-trivial: a scope program with at least two guards and a non-normal exit, or a match/tuple case (all of these)";

namespace {

// ------------------------------------------------------------------------------------- defer
enum class Exit
{
    normal,
    ret,
    thrown,
    brk,
    cont
};

struct Thrown
{
    int id;
};

struct Program
{
    struct Node
    {
        int guards;      // 0..3 guards, placed around the children
        int shape;       // which of the compiled scope shapes
        Exit exit;
        std::vector<Node> kids;
        bool caught; // an exception out of the kids is caught here
        bool unwinding; // the kids run in a destructor while an exception is in flight (implies caught)
    };
};

struct Trace
{
    std::vector<int> ev;
    int next = 0;
};

// Simulated: guards of a scope are numbered in order of declaration; when the scope ends they run in
// reverse.  Events: +id declared, -id ran, 1000000+x marker of a body.
Program::Node gen_node(pbt::Choices& c, int depth)
{
    Program::Node n;
    n.shape = static_cast<int>(c.draw(4));
    n.guards = static_cast<int>(c.draw(4));
    n.exit = static_cast<Exit>(c.draw(5));
    n.caught = c.chance(1, 3);
    n.unwinding = c.chance(1, 5);
    n.caught |= n.unwinding;
    if (depth < 4)
        for (size_t k = c.below(3); k; --k)
            n.kids.push_back(gen_node(c, depth + 1));
    return n;
}

struct Model
{
    Trace t;
    // returns true when an exception leaves the node
    bool run(const Program::Node& n)
    {
        std::vector<int> ids;
        auto declare = [&] {
            int id = ++t.next;
            ids.push_back(id);
            t.ev.push_back(id);
        };
        auto finish = [&] {
            for (size_t i = ids.size(); i; --i)
                t.ev.push_back(-ids[i - 1]);
            ids.clear();
        };
        auto kids = [&]() -> bool {
            for (auto& k : n.kids)
                if (run(k))
                {
                    if (n.caught)
                    {
                        t.ev.push_back(3000000);
                        continue;
                    }
                    return true;
                }
            return false;
        };
        if (n.shape == 3)
        {
            // loop of two rounds, one guard per round
            for (int round = 0; round < 2; ++round)
            {
                declare();
                t.ev.push_back(1000000 + round);
                if (round == 0 && kids())
                {
                    finish();
                    return true;
                }
                if (n.exit == Exit::cont)
                {
                    finish();
                    continue;
                }
                if (n.exit == Exit::brk)
                {
                    finish();
                    break;
                }
                if (n.exit == Exit::ret)
                {
                    finish();
                    return false;
                }
                if (n.exit == Exit::thrown)
                {
                    finish();
                    return true;
                }
                t.ev.push_back(2000000 + round);
                finish();
            }
            return false;
        }
        for (int g = 0; g < n.guards; ++g)
        {
            declare();
            if (g == 0 && n.shape == 1)
            {
                if (kids())
                {
                    finish();
                    return true;
                }
            }
            // an exit between the guards
            if (g == 1 && n.shape == 2)
            {
                if (n.exit == Exit::ret)
                {
                    finish();
                    return false;
                }
                if (n.exit == Exit::thrown)
                {
                    finish();
                    return true;
                }
            }
        }
        if (n.shape != 1)
            if (kids())
            {
                finish();
                return true;
            }
        t.ev.push_back(1000000);
        if (n.exit == Exit::thrown)
        {
            finish();
            return true;
        }
        finish();
        return false;
    }
};

struct Real
{
    Trace t;
    int declare()
    {
        int id = ++t.next;
        t.ev.push_back(id);
        return id;
    }
    struct Unwind
    {
    };
    struct InDestructor
    {
        Real& r;
        const Program::Node& n;
        ~InDestructor() { r.run_kids(n); }
    };
    void run_catching(const Program::Node& n)
    {
        if (!n.unwinding)
            return run_kids(n);
        try
        {
            InDestructor d{*this, n};
            throw Unwind{};
        }
        catch (const Unwind&)
        {
        }
    }
    void run_kids(const Program::Node& n)
    {
        for (auto& k : n.kids)
        {
            if (n.caught)
            {
                try
                {
                    run(k);
                }
                catch (const Thrown&)
                {
                    t.ev.push_back(3000000);
                }
            }
            else
                run(k);
        }
    }
    void run(const Program::Node& n)
    {
        if (n.shape == 3)
        {
            for (int round = 0; round < 2; ++round)
            {
                int id = declare();
                KL_DEFER(t.ev.push_back(-id))
                t.ev.push_back(1000000 + round);
                if (round == 0)
                    run_catching(n);
                if (n.exit == Exit::cont)
                    continue;
                if (n.exit == Exit::brk)
                    break;
                if (n.exit == Exit::ret)
                    return;
                if (n.exit == Exit::thrown)
                    throw Thrown{id};
                t.ev.push_back(2000000 + round);
            }
            return;
        }
        switch (n.guards)
        {
        case 0:
            if (n.shape != 1)
                run_catching(n);
            body(n);
            return;
        case 1: {
            int a = declare();
            KL_DEFER(t.ev.push_back(-a));
            run_catching(n);
            body(n);
            return;
        }
        case 2: {
            int a = declare();
            KL_DEFER({ t.ev.push_back(-a); });
            if (n.shape == 1)
                run_catching(n);
            int b = declare();
            KL_DEFER({ int x = -b, y = 0; t.ev.push_back(x + y); });
            if (n.shape == 2)
            {
                if (n.exit == Exit::ret)
                    return;
                if (n.exit == Exit::thrown)
                    throw Thrown{a};
            }
            if (n.shape != 1)
                run_catching(n);
            body(n);
            return;
        }
        default: {
            int a = declare();
            // by reference: sees the value at the end of the scope
            int seen_a = 0;
            KL_DEFER(t.ev.push_back(seen_a));
            seen_a = -a;
            if (n.shape == 1)
                run_catching(n);
            int b = declare(); KL_DEFER(t.ev.push_back(-b)); if (n.shape == 2 && n.exit == Exit::ret) return;
            if (n.shape == 2 && n.exit == Exit::thrown)
                throw Thrown{b};
            int d = declare();
            KL_DEFER(t.ev.push_back(-d));
            if (n.shape != 1)
                run_catching(n);
            body(n);
            return;
        }
        }
    }
    void body(const Program::Node& n)
    {
        t.ev.push_back(1000000);
        if (n.exit == Exit::thrown)
            throw Thrown{-1};
    }
};

int count_guards(const Program::Node& n)
{
    int r = n.shape == 3 ? 2 : n.guards;
    for (auto& k : n.kids)
        r += count_guards(k);
    return r;
}
void print(std::ostream& os, const Program::Node& n, int ind)
{
    os << std::string(static_cast<size_t>(ind) * 2, ' ') << "shape " << n.shape << " guards " << n.guards << " exit "
       << static_cast<int>(n.exit) << (n.caught ? " catching" : "") << "\n";
    for (auto& k : n.kids)
        print(os, k, ind + 1);
}

void defer_case(pbt::Choices& c)
{
    c.label("defer");
    Program::Node root = gen_node(c, 0);
    {
        std::ostringstream o;
        print(o, root, 0);
        c.log() << o.str();
    }
    Model m;
    bool want_throw = m.run(root);
    Real r;
    bool threw = false;
    try
    {
        r.run(root);
    }
    catch (const Thrown&)
    {
        threw = true;
    }
    PBT_EQ(threw, want_throw, "exception left the scope program");
    if (r.t.ev != m.t.ev)
    {
        std::ostringstream o;
        o << "events: got";
        for (int e : r.t.ev)
            o << ' ' << e;
        o << ", expected";
        for (int e : m.t.ev)
            o << ' ' << e;
        PBT_FAIL(o.str());
    }
    if (count_guards(root) >= 2 && (want_throw || root.exit != Exit::normal))
        c.nontrivial();
}

// ------------------------------------------------------------------------------------- match
struct Counted
{
    int v = 0;
    static inline int copies = 0, moves = 0;
    Counted() = default;
    explicit Counted(int x) : v(x) {}
    Counted(const Counted& o) : v(o.v) { ++copies; }
    Counted(Counted&& o) noexcept : v(o.v)
    {
        o.v = -777;
        ++moves;
    }
    Counted& operator=(const Counted&) = default;
};

int free_calls = 0;
std::string free_double(double d)
{
    ++free_calls;
    return "free " + std::to_string(d);
}
std::string free_string_ref(const std::string& s)
{
    ++free_calls;
    return "fref " + s;
}
void append_x(std::string& s) { s += "x"; }

using Var = std::variant<int, double, std::string, Counted, std::vector<int>, std::unique_ptr<int>>;

void match_case(pbt::Choices& c)
{
    c.label("match");
    c.nontrivial();
    size_t which = c.below(6);
    int i = c.integer<int>();
    double d = static_cast<double>(c.integer<int32_t>()) / 8;
    std::string s = c.over("abc", 6);
    auto make = [&]() -> Var {
        switch (which)
        {
        case 0: return i;
        case 1: return d;
        case 2: return s;
        case 3: return Var{std::in_place_type<Counted>, i};
        case 4: return std::vector<int>(c.below(4), i);
        default: return std::make_unique<int>(i);
        }
    };
    Var v = make();
    c.log() << "alternative " << which << " i=" << i << " d=" << d << " s=" << s << "\n";
    std::string want;
    size_t vec = which == 4 ? std::get<4>(v).size() : 0;
    switch (which)
    {
    case 0: want = "int " + std::to_string(i); break;
    case 1: want = "double " + std::to_string(d); break;
    case 2: want = "string " + s; break;
    case 3: want = "counted " + std::to_string(i); break;
    case 4: want = "vec " + std::to_string(vec); break;
    default: want = "ptr " + std::to_string(i);
    }
    int calls = 0;
    auto fi = [&](int x) { ++calls; return "int " + std::to_string(x); };
    auto fd = [&](double x) { ++calls; return "double " + std::to_string(x); };
    auto fs = [&](const std::string& x) { ++calls; return "string " + x; };
    auto fc = [&](const Counted& x) { ++calls; return "counted " + std::to_string(x.v); };
    auto fv = [&](const std::vector<int>& x) { ++calls; return "vec " + std::to_string(x.size()); };
    auto fp = [&](const std::unique_ptr<int>& x) { ++calls; return "ptr " + std::to_string(*x); };
    Counted::copies = Counted::moves = 0;
    // any order of the handlers, const and mutable, lvalue and rvalue
    std::string got;
    switch (c.draw(4))
    {
    case 0: got = kl::match(v, fi, fd, fs, fc, fv, fp); break;
    case 1: got = kl::match(std::as_const(v), fp, fv, fc, fs, fd, fi); break;
    case 2: got = kl::match(std::move(v), fc, fi, fp, fd, fv, fs); break;
    default: got = std::visit(kl::overloader{fi, fd, fs, fc, fv, fp}, v);
    }
    PBT_EQ(got, want, "match result");
    PBT_EQ(calls, 1, "number of handlers called");
    PBT_EQ(Counted::copies + Counted::moves, 0, "matching copied or moved the held value");
    PBT_EQ(v.index(), which, "matching changed the variant");
    PBT_EQ(kl::match(v, fi, fd, fs, fc, fv, fp), want, "matching again");

    // mutation through the reference: the held object itself
    const void* addr = nullptr;
    kl::match(
        v, [&](int& x) { addr = &x; x ^= 1; }, [&](double& x) { addr = &x; x += 1; },
        [&](std::string& x) { addr = &x; x += "!"; }, [&](Counted& x) { addr = &x; x.v ^= 1; },
        [&](std::vector<int>& x) { addr = &x; x.push_back(5); }, [&](std::unique_ptr<int>& x) { addr = &x; *x ^= 1; });
    const void* held = std::visit([](auto& x) -> const void* { return &x; }, v);
    PBT_CHECK(addr == held, "handler did not get the held object");
    switch (which)
    {
    case 0: PBT_EQ(std::get<0>(v), (i ^ 1), "mutated int"); break;
    case 1: PBT_EQ(std::get<1>(v), d + 1, "mutated double"); break;
    case 2: PBT_EQ(std::get<2>(v), s + "!", "mutated string"); break;
    case 3: PBT_EQ(std::get<3>(v).v, (i ^ 1), "mutated object"); break;
    case 4: PBT_EQ(std::get<4>(v).size(), vec + 1, "mutated vector"); break;
    default: PBT_EQ(*std::get<5>(v), (i ^ 1), "mutated pointee");
    }
    // generic fallback, overload preference for the exact type
    std::string g = kl::match(v, [](int) { return std::string("int"); }, [](const std::string&) { return std::string("string"); },
                              [](const auto&) { return std::string("other"); });
    PBT_EQ(g, std::string(which == 0 ? "int" : which == 2 ? "string" : "other"), "fallback handler");

    // free functions through func_overload
    std::variant<double, std::string> w;
    if (c.flip())
        w = d;
    else
        w = s;
    free_calls = 0;
    std::string fr = kl::match(w, kl::func_overload{&free_double}, kl::func_overload{&free_string_ref});
    PBT_EQ(fr, (w.index() == 0 ? "free " + std::to_string(d) : "fref " + s), "func_overload result");
    PBT_EQ(free_calls, 1, "func_overload calls");
    if (w.index() == 1)
    {
        std::variant<std::string> only{s};
        kl::match(only, kl::func_overload{&append_x});
        PBT_EQ(std::get<0>(only), s + "x", "func_overload passes a mutable reference through");
    }
    // exceptions of a handler propagate
    bool thrown = false;
    try
    {
        kl::match(v, [&](const auto&) -> int { throw Thrown{i}; });
    }
    catch (const Thrown& t)
    {
        thrown = t.id == i;
    }
    PBT_CHECK(thrown, "exception of a handler did not propagate");
    // valueless
    struct Bomb
    {
        Bomb() = default;
        Bomb(const Bomb&) { throw 1; }
        Bomb& operator=(const Bomb&) { throw 1; }
    };
    std::variant<int, Bomb> dead{1};
    try
    {
        Bomb b;
        dead.emplace<Bomb>(b);
    }
    catch (int)
    {
    }
    bool bad = false;
    try
    {
        kl::match(dead, [](const auto&) {});
    }
    catch (const std::bad_variant_access&)
    {
        bad = true;
    }
    PBT_CHECK(bad, "matching a valueless variant");
}

// ------------------------------------------------------------------------------------- tuple
template <size_t... I>
auto tuple_of(const std::vector<int>& v, std::index_sequence<I...>)
{
    return std::make_tuple(v[I]...);
}

template <size_t N>
void tuple_n(pbt::Choices& c)
{
    std::vector<int> a, b;
    for (size_t i = 0; i < N; ++i)
    {
        a.push_back(static_cast<int>(c.draw(4)));
        b.push_back(static_cast<int>(c.draw(4)));
    }
    auto ta = tuple_of(a, std::make_index_sequence<N>{});
    auto tb = tuple_of(b, std::make_index_sequence<N>{});
    c.log() << "tuple of " << N << "\n";
    // for_each: every element once, in order, by reference
    std::vector<int> seen;
    kl::tuple::for_each_fn::call(ta, [&](int& x) {
        seen.push_back(x);
        x += 10;
    });
    PBT_CHECK(seen == a, "for_each order");
    seen.clear();
    kl::tuple::for_each_fn::call(std::as_const(ta), [&](const int& x) { seen.push_back(x - 10); });
    PBT_CHECK(seen == a, "for_each writes through");
    // not_equal: every pair differs
    bool want = true;
    for (size_t i = 0; i < N; ++i)
        want = want && (a[i] + 10 != b[i] + 10);
    kl::tuple::for_each_fn::call(tb, [](int& x) { x += 10; });
    PBT_EQ(kl::tuple::not_equal_fn::call(ta, tb), want, "not_equal");
    PBT_EQ(kl::tuple::not_equal_fn::call(std::as_const(tb), ta), want, "not_equal swapped");
    PBT_EQ(kl::tuple::not_equal_fn::call(ta, ta), N == 0, "not_equal to itself");
    // transform_ref over pointers
    auto deref = std::apply([](auto&... e) { return std::make_tuple(&e...); }, ta);
    auto refs = kl::tuple::transform_ref_fn::call(deref);
    kl::tuple::for_each_fn::call(refs, [](int& x) { x = -x; });
    seen.clear();
    kl::tuple::for_each_fn::call(ta, [&](int x) { seen.push_back(-x - 10); });
    PBT_CHECK(seen == a, "transform_ref refers to the elements");
}

void tuple_case(pbt::Choices& c)
{
    c.label("tuple");
    c.nontrivial();
    switch (c.draw(6))
    {
    case 0: tuple_n<0>(c); break;
    case 1: tuple_n<1>(c); break;
    case 2: tuple_n<2>(c); break;
    case 3: tuple_n<3>(c); break;
    case 4: tuple_n<5>(c); break;
    default: tuple_n<8>(c);
    }
    // mixed dereferencables
    std::vector<int16_t> vec{1, 2, 3};
    std::list<std::string> lst{"a", "b"};
    double d = 1.5;
    std::optional<double> od{2.5};
    size_t k = c.below(3);
    auto tup = std::make_tuple(vec.cbegin() + static_cast<long>(k), lst.begin(), &d);
    auto r = kl::tuple::transform_ref_fn::call(tup);
    PBT_CHECK((std::is_same_v<decltype(r), std::tuple<const int16_t&, std::string&, double&>>), "type of transform_ref");
    PBT_CHECK(&std::get<0>(r) == &vec[k] && &std::get<1>(r) == &lst.front() && &std::get<2>(r) == &d, "transform_ref targets");
    auto ot = std::make_tuple(od, &d);
    auto r2 = kl::tuple::transform_ref_fn::call(ot);
    PBT_CHECK((std::is_same_v<std::tuple_element_t<0, decltype(r2)>, double&>), "type of transform_ref");
    PBT_CHECK(&std::get<0>(r2) == &*std::get<0>(ot), "transform_ref of an optional");
    // rvalue tuples: elements are forwarded
    std::vector<std::unique_ptr<int>> got;
    int x = c.integer<int>();
    kl::tuple::for_each_fn::call(std::make_tuple(std::make_unique<int>(x), std::make_unique<int>(x ^ 1)),
                                 [&](std::unique_ptr<int>&& p) { got.push_back(std::move(p)); });
    PBT_CHECK(got.size() == 2 && *got[0] == x && *got[1] == (x ^ 1), "for_each over an rvalue tuple");
}

// ------------------------------------------------------------------------------------- casts
enum class E8 : int8_t
{
};
enum class EU64 : uint64_t
{
};
enum EI : int
{
};
struct Pod
{
    uint16_t a, b;
    uint32_t c;
    friend bool operator==(const Pod& l, const Pod& r) { return l.a == r.a && l.b == r.b && l.c == r.c; }
};

void cast_case(pbt::Choices& c)
{
    c.label("casts");
    c.nontrivial();
    auto i8 = c.integer<int8_t>();
    auto u64 = c.integer<uint64_t>();
    auto i32 = c.integer<int32_t>();
    PBT_CHECK(kl::underlying_cast(static_cast<E8>(i8)) == i8, "underlying_cast int8");
    PBT_CHECK(kl::underlying_cast(static_cast<EU64>(u64)) == u64, "underlying_cast uint64");
    PBT_CHECK(kl::underlying_cast(static_cast<EI>(i32)) == i32, "underlying_cast int");
    PBT_CHECK((std::is_same_v<decltype(kl::underlying_cast(E8{})), int8_t>), "type of underlying_cast");
    PBT_CHECK((std::is_same_v<decltype(kl::underlying_cast(EU64{})), uint64_t>), "type of underlying_cast");
    c.log() << "bits " << u64 << "\n";
    double d = kl::bit_cast<double>(u64);
    PBT_CHECK(std::memcmp(&d, &u64, 8) == 0, "bit_cast to double");
    PBT_EQ(kl::bit_cast<uint64_t>(d), u64, "bit_cast back");
    Pod p = kl::bit_cast<Pod>(u64);
    PBT_CHECK(kl::bit_cast<uint64_t>(p) == u64 && kl::bit_cast<Pod>(u64) == p, "bit_cast struct");
    auto arr = kl::bit_cast<std::array<unsigned char, 4>>(i32);
    PBT_EQ(kl::bit_cast<int32_t>(arr), i32, "bit_cast bytes");
}

// Facts about types, evaluated at run time so that a wrong one is a reported failure.
struct Fn
{
    int f(char, double&) const;
    void g();
    int m;
    const std::string cm;
};
KL_HAS_TYPEDEF_HELPER(value_type)
KL_VALID_EXPR_HELPER(has_size, std::declval<T&>().size())
int ranked(kl::priority_tag<0>) { return 0; }
int ranked(kl::priority_tag<2>) { return 2; }
int ranked(kl::priority_tag<5>) { return 5; }
long free_fn(int, const std::string&);

void type_facts()
{
#define SAME_T(...) PBT_CHECK((std::is_same_v<__VA_ARGS__>), #__VA_ARGS__)
#define FACT(...) PBT_CHECK((__VA_ARGS__), #__VA_ARGS__)
    SAME_T(kl::at_type_t<0, int, double&, char>, int);
    SAME_T(kl::at_type_t<1, int, double&, char>, double&);
    SAME_T(kl::at_type_t<2, int, double&, const char>, const char);
    SAME_T(kl::type_pack<int, char, float>::extract<2>::type, float);
    FACT(kl::type_pack<>::value == 0 && kl::type_pack<int, int, int>::value == 3);
    SAME_T(kl::push_front_t<int, kl::type_pack<char, int>>, kl::type_pack<int, char, int>);
    SAME_T(kl::filter_t<std::is_integral, int, double, char, float, bool>, kl::type_pack<int, char, bool>);
    SAME_T(kl::filter_t<std::is_integral, kl::type_pack<double, long>>, kl::type_pack<long>);
    SAME_T(kl::filter_t<std::is_pointer, int, double>, kl::type_pack<>);
    SAME_T(kl::filter_t<std::is_integral, double, int, int>, kl::type_pack<int, int>);
    FACT(kl::is_same_v<int, int, int> && kl::is_same_v<int, int> && !kl::is_same_v<int, long>);
    FACT(!kl::is_same_v<int, int, long> && !kl::is_same_v<long, int, int> && !kl::is_same_v<int, long, int> && !kl::is_same_v<int, int, int, char>);
    FACT(kl::func_traits<decltype(&Fn::f)>::arity == 2);
    SAME_T(kl::func_traits<decltype(&Fn::f)>::arg_t<0>, char);
    SAME_T(kl::func_traits<decltype(&Fn::f)>::arg_t<1>, double&);
    SAME_T(kl::func_traits<decltype(&Fn::f)>::class_type, Fn);
    SAME_T(kl::func_traits<decltype(&Fn::f)>::return_type, int);
    FACT(kl::func_traits<decltype(&Fn::g)>::arity == 0);
    SAME_T(kl::func_traits<decltype(&Fn::g)>::return_type, void);
    FACT(kl::func_traits<void (*)(int)>::arity == 1);
    SAME_T(kl::func_traits<decltype(free_fn)>::signature_type, long(int, const std::string&));
    SAME_T(kl::func_traits<decltype(&free_fn)&>::arg_t<1>, const std::string&);
    auto lambda = [](char, std::string&&) mutable { return 1.5f; };
    FACT(kl::func_traits<decltype(lambda)>::arity == 2 && kl::func_traits<decltype(lambda)&>::arity == 2);
    SAME_T(kl::func_traits<decltype(lambda)&&>::return_type, float);
    SAME_T(kl::func_traits<decltype(lambda)>::arg_t<1>, std::string&&);
    SAME_T(kl::func_traits<decltype(lambda)>::args_type, kl::type_pack<char, std::string&&>);
    SAME_T(kl::member_pointer_traits<&Fn::m>::value_type, int);
    SAME_T(kl::member_pointer_traits<&Fn::m>::class_type, Fn);
    SAME_T(kl::member_pointer_traits<&Fn::cm>::value_type, const std::string);
    SAME_T(kl::remove_cvref_t<const volatile int&>, int);
    SAME_T(kl::remove_cvref_t<const std::string&&>, std::string);
    SAME_T(kl::remove_cvref_t<const int*>, const int*);
    FACT(!kl::always_false_v<int>);
    FACT(has_value_type_v<std::vector<int>> && !has_value_type_v<int> && !has_value_type_v<Fn>);
    FACT(has_size_v<std::string> && !has_size_v<int> && !has_size_v<Fn>);
    FACT(std::is_convertible_v<kl::priority_tag<7>, kl::priority_tag<0>> && !std::is_convertible_v<kl::priority_tag<0>, kl::priority_tag<1>>);
    FACT(ranked(kl::priority_tag<9>{}) == 5 && ranked(kl::priority_tag<5>{}) == 5 && ranked(kl::priority_tag<4>{}) == 2 &&
         ranked(kl::priority_tag<1>{}) == 0);
}

} // namespace

void property(pbt::Choices& c)
{
    switch (c.draw(6))
    {
    case 0:
    case 1:
    case 2: defer_case(c); break;
    case 3: match_case(c); break;
    case 4: tuple_case(c); break;
    default:
        cast_case(c);
        type_facts();
    }
}

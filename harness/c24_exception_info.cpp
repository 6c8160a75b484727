// C24: exception info as an independent tagged stack, through copies and throws.
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "pbt.hpp"
#include "kl/exception_info.hpp"

const char* const property_rule =
    "the history copies or throws an info object that holds at least one value and changes one of the copies afterwards";

namespace xt {
struct t_int { using type = int; };
struct t_int2 { using type = int; };
struct t_str { using type = std::string; };
struct t_ptr { using type = std::unique_ptr<int>; };
struct Pod { unsigned char b[3]; };
struct t_pod { using type = Pod; };

struct StdErr : std::runtime_error
{
    StdErr(std::string w, int p) : std::runtime_error(w), payload(p) {}
    int payload;
};
struct Poly
{
    explicit Poly(int p, std::string t) : payload(p), text(std::move(t)) {}
    virtual ~Poly() = default;
    int payload;
    std::string text;
};
struct Plain
{
    int payload;
    std::string text;
};
} // namespace xt

namespace {

using namespace xt;

struct Entry
{
    int tag;
    int v;
};

struct Model
{
    const char* file = nullptr;
    int line = 0;
    const char* function = nullptr;
    std::vector<Entry> stack; // back = most recent

    const Entry* find(int tag) const
    {
        for (size_t i = stack.size(); i-- > 0;)
            if (stack[i].tag == tag)
                return &stack[i];
        return nullptr;
    }
    void unset(int tag)
    {
        for (size_t i = stack.size(); i-- > 0;)
            if (stack[i].tag == tag)
            {
                stack.erase(stack.begin() + static_cast<std::ptrdiff_t>(i));
                return;
            }
    }
};

std::string str_of(int v) { return "s" + std::to_string(v) + (v % 3 == 0 ? std::string(40, 'x') : ""); }
Pod pod_of(int v)
{
    return Pod{{static_cast<unsigned char>(v), static_cast<unsigned char>(v * 7), static_cast<unsigned char>(255 - v)}};
}

std::string line_of(const Entry& e)
{
    std::ostringstream ss;
    switch (e.tag)
    {
    case 0: ss << "xt::t_int = " << e.v; break;
    case 1: ss << "xt::t_int2 = " << e.v; break;
    case 2: ss << "xt::t_str = " << str_of(e.v); break;
    case 3: ss << "xt::t_ptr = "; break; // pointer value: only the tag is predictable
    default: {
        auto p = pod_of(e.v);
        char buf[32];
        std::snprintf(buf, sizeof buf, "[%02X %02X %02X]", p.b[0], p.b[1], p.b[2]);
        ss << "xt::t_pod = " << buf;
    }
    }
    return ss.str();
}

std::vector<std::string> lines_of(const std::string& s)
{
    std::vector<std::string> r;
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l))
    {
        if (l.rfind("xt::t_ptr = ", 0) == 0)
            l = "xt::t_ptr = ";
        r.push_back(l);
    }
    return r;
}

std::string header(const Model& m)
{
    std::string r = m.file ? std::string(m.file) + "(" + std::to_string(m.line) + ")" : "<unknown-file>";
    return r + ": throw_with_info in function " + (m.function ? m.function : "<unknown-function>");
}

void check_text(const std::string& text, std::vector<std::string> head, const Model& m, const char* where)
{
    auto got = lines_of(text);
    PBT_CHECK(got.size() == head.size() + m.stack.size(), where << ": diagnostic text has " << got.size() << " lines: " << text);
    for (size_t i = 0; i < head.size(); ++i)
        PBT_EQ(got[i], head[i], where << ": diagnostic line " << i);
    std::vector<std::string> rest(got.begin() + static_cast<std::ptrdiff_t>(head.size()), got.end());
    std::vector<std::string> want;
    for (auto& e : m.stack)
        want.push_back(line_of(e));
    std::sort(rest.begin(), rest.end());
    std::sort(want.begin(), want.end());
    PBT_CHECK(rest == want, where << ": diagnostic text does not list exactly the tagged values: " << text);
}

template <typename Info>
void check_lookup(Info& xi, const Model& m, const char* where)
{
    auto bad = [&](const char* tag, const Entry* e) {
        PBT_FAIL(where << ": get<" << tag << "> does not give " << (e ? "value " + std::to_string(e->v) : std::string("null")) << " (stack of " << m.stack.size() << ")");
    };
    {
        auto* e = m.find(0);
        auto* p = xi.template get<t_int>();
        if (!p != !e || (p && *p != e->v))
            bad("t_int", e);
    }
    {
        auto* e = m.find(1);
        auto* p = xi.template get<t_int2>();
        if (!p != !e || (p && *p != e->v))
            bad("t_int2", e);
    }
    {
        auto* e = m.find(2);
        auto* p = xi.template get<t_str>();
        if (!p != !e || (p && *p != str_of(e->v)))
            bad("t_str", e);
    }
    {
        auto* e = m.find(3);
        auto* p = xi.template get<t_ptr>();
        if (!p != !e || (p && (!*p || **p != e->v)))
            bad("t_ptr", e);
    }
    {
        auto* e = m.find(4);
        auto* p = xi.template get<t_pod>();
        Pod want = pod_of(e ? e->v : 0);
        if (!p != !e || (p && std::memcmp(p->b, want.b, 3) != 0))
            bad("t_pod", e);
    }
}

void check_info(kl::exception_info& xi, const Model& m, const char* where)
{
    PBT_CHECK(xi.file() == m.file && xi.line() == m.line && xi.function() == m.function, where << ": source location changed");
    check_lookup(xi, m, where);
    const auto& cx = xi;
    check_lookup(cx, m, where);
    check_text(xi.diagnostic_info(), {header(m)}, m, where);
}

void do_set(kl::exception_info& xi, Model& m, int tag, int v, bool rvalue)
{
    kl::exception_info* r = nullptr;
    switch (tag)
    {
    case 0: r = rvalue ? &xi.set<t_int>(int{v}) : &xi.set<t_int>(v); break;
    case 1: r = rvalue ? &xi.set<t_int2>(int{v}) : &xi.set<t_int2>(v); break;
    case 2: {
        const std::string s = str_of(v);
        r = rvalue ? &xi.set<t_str>(str_of(v)) : &xi.set<t_str>(s);
        break;
    }
    case 3: r = &xi.set<t_ptr>(std::make_unique<int>(v)); break;
    default: {
        const Pod p = pod_of(v);
        r = rvalue ? &xi.set<t_pod>(pod_of(v)) : &xi.set<t_pod>(p);
    }
    }
    PBT_CHECK(r == &xi, "set does not return its object");
    m.stack.push_back({tag, v});
}

void do_unset(kl::exception_info& xi, Model& m, int tag)
{
    kl::exception_info* r = nullptr;
    switch (tag)
    {
    case 0: r = &xi.unset<t_int>(); break;
    case 1: r = &xi.unset<t_int2>(); break;
    case 2: r = &xi.unset<t_str>(); break;
    case 3: r = &xi.unset<t_ptr>(); break;
    default: r = &xi.unset<t_pod>();
    }
    PBT_CHECK(r == &xi, "unset does not return its object");
    m.unset(tag);
}

struct Thrown // an exception in flight, kept by exception_ptr
{
    std::exception_ptr ptr;
    Model m;
    int kind;
    int payload;
    std::string text;
};

// Checks the exception currently being handled, by every handler type that must match.
void check_thrown(Thrown& t)
{
    static const char* const type_names[] = {"xt::StdErr", "xt::Poly", "xt::Plain"};
    std::vector<std::string> head{std::string("dynamic exception type: ") + type_names[t.kind]};
    if (t.kind == 0)
        head.push_back("what: " + t.text);
    head.push_back(header(t.m));
    check_text(kl::exception_diagnostic_info(t.ptr), head, t.m, "exception_diagnostic_info(exception_ptr)");
    bool seen = false;
    try
    {
        std::rethrow_exception(t.ptr);
    }
    catch (kl::exception_info& xi)
    {
        seen = true;
        check_info(xi, t.m, "caught as exception_info");
        PBT_CHECK(kl::get_exception_info(xi) == &xi, "get_exception_info of an exception_info");
        check_text(kl::exception_diagnostic_info(xi), head, t.m, "exception_diagnostic_info(exception_info)");
    }
    PBT_CHECK(seen, "not caught as exception_info");
    seen = false;
    switch (t.kind)
    {
    case 0:
        try
        {
            std::rethrow_exception(t.ptr);
        }
        catch (StdErr& e)
        {
            seen = true;
            PBT_CHECK(e.payload == t.payload && e.what() == t.text, "content of the thrown exception changed");
            auto* xi = kl::get_exception_info(e);
            PBT_CHECK(xi, "no info on caught exception");
            check_info(*xi, t.m, "caught as its own type");
            const StdErr& ce = e;
            PBT_CHECK(kl::get_exception_info(ce) == xi, "const get_exception_info");
            check_text(kl::exception_diagnostic_info(e), head, t.m, "exception_diagnostic_info(E)");
        }
        PBT_CHECK(seen, "not caught as its own type");
        seen = false;
        try
        {
            std::rethrow_exception(t.ptr);
        }
        catch (const std::exception& e)
        {
            seen = true;
            PBT_EQ(std::string(e.what()), t.text, "what() through std::exception");
            PBT_CHECK(kl::get_exception_info(e), "no info through std::exception");
            check_text(kl::exception_diagnostic_info(e), head, t.m, "exception_diagnostic_info(std::exception)");
        }
        PBT_CHECK(seen, "not caught as std::exception");
        break;
    case 1:
        try
        {
            std::rethrow_exception(t.ptr);
        }
        catch (const Poly& e)
        {
            seen = true;
            PBT_CHECK(e.payload == t.payload && e.text == t.text, "content of the thrown exception changed");
            PBT_CHECK(kl::get_exception_info(e), "no info on caught exception");
            check_text(kl::exception_diagnostic_info(e), head, t.m, "exception_diagnostic_info(E)");
        }
        PBT_CHECK(seen, "not caught as its own type");
        break;
    default:
        try
        {
            std::rethrow_exception(t.ptr);
        }
        catch (const Plain& e)
        {
            seen = true;
            PBT_CHECK(e.payload == t.payload && e.text == t.text, "content of the thrown exception changed");
            PBT_EQ(kl::exception_diagnostic_info(e), "dynamic exception type: xt::Plain\n", "diagnostic text of a non-polymorphic exception");
        }
        PBT_CHECK(seen, "not caught as its own type");
    }
}

void plain_checks()
{
    PBT_EQ(kl::exception_diagnostic_info(std::exception_ptr{}), "no exception", "null exception_ptr");
    PBT_EQ(kl::exception_diagnostic_info(std::make_exception_ptr(42)), "dynamic exception type: <unknown-exception>\n", "foreign exception_ptr");
    StdErr plain("w", 1);
    PBT_EQ(kl::exception_diagnostic_info(plain), "dynamic exception type: xt::StdErr\nwhat: w\n", "exception without info");
    PBT_CHECK(kl::get_exception_info(plain) == nullptr, "info on an exception thrown without");
    PBT_EQ(kl::exception_diagnostic_info(std::make_exception_ptr(plain)), "dynamic exception type: xt::StdErr\nwhat: w\n", "exception_ptr without info");
}
} // namespace

void property(pbt::Choices& c)
{
    struct Obj
    {
        kl::exception_info xi;
        Model m;
    };
    std::vector<std::unique_ptr<Obj>> pool;
    std::vector<Thrown> thrown;
    bool shared = false, changed_after = false;
    static const char* const files[] = {"a.cpp", "dir/b.hpp"};
    static const char* const funcs[] = {"void f()", "int g(int)"};

    auto fresh = [&] {
        auto o = std::make_unique<Obj>();
        if (c.flip())
        {
            o->m.file = c.pick(files);
            o->m.line = c.range(0, 9999);
            o->m.function = c.pick(funcs);
            o->xi = kl::exception_info(o->m.file, o->m.line, o->m.function);
        }
        return o;
    };
    pool.push_back(fresh());
    if (c.chance(1, 20))
        plain_checks();

    auto note = [&] {
        if (shared)
            changed_after = true;
    };
    while (c.more(14))
    {
        size_t i = c.below(pool.size());
        Obj& o = *pool[i];
        unsigned op = static_cast<unsigned>(c.weighted({8, 6, 2, 4, 2, 2, 2, 3, 4, 2}));
        switch (op)
        {
        case 0: {
            int tag = static_cast<int>(c.below(5)), v = static_cast<int>(c.below(50));
            c.log() << i << ".set<" << tag << ">(" << v << ")\n";
            do_set(o.xi, o.m, tag, v, c.flip());
            note();
            break;
        }
        case 1: {
            int tag = static_cast<int>(c.below(5));
            c.log() << i << ".unset<" << tag << ">\n";
            c.label_if(o.m.find(tag) && &o.m.stack.back() != o.m.find(tag), "unset below the top");
            do_unset(o.xi, o.m, tag);
            note();
            break;
        }
        case 2:
            if (pool.size() < 5)
            {
                c.log() << "new " << pool.size() << "\n";
                pool.push_back(fresh());
            }
            break;
        case 3:
            if (pool.size() < 5)
            {
                c.log() << pool.size() << " = copy of " << i << "\n";
                auto n = std::make_unique<Obj>(Obj{o.xi, o.m});
                shared |= !o.m.stack.empty();
                pool.push_back(std::move(n));
            }
            break;
        case 4: {
            size_t j = c.below(pool.size());
            c.log() << j << " = " << i << "\n";
            pool[j]->xi = o.xi; // also self-assignment
            pool[j]->m = o.m;
            shared |= !o.m.stack.empty();
            break;
        }
        case 5: {
            size_t j = c.below(pool.size());
            if (j != i)
            {
                c.log() << j << " = move " << i << "\n";
                pool[j]->xi = std::move(o.xi);
                pool[j]->m = o.m;
                pool[i] = fresh(); // the moved-from object is not inspected
            }
            break;
        }
        case 6: {
            c.log() << i << " moved out and back\n";
            kl::exception_info tmp(std::move(o.xi));
            check_info(tmp, o.m, "move-constructed");
            o.xi = std::move(tmp);
            break;
        }
        case 7:
            if (pool.size() > 1)
            {
                c.log() << "destroy " << i << "\n";
                pool.erase(pool.begin() + static_cast<std::ptrdiff_t>(i));
            }
            break;
        case 8: {
            if (thrown.size() >= 4)
                break;
            Thrown t{nullptr, o.m, static_cast<int>(c.below(3)), static_cast<int>(c.below(100)), c.over("abc ", 20)};
            bool by_move = c.chance(1, 3), chain = c.chance(1, 3), lvalue = c.flip();
            c.log() << "throw kind " << t.kind << " with info " << i << (by_move ? " (moved)" : "") << "\n";
            shared |= !o.m.stack.empty();
            auto go = [&](auto& e) {
                using E = std::decay_t<decltype(e)>;
                if constexpr (!std::is_const_v<std::remove_reference_t<decltype(e)>>)
                    if (!chain && !lvalue && c.flip())
                        by_move ? kl::throw_with_info(std::move(e), std::move(o.xi)) : kl::throw_with_info(std::move(e), o.xi);
                if (by_move)
                    lvalue ? kl::throw_with_info(e, std::move(o.xi)) : kl::throw_with_info(E(e), std::move(o.xi));
                else if (chain)
                {
                    t.m.stack.push_back({0, 77});
                    kl::throw_with_info(e, kl::exception_info(o.xi).set<t_int>(77));
                }
                else
                    lvalue ? kl::throw_with_info(e, o.xi) : kl::throw_with_info(E(e), o.xi);
            };
            try
            {
                if (t.kind == 0)
                {
                    struct Sub : StdErr
                    {
                        using StdErr::StdErr;
                    } sub(t.text, t.payload);
                    StdErr plain(t.text, t.payload);
                    StdErr& e = c.flip() ? sub : plain; // what is thrown is a StdErr either way
                    go(e);
                }
                else if (t.kind == 1)
                {
                    const Poly e(t.payload, t.text);
                    go(e);
                }
                else
                {
                    Plain e{t.payload, t.text};
                    go(e);
                }
            }
            catch (...)
            {
                t.ptr = std::current_exception();
            }
            PBT_CHECK(t.ptr, "throw_with_info did not throw");
            if (by_move)
                pool[i] = fresh();
            thrown.push_back(std::move(t));
            break;
        }
        default: {
            if (thrown.empty())
                break;
            size_t k = c.below(thrown.size());
            Thrown& t = thrown[k];
            unsigned how = static_cast<unsigned>(c.draw(4));
            c.log() << "rethrow " << k << " how " << how << "\n";
            int tag = static_cast<int>(c.below(5)), v = static_cast<int>(c.below(50));
            try
            {
                try
                {
                    std::rethrow_exception(t.ptr);
                }
                catch (kl::exception_info& xi)
                {
                    // add or remove information on the way up, then continue throwing
                    if (how == 0)
                        do_set(xi, t.m, tag, v, false), note();
                    else if (how == 1)
                        do_unset(xi, t.m, tag), note();
                    else if (how == 2 && pool.size() < 5)
                    {
                        pool.push_back(std::make_unique<Obj>(Obj{xi, t.m}));
                        shared |= !t.m.stack.empty();
                    }
                    else if (how == 3)
                    {
                        o.xi = xi;
                        o.m = t.m;
                        shared |= !t.m.stack.empty();
                    }
                    throw;
                }
            }
            catch (const pbt::Failure&)
            {
                throw;
            }
            catch (...)
            {
                t.ptr = std::current_exception();
            }
            break;
        }
        }
        for (size_t k = 0; k < pool.size(); ++k)
        {
            std::string where = "object " + std::to_string(k);
            check_info(pool[k]->xi, pool[k]->m, where.c_str());
        }
        for (auto& t : thrown)
            check_thrown(t);
    }
    c.label_if(!thrown.empty(), "thrown");
    c.label_if(changed_after, "changed after sharing");
    if (changed_after)
        c.nontrivial();
    {
        kl::exception_info made = KL_MAKE_EXCEPTION_INFO();
        int here = __LINE__ - 1;
        PBT_CHECK(made.file() && std::string(made.file()) == __FILE__ && made.line() == here && std::string(made.function()).find("property") != std::string::npos,
                  "KL_MAKE_EXCEPTION_INFO does not describe its location");
    }
}

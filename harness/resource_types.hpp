// The reflected resource used by C05-C08 (types only; the model is in resource_common.hpp).
#pragma once

#include <array>
#include <deque>
#include <exception>
#include <list>
#include <map>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

#include "kl/json.hpp"
#include "kl/path.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/resource.hpp"
#include "kl/resource_attributes.hpp"
#include "kl/resource_op.hpp"
#include "kl/serialization_attributes.hpp"

namespace res {

// --- fault injection: every validator calls this first ----------------------------------------
struct Hook
{
    int countdown = 0; // fires when it reaches 0 from 1
    int mode = 0;
    int calls = 0;
    bool fired = false;
    bool copies = false; // copies and moves of Fragile count as well
};
inline thread_local Hook hook;
struct Foreign
{
    int x;
};
inline void hook_point()
{
    ++hook.calls;
    if (hook.countdown > 0 && --hook.countdown == 0)
    {
        hook.fired = true;
        switch (hook.mode)
        {
        case 0:
            throw kl::resources::validation_error{"injected"};
        case 1:
            throw std::runtime_error{"injected foreign"};
        case 2:
            throw Foreign{7};
        default:
            throw kl::serialization::deserialize_error{"injected deserialize error"};
        }
    }
}

using Ctx = kl::json::deserialize_context;
namespace ra = kl::resources::attributes;
namespace sa = kl::serialization::attributes;

enum class Color
{
    red,
    green,
    blue
};
KL_REFLECT_ENUM(Color, red, green, blue)

struct Leaf
{
    int i = 0;
    std::string s;
    std::optional<int> o;
};
KL_REFLECT_STRUCT(Leaf, i, s, o)
inline void validate_resource(const Leaf& v, Ctx&)
{
    hook_point();
    if (v.i == 13)
        throw kl::resources::validation_error{"13"};
}

struct Limits
{
    int min = 0;
    int max = 0;
    void validate_resource(Ctx&) const
    {
        hook_point();
        if (min > max)
            throw kl::resources::validation_error{"min > max"};
    }
};
KL_REFLECT_STRUCT(Limits, min, max)

struct Named
{
    int v = 0;
    std::string name;
    std::string label; // same type as the key
    std::optional<std::string> note;
    std::map<std::string, int> tags;
    std::optional<Limits> lim;
};
KL_REFLECT_STRUCT(Named, v, name, label, note, tags, lim)

struct IntKeyed
{
    int id = 0;
    int other = 0;
    std::string text;
};
KL_REFLECT_STRUCT(IntKeyed, id, other, text)
inline bool resource_key_matches(const IntKeyed&, int key, std::string_view seg)
{
    return seg == std::to_string(key);
}

struct Req
{
    int v = 0;
};
KL_REFLECT_STRUCT(Req, v)
inline void validate_resource(const std::optional<Req>& v, Ctx&)
{
    hook_point();
    if (!v)
        throw kl::resources::validation_error{"required"};
}

struct Small
{
    int v = 0;
};
KL_REFLECT_STRUCT(Small, v)
inline void validate_resource(const std::vector<Small>& v, Ctx&)
{
    hook_point();
    if (v.size() > 3)
        throw kl::resources::validation_error{"too many"};
}

struct Prot
{
    int a = 0;
    int ro = 0;
    Leaf inner;
    Leaf roinner;
    std::vector<int> vals;
    std::optional<int> maybe;
    std::optional<int> romaybe;
    std::vector<Leaf> items;
    std::vector<Leaf> roitems;
    std::map<std::string, int> tags;
};
KL_REFLECT_STRUCT(Prot, a, (ro, ra::read_only), inner, (roinner, ra::read_only), vals, maybe,
                  (romaybe, ra::read_only), items, (roitems, ra::read_only), tags)

// Copying and move construction may throw; a moved-from value is visibly different. Nothing is thrown
// while a rollback may be running.
struct Fragile
{
    int v = 0;
    std::string w;

    Fragile() = default;
    Fragile(const Fragile& o) : v{(point(), o.v)}, w{o.w} {}
    Fragile(Fragile&& o) noexcept(false) : v{(point(), o.v)}, w{std::move(o.w)} { o.gone(); }
    Fragile& operator=(const Fragile& o)
    {
        point();
        v = o.v;
        w = o.w;
        return *this;
    }
    Fragile& operator=(Fragile&& o) noexcept
    {
        if (this != &o)
        {
            v = o.v;
            w = std::move(o.w);
            o.gone();
        }
        return *this;
    }

private:
    void gone()
    {
        v = -77;
        w = "gone";
    }
    static void point()
    {
        if (hook.copies && std::uncaught_exceptions() == 0 && !std::current_exception())
            hook_point();
    }
};
KL_REFLECT_STRUCT(Fragile, v, w)

struct Root
{
    int num = 0;
    double dbl = 0;
    bool flag = false;
    std::string text;
    Color color{};
    int cpp_name = 0;
    Leaf leaf;
    Limits limits;
    std::optional<int> oint;
    std::optional<Leaf> oleaf;
    std::optional<std::vector<int>> ovec;
    std::optional<std::map<std::string, int>> omap;
    std::optional<Limits> olim;
    std::optional<Req> req{Req{}};
    std::vector<int> ints;
    std::vector<Leaf> leaves;
    std::deque<Leaf> deq;
    std::list<int> lst;
    std::array<int, 3> arr{};
    std::array<Leaf, 2> arrl;
    std::vector<Small> smalls;
    std::map<std::string, Leaf> mleaf;
    std::map<std::string, int, std::less<>> mint;
    std::map<std::string, std::optional<int>> mopt;
    std::map<std::string, std::vector<int>> mvec;
    std::vector<std::optional<Leaf>> vopt;
    std::vector<std::vector<int>> grid;
    std::pair<int, std::string> pr;
    std::vector<Named> named;
    std::list<Named> nlist;
    std::vector<IntKeyed> idk;
    std::vector<Leaf> roitems;
    std::vector<Leaf> sroitems;
    Prot prot;
    Prot roprot;
    Prot sroprot;
    Prot both;
    std::optional<Prot> sroopt;
    std::map<std::string, Leaf> sromap;
    std::vector<Named> sronamed;
    std::vector<Named> ronamed;
    std::optional<int> roopt;
    std::optional<Prot> oprot;
    std::optional<std::map<std::string, Limits>> omlim;
    Fragile frag;
    std::optional<Fragile> ofrag;
    std::vector<Fragile> vfrag;
    std::map<std::string, Fragile> mfrag;

    void validate_resource(Ctx&) const
    {
        hook_point();
        if (ints.size() > 5 || text == "bad" || (flag && leaf.i < 0) || mint.size() > 4)
            throw kl::resources::validation_error{"root"};
    }
};
KL_REFLECT_STRUCT(Root, num, dbl, flag, text, color, (cpp_name, sa::rename("wireName")), leaf, limits, oint,
                  oleaf, ovec, omap, olim, req, ints, leaves, deq, lst, arr, arrl, smalls, mleaf, mint, mopt,
                  mvec, vopt, grid, pr, (named, ra::child_key<&Named::name>),
                  (nlist, ra::child_key<&Named::name>), (idk, ra::child_key<&IntKeyed::id>),
                  (roitems, ra::read_only), (sroitems, ra::subtree_read_only), prot, (roprot, ra::read_only),
                  (sroprot, ra::subtree_read_only), (both, ra::read_only, ra::subtree_read_only),
                  (sroopt, ra::subtree_read_only), (sromap, ra::subtree_read_only),
                  (sronamed, ra::subtree_read_only, ra::child_key<&Named::name>),
                  (ronamed, ra::read_only, ra::child_key<&Named::name>), (roopt, ra::read_only), oprot, omlim, frag, ofrag, vfrag, mfrag)

} // namespace res

namespace res {
// Implemented in res_<verb>.cpp, one translation unit per verb so that they compile in parallel.
using Res = kl::resources::resource<Root>;
kl::resources::operation_result real_get(const Res&, const kl::path&);
kl::resources::operation_result real_put(Res&, const kl::path&, const rapidjson::Value&);
kl::resources::operation_result real_post(Res&, const kl::path&, const rapidjson::Value&);
kl::resources::operation_result real_patch(Res&, const kl::path&, const rapidjson::Value&);
kl::resources::operation_result real_del(Res&, const kl::path&);
rapidjson::Value real_serialize_at(const Res&, const kl::path&, kl::json::owning_serialize_context&);
void real_deserialize_at(Res&, const kl::path&, const rapidjson::Value&);
} // namespace res

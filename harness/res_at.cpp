#include "resource_types.hpp"

namespace res {
rapidjson::Value real_serialize_at(const Res& r, const kl::path& p, kl::json::owning_serialize_context& ctx)
{
    return kl::resources::serialize_at_path(r.value, p.view(), ctx);
}
void real_deserialize_at(Res& r, const kl::path& p, const rapidjson::Value& v)
{
    Ctx ctx;
    kl::resources::deserialize_at_path(r.value, p.view(), v, ctx);
}
} // namespace res

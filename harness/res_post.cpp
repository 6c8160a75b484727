#include "resource_types.hpp"

namespace res {
kl::resources::operation_result real_post(Res& r, const kl::path& p, const rapidjson::Value& v)
{
    Ctx ctx;
    return kl::resources::post(r, p, v, ctx);
}
} // namespace res

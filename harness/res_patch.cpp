#include "resource_types.hpp"

namespace res {
kl::resources::operation_result real_patch(Res& r, const kl::path& p, const rapidjson::Value& v)
{
    Ctx ctx;
    return kl::resources::patch(r, p, v, ctx);
}
} // namespace res

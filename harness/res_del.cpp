#include "resource_types.hpp"

namespace res {
kl::resources::operation_result real_del(Res& r, const kl::path& p)
{
    Ctx ctx;
    return kl::resources::del(r, p, ctx);
}
} // namespace res

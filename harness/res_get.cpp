#include "resource_types.hpp"

namespace res {
kl::resources::operation_result real_get(const Res& r, const kl::path& p)
{
    return kl::resources::get(r, p, [](const auto& v) { return kl::json::dump(v); });
}
} // namespace res

#define PBT_NO_MAIN
#define CU_IMPL
#include "customization.hpp"
namespace cu {
template J Yaml<Root>::write(const Root&, CtxBase&, const Way&, bool, bool);
template J Yaml<Root>::plain(const Root&, bool);
} // namespace cu

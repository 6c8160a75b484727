#define PBT_NO_MAIN
#define CU_IMPL
#include "customization.hpp"
namespace cu {
template void Yaml<Root>::read(Root&, const J&, CtxBase&, bool, bool, int);
} // namespace cu

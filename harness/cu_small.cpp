#define PBT_NO_MAIN
#define CU_IMPL
#include "customization.hpp"
namespace cu {
template struct Json<In>;
template struct Json<std::vector<In>>;
template struct Json<MapOA>;
template struct Json<Tup>;
template struct Json<P>;
template struct Json<Fl>;
template struct Json<std::optional<Q>>;
} // namespace cu

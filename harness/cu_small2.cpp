#define PBT_NO_MAIN
#define CU_IMPL
#include "customization.hpp"
namespace cu {
template struct Yaml<In>;
template struct Yaml<std::vector<In>>;
template struct Yaml<MapOA>;
template struct Yaml<Tup>;
template struct Yaml<P>;
template struct Yaml<Fl>;
template struct Yaml<std::optional<Q>>;
} // namespace cu

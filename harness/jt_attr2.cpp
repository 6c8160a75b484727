#define PBT_NO_MAIN
#include "json_model.hpp"
namespace jt {
void reg_attr2(Types& t)
{
    add<Fl>(t, "Fl", 5);
    add<Ex>(t, "Ex", 5);
    add<ExOpt>(t, "ExOpt", 3);
    add<ExStruct>(t, "ExStruct", 4);
    add<ExVec>(t, "ExVec", 2);
    add<FlExOuter>(t, "FlExOuter", 4);
}
} // namespace jt

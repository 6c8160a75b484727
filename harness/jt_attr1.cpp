#define PBT_NO_MAIN
#include "json_model.hpp"
namespace jt {
void reg_attr1(Types& t)
{
    add<A1>(t, "A1", 6);
    add<A2>(t, "A2", 6);
    add<A3>(t, "A3", 5);
    add<FlSk>(t, "FlSk", 4);
}
} // namespace jt

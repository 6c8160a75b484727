#define PBT_NO_MAIN
#include "json_model.hpp"
namespace jt {
void reg_attr3(Types& t)
{
    add<FlEx>(t, "FlEx", 4);
    add<FlEx3>(t, "FlEx3", 3);
    add<AD>(t, "AD", 4);
    add<AN>(t, "AN", 5);
}
} // namespace jt

#define PBT_NO_MAIN
#include "json_model.hpp"
namespace jt {
void reg_plain4(Types& t)
{
    add<Deep>(t, "Deep");
    add<Tree>(t, "Tree", 3);
    add<Custom>(t, "Custom", 3);
    add<Multi>(t, "Multi", 2);
}
} // namespace jt

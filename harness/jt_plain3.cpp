#define PBT_NO_MAIN
#include "json_model.hpp"
namespace jt {
void reg_plain3(Types& t)
{
    add<Maps>(t, "Maps", 5);
    add<std::map<std::string, Inner>>(t, "map<Inner>", 2);
    add<std::map<std::string, std::optional<int>>>(t, "map<optional<int>>", 2);
    add<std::unordered_map<std::string, int>>(t, "unordered_map<int>", 1);
}
} // namespace jt

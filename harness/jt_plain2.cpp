#define PBT_NO_MAIN
#include "json_model.hpp"
namespace jt {
void reg_plain2(Types& t)
{
    add<Cont>(t, "Cont");
    add<Tup>(t, "Tup");
    add<std::vector<Inner>>(t, "vector<Inner>", 2);
    add<std::optional<Inner>>(t, "optional<Inner>", 2);
    add<std::optional<int>>(t, "optional<int>", 1);
    add<std::array<int, 3>>(t, "array<int,3>", 1);
    add<std::pair<std::string, double>>(t, "pair<string,double>", 1);
    add<std::tuple<int, std::string, std::optional<bool>>>(t, "tuple", 1);
}
} // namespace jt

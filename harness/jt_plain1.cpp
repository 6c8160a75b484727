#define PBT_NO_MAIN
#include "json_model.hpp"
namespace jt {
void reg_plain1(Types& t)
{
    add<Num>(t, "Num");
    add<Str>(t, "Str");
    add<Enums>(t, "Enums");
    add<std::int8_t>(t, "int8", 1);
    add<std::uint8_t>(t, "uint8", 1);
    add<std::int16_t>(t, "int16", 1);
    add<std::uint16_t>(t, "uint16", 1);
    add<std::int32_t>(t, "int32", 1);
    add<std::uint32_t>(t, "uint32", 1);
    add<std::int64_t>(t, "int64", 1);
    add<std::uint64_t>(t, "uint64", 1);
    add<bool>(t, "bool", 1);
    add<float>(t, "float", 1);
    add<double>(t, "double", 1);
    add<std::string>(t, "string", 1);
    add<Shade>(t, "Shade", 1);
    add<Flags>(t, "Flags", 1);
}
} // namespace jt

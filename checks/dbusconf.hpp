// Configuration objects published on the bus, for the checks of the D-Bus
// configuration.
#pragma once
#include "world.hpp"

namespace dc
{
using namespace w;
using simbus::PropMap;
constexpr auto EM = "xyz.openbmc_project.EntityManager";
constexpr auto INV = "/xyz/openbmc_project/inventory";
constexpr auto MODESVC = "xyz.test.ThermalMode";
constexpr auto MODEPATH = "/xyz/test/mode";
constexpr auto iPid = "xyz.openbmc_project.Configuration.Pid";
constexpr auto iPidZone = "xyz.openbmc_project.Configuration.Pid.Zone";
constexpr auto iStep = "xyz.openbmc_project.Configuration.Stepwise";
constexpr auto iThermalMode = "xyz.openbmc_project.Control.ThermalMode";
constexpr auto iObjMgr = "org.freedesktop.DBus.ObjectManager";
constexpr auto iAssoc = "xyz.openbmc_project.Association";
constexpr auto iAssocDef = "xyz.openbmc_project.Association.Definitions";
using Strings = std::vector<std::string>;

inline PropMap zoneObj(const std::string& name, double index, double minimum,
                       double failsafe)
{
    PropMap p;
    p["Name"] = toVal(name);
    if (index >= 0)
        p["ZoneIndex"] = toVal(index);
    p["MinThermalOutput"] = toVal(minimum);
    p["FailSafePercent"] = toVal(failsafe);
    return p;
}
inline PropMap pidObj(const std::string& name, const std::string& cls,
                      const Strings& zones, const Strings& inputs,
                      const Strings& outputs = {})
{
    PropMap p;
    p["Name"] = toVal(name);
    p["Class"] = toVal(cls);
    p["Zones"] = toVal(zones);
    p["Inputs"] = toVal(inputs);
    if (!outputs.empty())
        p["Outputs"] = toVal(outputs);
    for (auto n : {"SetPoint", "PCoefficient", "ICoefficient",
                   "FFOffCoefficient", "FFGainCoefficient", "ILimitMax",
                   "ILimitMin", "OutLimitMax", "OutLimitMin", "SlewNeg",
                   "SlewPos"})
        p[n] = toVal(0.0);
    p["OutLimitMax"] = toVal(1e6);
    p["OutLimitMin"] = toVal(-1e6);
    return p;
}
inline PropMap stepObj(const std::string& name, const std::string& cls,
                       const Strings& zones, const Strings& inputs,
                       const std::vector<double>& r,
                       const std::vector<double>& o)
{
    PropMap p;
    p["Name"] = toVal(name);
    p["Class"] = toVal(cls);
    p["Zones"] = toVal(zones);
    p["Inputs"] = toVal(inputs);
    p["Reading"] = toVal(r);
    p["Output"] = toVal(o);
    return p;
}
inline void manager()
{
    bk().services[EM][INV][iObjMgr];
}
inline std::string cfgPath(const std::string& leaf)
{
    return std::string(INV) + "/system/board/Board/" + leaf;
}
inline void put(const std::string& leaf, const char* iface, const PropMap& p)
{
    bk().services[EM][cfgPath(leaf)][iface] = p;
}
inline std::string sensorPath(const char* layer, const std::string& n)
{
    return std::string("/xyz/openbmc_project/sensors/") + layer + "/" + n;
}
inline simbus::IfaceMap sensorIfs(const char* unit, double v)
{
    simbus::IfaceMap o;
    o[iValue]["Value"] = toVal(v);
    o[iValue]["Unit"] = toVal(
        std::string("xyz.openbmc_project.Sensor.Value.Unit.") + unit);
    o[iAvail]["Available"] = toVal(true);
    o[iOper]["Functional"] = toVal(true);
    return o;
}
inline void pwm(const std::string& n)
{
    bk().services[PWMSVC]["/xyz/openbmc_project/control/fanpwm/" + n][iPwm]
                 ["Target"] = toVal(static_cast<uint64_t>(World::sentinel));
}
} // namespace dc

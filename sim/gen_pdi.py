#!/usr/bin/env python3
"""Generates the simulated phosphor-dbus-interfaces headers (checked in under
sim/include/xyz).  Only re-run when the simulated interface set changes."""
import os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "include", "xyz", "openbmc_project")

def w(path, text):
    p = os.path.join(R, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)

# path, namespace (lower case), class, interface name, [(member, PropName)], extra
COMMON = [
 ("Sensor/Value", "sensor", "Value", "Sensor.Value", ["Value","MaxValue","MinValue","Unit"], ""),
 ("Sensor/Threshold/Warning", "sensor::threshold", "Warning", "Sensor.Threshold.Warning",
  ["WarningHigh","WarningLow","WarningAlarmHigh","WarningAlarmLow"], ""),
 ("Sensor/Threshold/Critical", "sensor::threshold", "Critical", "Sensor.Threshold.Critical",
  ["CriticalHigh","CriticalLow","CriticalAlarmHigh","CriticalAlarmLow"], ""),
 ("State/Decorator/Availability", "state::decorator", "Availability", "State.Decorator.Availability", ["Available"], ""),
 ("State/Decorator/OperationalStatus", "state::decorator", "OperationalStatus", "State.Decorator.OperationalStatus", ["Functional"], ""),
 ("State/Host", "state", "Host", "State.Host", ["CurrentHostState","RequestedHostTransition"], ""),
 ("Control/FanRedundancy", "control", "FanRedundancy", "Control.FanRedundancy", ["Status","Collection","AllowedFailures"], ""),
 ("Control/FanPwm", "control", "FanPwm", "Control.FanPwm", ["Target"], ""),
 ("Control/ThermalMode", "control", "ThermalMode", "Control.ThermalMode", ["Current","Supported"], ""),
 ("Control/Mode", "control", "Mode", "Control.Mode", ["Manual","FailSafe"], ""),
 ("Association", "", "Association", "Association", ["Endpoints"], ""),
 ("Association/Definitions", "association", "Definitions", "Association.Definitions", ["Associations"], ""),
 ("Debug/Pid/Zone", "debug::pid", "Zone", "Debug.Pid.Zone", ["Leader"], ""),
 ("Debug/Pid/ThermalPower", "debug::pid", "ThermalPower", "Debug.Pid.ThermalPower", ["Setpoint","ClassType","Leader","Input","Output"], ""),
 ("Object/Enable", "object", "Enable", "Object.Enable", ["Enabled"], ""),
 ("ObjectMapper", "", "ObjectMapper", "ObjectMapper", [],
  '''    static constexpr auto default_service = "xyz.openbmc_project.ObjectMapper";
    static constexpr auto instance_path = "/xyz/openbmc_project/object_mapper";
    struct method_names
    {
        static constexpr auto get_object = "GetObject";
        static constexpr auto get_ancestors = "GetAncestors";
        static constexpr auto get_sub_tree = "GetSubTree";
        static constexpr auto get_sub_tree_paths = "GetSubTreePaths";
    };
'''),
]
def snake(s):
    out = ""
    for i, c in enumerate(s):
        if c.isupper() and i:
            out += "_"
        out += c.lower()
    return out
for path, ns, cls, iface, props, extra in COMMON:
    n = "sdbusplus::common::xyz::openbmc_project" + ("::" + ns if ns else "")
    t = "#pragma once\n#include <simbus.hpp>\nnamespace %s\n{\n%sclass %s\n{\n  public:\n    static constexpr auto interface = \"xyz.openbmc_project.%s\";\n" % (
        n, "", cls, iface)
    if props:
        t += "    struct property_names\n    {\n"
        for p in props:
            t += "        static constexpr auto %s = \"%s\";\n" % (snake(p), p)
        t += "    };\n"
    t += extra + "};\n} // namespace\n"
    w(path + "/common.hpp", t)
    w(path + "/client.hpp", "#pragma once\n#include <xyz/openbmc_project/%s/common.hpp>\n" % path)

# server side: path, namespace, class, iface, [(PropName, member, type, default, readonly)]
D = "std::numeric_limits<double>::quiet_NaN()"
SERVER = [
 ("Control/Mode", "Control", "Mode", "Control.Mode",
  [("Manual","manual","bool","false",False),("FailSafe","failSafe","bool","false",True)], ""),
 ("Debug/Pid/Zone", "Debug::Pid", "Zone", "Debug.Pid.Zone",
  [("Leader","leader","std::string","{}",True)], ""),
 ("Debug/Pid/ThermalPower", "Debug::Pid", "ThermalPower", "Debug.Pid.ThermalPower",
  [("Setpoint","setpoint","double",D,True),("ClassType","classType","std::string","{}",True),
   ("Leader","leader","std::string","{}",True),("Input","input","double",D,True),("Output","output","double",D,True)], ""),
 ("Object/Enable", "Object", "Enable", "Object.Enable",
  [("Enabled","enabled","bool","true",False)], ""),
 ("Sensor/Value", "Sensor", "Value", "Sensor.Value",
  [("Value","value","double",D,False),("MaxValue","maxValue","double","std::numeric_limits<double>::infinity()",False),
   ("MinValue","minValue","double","-std::numeric_limits<double>::infinity()",False),
   ("Unit","unit","Unit","Unit::DegreesC",True)],
  "    enum class Unit { Amperes, CFM, DegreesC, Hertz, Joules, Liters, Meters, Percent, PercentRH, Pascals, RPMS, Volts, Watts };\n"
  "    friend std::string convertForMessage(Unit u)\n    {\n"
  "        static const char* n[] = {\"Amperes\", \"CFM\", \"DegreesC\", \"Hertz\", \"Joules\", \"Liters\", \"Meters\", \"Percent\", \"PercentRH\", \"Pascals\", \"RPMS\", \"Volts\", \"Watts\"};\n"
  "        return std::string(\"xyz.openbmc_project.Sensor.Value.Unit.\") + n[static_cast<int>(u)];\n    }\n"
  "    friend void convertFromMessage(const std::string& s, Unit& u)\n    {\n"
  "        for (int i = 0; i <= static_cast<int>(Unit::Watts); ++i)\n            if (convertForMessage(static_cast<Unit>(i)) == s)\n            {\n                u = static_cast<Unit>(i);\n                return;\n            }\n"
  "        throw sdbusplus::exception::InvalidEnumString();\n    }\n"),
]
for path, ns, cls, iface, props, extra in SERVER:
    n = "sdbusplus::server::xyz::openbmc_project::" + snake(ns.replace("::", "~")).replace("~_", "::").replace("~", "::")
    n = "sdbusplus::xyz::openbmc_project::%s::server" % ns
    t = "#pragma once\n#include <simbus.hpp>\n#include <limits>\n#include <xyz/openbmc_project/%s/common.hpp>\nnamespace %s\n{\nclass %s : public sdbusplus::simserver::Iface\n{\n  public:\n" % (path, n, cls)
    t += extra
    t += "    static constexpr auto interface = \"xyz.openbmc_project.%s\";\n" % iface
    t += "    %s(bus_t& b, const char* path) : Iface(b, path, interface)\n    {\n" % cls
    for P, m, ty, d, ro in props:
        t += "        this->template prop<%s>(\"%s\", [this] { return %s(); }" % (ty, P, m)
        if not ro:
            t += ",\n            [this](%s v) { %s(v); }" % (ty, m)
        t += ");\n"
    t += "    }\n"
    for P, m, ty, d, ro in props:
        t += "    virtual %s %s() const { return _%s; }\n" % (ty, m, m)
        t += "    virtual %s %s(%s v, bool skipSignal) { return update(_%s, v, \"%s\", skipSignal); }\n" % (ty, m, ty, m, P)
        t += "    virtual %s %s(%s v) { return %s(v, false); }\n" % (ty, m, ty, m)
    t += "\n  private:\n"
    for P, m, ty, d, ro in props:
        t += "    %s _%s = %s;\n" % (ty, m, d)
    t += "};\n} // namespace\n"
    # 'this->template' is not needed outside templates
    t = t.replace("this->template prop", "prop")
    w(path + "/server.hpp", t)

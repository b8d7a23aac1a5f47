// The "world" harness: real sensors, real zones, real control loops, driven by
// the simulated bus and virtual time.  A check describes a configuration,
// schedules environment events, and observes fan commands and published state.
#pragma once
#include "config.h"
#include "mc.hpp"
#include "vtime.hpp"

#include "conf.hpp"
#include "failsafeloggers/builder.hpp"
#include "failsafeloggers/failsafe_logger_utility.hpp"
#include "interfaces.hpp"
#include "pid/builder.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
#include "pid/zone.hpp"
#include "sensors/builder.hpp"
#include "sensors/manager.hpp"
#include "simbus.hpp"

#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>

#include <sys/stat.h>

#include <cmath>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace w
{
using namespace pid_control;
using simbus::toVal;
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();
constexpr double INF = std::numeric_limits<double>::infinity();

constexpr auto SVC = "xyz.test.Sensors";
constexpr auto PWMSVC = "xyz.test.FanPwm";
constexpr auto iValue = "xyz.openbmc_project.Sensor.Value";
constexpr auto iAvail = "xyz.openbmc_project.State.Decorator.Availability";
constexpr auto iOper = "xyz.openbmc_project.State.Decorator.OperationalStatus";
constexpr auto iCrit = "xyz.openbmc_project.Sensor.Threshold.Critical";
constexpr auto iWarn = "xyz.openbmc_project.Sensor.Threshold.Warning";
constexpr auto iPwm = "xyz.openbmc_project.Control.FanPwm";
constexpr auto iMode = "xyz.openbmc_project.Control.Mode";
constexpr auto iEnable = "xyz.openbmc_project.Object.Enable";
constexpr auto iThermal = "xyz.openbmc_project.Debug.Pid.ThermalPower";
constexpr auto iZone = "xyz.openbmc_project.Debug.Pid.Zone";

inline simbus::Broker& bk()
{
    return simbus::Broker::get();
}
inline std::string S(const char* f, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

struct Buses
{
    sdbusplus::bus_t passive = sdbusplus::bus::new_bus();
    sdbusplus::bus_t host = sdbusplus::bus::new_bus();
    sdbusplus::bus_t mode = sdbusplus::bus::new_bus();
    sdbusplus::bus_t hoststate = sdbusplus::bus::new_bus();
};
inline Buses& buses()
{
    static Buses* b = [] {
        auto* x = new Buses;
        x->mode.request_name("xyz.openbmc_project.State.FanCtrl");
        x->host.request_name("xyz.openbmc_project.Hwmon.external");
        return x;
    }();
    return *b;
}

constexpr auto FANCTRL = "xyz.openbmc_project.State.FanCtrl";
constexpr auto EXTSVC = "xyz.openbmc_project.Hwmon.external";

inline std::string zonePath(int64_t z)
{
    return "/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(z);
}

// A direct thermal loop requests exactly its input (set point 0, gain -1).
inline ec::pidinfo directThermal()
{
    ec::pidinfo p;
    p.ts = 1.0;
    p.proportionalCoeff = -1.0;
    p.outLim.min = -1e6;
    p.outLim.max = 1e6;
    return p;
}
// A direct fan loop outputs exactly the zone target as percentage.
inline ec::pidinfo directFan(double lo = -1e6, double hi = 1e6)
{
    ec::pidinfo p;
    p.ts = 0.1;
    p.feedFwdGain = 1.0;
    p.outLim.min = lo;
    p.outLim.max = hi;
    return p;
}

// set by harnesses that run the daemon's own main(), which has its own buses
inline bool noBuses = false;

struct World
{
    boost::asio::io_context io;
    std::map<std::string, conf::SensorConfig> sensors;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zcfg;
    std::optional<SensorManager> mgr;
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> zones;
    std::vector<std::shared_ptr<boost::asio::steady_timer>> timers;
    bool canceling = false;
    int64_t started = 0;

    World()
    {
        if (!noBuses)
            buses();
        bk().resetEnv();
        bk().nowNs = [] { return vt::now(); };
        loggingEnabled = false;
        loggingPath = "";
        tuningEnabled = false;
        debugEnabled = false;
        coreLoggingEnabled = false;
        zoneIdToFailsafeLogger.clear();
        sensorNameToZoneId.clear();
    }
    ~World()
    {
        stop();
    }
    World(const World&) = delete;

    // ---- configuration ----
    static std::string readPathOf(const std::string& n, const std::string& type)
    {
        const char* layer = type == "fan" ? "fan_tach"
                            : (type == "power" || type == "powersum")
                                ? "power"
                                : "temperature";
        return S("/xyz/openbmc_project/sensors/%s/%s", layer, n.c_str());
    }
    std::string objPath(const std::string& n)
    {
        return sensors.at(n).readPath;
    }
    static std::string pwmPath(const std::string& n)
    {
        return "/xyz/openbmc_project/control/fanpwm/" + n;
    }
    conf::SensorConfig& sensor(const std::string& n, const std::string& type,
                               int64_t timeout = 0)
    {
        conf::SensorConfig c{};
        c.type = type;
        c.readPath = readPathOf(n, type);
        c.writePath = "";
        c.min = 0;
        c.max = 0;
        c.timeout = timeout;
        c.ignoreDbusMinMax = false;
        c.unavailableAsFailed = true;
        c.ignoreFailIfHostOff = false;
        return sensors[n] = c;
    }
    // a sensor published on the bus by another program
    conf::SensorConfig& dbus(const std::string& n, const std::string& type,
                             double value, int64_t timeout = 0)
    {
        auto& c = sensor(n, type, timeout);
        auto& o = bk().services[SVC][c.readPath];
        o[iValue]["Value"] = toVal(value);
        o[iValue]["Unit"] = toVal(std::string(getUnit(type)));
        o[iAvail]["Available"] = toVal(true);
        o[iOper]["Functional"] = toVal(true);
        o[iCrit]["CriticalAlarmLow"] = toVal(false);
        o[iCrit]["CriticalAlarmHigh"] = toVal(false);
        return c;
    }
    static const char* getUnit(const std::string& type)
    {
        if (type == "fan")
            return "xyz.openbmc_project.Sensor.Value.Unit.RPMS";
        if (type == "power" || type == "powersum")
            return "xyz.openbmc_project.Sensor.Value.Unit.Watts";
        return "xyz.openbmc_project.Sensor.Value.Unit.DegreesC";
    }
    // a sensor written by the host through the daemon's own bus object
    conf::SensorConfig& ext(const std::string& n, const std::string& type,
                            int64_t timeout = 0)
    {
        auto& c = sensor(n, type, timeout);
        c.readPath = "/xyz/openbmc_project/extsensors/" + type + "/" + n;
        return c;
    }
    conf::SensorConfig& fan(const std::string& n, double rpm = 1000,
                            int64_t min = 0, int64_t max = 100000,
                            int64_t timeout = 0)
    {
        auto& c = dbus(n, "fan", rpm, timeout);
        c.writePath = pwmPath(n);
        c.min = min;
        c.max = max;
        bk().services[PWMSVC][c.writePath][iPwm]["Target"] =
            toVal(static_cast<uint64_t>(sentinel));
        return c;
    }
    static constexpr uint64_t sentinel = 424242424242ull;

    conf::ZoneConfig& zone(int64_t id, double minThermal, double failsafe,
                           uint64_t fanMs = 100, uint64_t thermMs = 1000)
    {
        conf::ZoneConfig z{};
        z.minThermalOutput = minThermal;
        z.failsafePercent = failsafe;
        z.cycleTime.cycleIntervalTimeMS = fanMs;
        z.cycleTime.updateThermalsTimeMS = thermMs;
        z.accumulateSetPoint = false;
        pids[id];
        return zcfg[id] = z;
    }
    conf::ControllerInfo& loop(int64_t z, const std::string& name,
                               const std::string& type,
                               const std::vector<std::string>& inputs,
                               const ec::pidinfo& pi = {}, double setpoint = 0,
                               double failsafe = 0)
    {
        conf::ControllerInfo c{};
        c.type = type;
        for (auto& i : inputs)
        {
            conf::SensorInput si;
            si.name = i;
            c.inputs.push_back(si);
        }
        c.setpoint = setpoint;
        c.pidInfo = pi;
        c.failSafePercent = failsafe;
        for (size_t i = 0; i < ec::maxStepwisePoints; ++i)
            c.stepwiseInfo.reading[i] = c.stepwiseInfo.output[i] = NaN;
        return pids[z][name] = c;
    }
    conf::ControllerInfo& stepwise(int64_t z, const std::string& name,
                                   const std::vector<std::string>& inputs,
                                   const std::vector<double>& r,
                                   const std::vector<double>& o,
                                   bool ceiling = false, double pos = 0,
                                   double neg = 0)
    {
        auto& c = loop(z, name, "stepwise", inputs);
        c.stepwiseInfo.ts = 1;
        for (size_t i = 0; i < r.size(); ++i)
        {
            c.stepwiseInfo.reading[i] = r[i];
            c.stepwiseInfo.output[i] = o[i];
        }
        c.stepwiseInfo.isCeiling = ceiling;
        c.stepwiseInfo.positiveHysteresis = pos;
        c.stepwiseInfo.negativeHysteresis = neg;
        return c;
    }

    // ---- life cycle ----
    void build()
    {
        mgr.emplace(buildSensors(sensors, buses().passive, buses().host));
        zones = buildZones(pids, zcfg, *mgr, buses().mode);
        buildFailsafeLoggers(zones, 20);
    }
    DbusPidZone* z(int64_t id)
    {
        return static_cast<DbusPidZone*>(zones.at(id).get());
    }
    // start every zone's loop now (ascending id unless told otherwise)
    void start(bool descending = false)
    {
        started = vt::now();
        std::map<int64_t, std::shared_ptr<ZoneInterface>> ord(zones.begin(),
                                                              zones.end());
        auto one = [&](auto& zz) {
            auto t = timers.emplace_back(
                std::make_shared<boost::asio::steady_timer>(io));
            pidControlLoop(zz, t, &canceling);
        };
        if (descending)
            for (auto it = ord.rbegin(); it != ord.rend(); ++it)
                one(it->second);
        else
            for (auto& [id, zz] : ord)
                one(zz);
    }
    // run the daemon until virtual time t (events strictly due are processed)
    void runUntil(int64_t t)
    {
        vt::deadline(t, [this] { io.stop(); });
        io.restart();
        io.run();
        if (vt::now() < t)
            vt::set(t);
    }
    void stop()
    {
        for (auto& t : timers)
            t->cancel();
        canceling = true;
        timers.clear();
        io.restart();
        io.poll();
        zones.clear();
        canceling = false;
        mgr.reset();
    }

    // ---- environment ----
    void change(const std::string& n, const char* iface, const char* prop,
                simbus::Val v)
    {
        simbus::PropMap p{{prop, std::move(v)}};
        if (company) // signals may carry properties nobody asked for
        {
            p["AFirst"] = toVal(true);
            p["Zlast"] = toVal(std::string("x"));
        }
        bk().propsChanged(SVC, objPath(n), iface, p);
    }
    bool company = false;
    std::map<std::string, double> busUnit; // what 1 is on the bus
    void value(const std::string& n, double v)
    {
        if (objPath(n).find("/extsensors/") != std::string::npos)
            bk().clientSet(EXTSVC, objPath(n), iValue, "Value", toVal(v));
        else
            change(n, iValue, "Value",
                   toVal(busUnit.count(n) ? v * busUnit[n] : v));
    }
    void functional(const std::string& n, bool b)
    {
        change(n, iOper, "Functional", toVal(b));
    }
    void available(const std::string& n, bool b)
    {
        change(n, iAvail, "Available", toVal(b));
    }
    void manual(int64_t zid, bool b)
    {
        bk().clientSet(FANCTRL, zonePath(zid), iMode, "Manual", toVal(b));
    }
    bool manualProp(int64_t zid)
    {
        return bk().clientGetT<bool>(FANCTRL, zonePath(zid), iMode, "Manual");
    }
    bool failsafeProp(int64_t zid)
    {
        return bk().clientGetT<bool>(FANCTRL, zonePath(zid), iMode, "FailSafe");
    }
    std::string leaderProp(int64_t zid)
    {
        return bk().clientGetT<std::string>(FANCTRL, zonePath(zid), iZone,
                                            "Leader");
    }
    void enable(int64_t zid, const std::string& loopName, bool b)
    {
        bk().clientSet(FANCTRL, zonePath(zid) + "/" + loopName, iEnable,
                       "Enabled", toVal(b));
    }
    // what the fan's control object holds now
    uint64_t target(const std::string& fan)
    {
        uint64_t v = 0;
        simbus::fromVal(
            bk().services[PWMSVC][pwmPath(fan)][iPwm]["Target"], v);
        return v;
    }
    void handSet(const std::string& fan, uint64_t v)
    {
        bk().services[PWMSVC][pwmPath(fan)][iPwm]["Target"] = toVal(v);
    }
};

// raw value the writer must produce for a percentage (documented translation)
inline int64_t rawOf(double percent, double min = 0, double max = 100000)
{
    return static_cast<int64_t>(min + (max - min) * (percent / 100.0));
}

struct Write
{
    int64_t t;
    std::string fan;
    uint64_t raw;
    bool ok;
};
// fan commands seen on the bus since `from` (index into the broker's log)
inline std::vector<Write> fanWrites(size_t from = 0)
{
    std::vector<Write> out;
    for (size_t i = from; i < bk().sets.size(); ++i)
    {
        auto& s = bk().sets[i];
        if (s.service != PWMSVC)
            continue;
        uint64_t v = 0;
        simbus::fromVal(s.value, v);
        out.push_back(
            {s.timeNs, s.path.substr(s.path.rfind('/') + 1), v, s.ok});
    }
    return out;
}
} // namespace w

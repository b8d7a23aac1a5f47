// The whole daemon: its real main() with real signals, run in a forked child
// against the simulated bus and virtual time.  Use in `isolate` suites only.
#pragma once
#include "world.hpp"

#include <boost/asio/signal_set.hpp>
#include <nlohmann/json.hpp>

#include <signal.h>
#include <unistd.h>

int swampd_main(int argc, char* argv[]);
extern boost::asio::io_context io __attribute__((weak));

namespace dm
{
using namespace w;
using nlohmann::json;
#ifndef DAEMON_WORLD
#define DAEMON_WORLD 0
#endif
static const bool noBusesHere = [] { return w::noBuses = !DAEMON_WORLD; }();

struct Done
{};

inline json pidJson(const ec::pidinfo& p)
{
    return {{"samplePeriod", p.ts},
            {"proportionalCoeff", p.proportionalCoeff},
            {"integralCoeff", p.integralCoeff},
            {"derivativeCoeff", p.derivativeCoeff},
            {"feedFwdOffsetCoeff", p.feedFwdOffset},
            {"feedFwdGainCoeff", p.feedFwdGain},
            {"integralLimit_min", p.integralLimit.min},
            {"integralLimit_max", p.integralLimit.max},
            {"outLim_min", p.outLim.min},
            {"outLim_max", p.outLim.max},
            {"slewNeg", p.slewNeg},
            {"slewPos", p.slewPos},
            {"positiveHysteresis", p.positiveHysteresis},
            {"negativeHysteresis", p.negativeHysteresis},
            {"checkHysteresisWithSetpoint", p.checkHysterWithSetpt}};
}
// the configuration file that describes a world
inline json fileOf(const World& wd)
{
    json sensors = json::array(), zones = json::array();
    for (auto& [n, c] : wd.sensors)
    {
        json s = {{"name", n},
                  {"type", c.type},
                  {"readPath", c.readPath},
                  {"writePath", c.writePath},
                  {"timeout", c.timeout},
                  {"ignoreDbusMinMax", c.ignoreDbusMinMax},
                  {"unavailableAsFailed", c.unavailableAsFailed},
                  {"ignoreFailIfHostOff", c.ignoreFailIfHostOff}};
        if (c.type == "fan")
        {
            s["min"] = c.min;
            s["max"] = c.max;
        }
        sensors.push_back(s);
    }
    for (auto& [id, z] : wd.zcfg)
    {
        json pids = json::array();
        for (auto& [n, c] : wd.pids.at(id))
        {
            std::vector<std::string> in, miss;
            std::vector<double> conv;
            bool anyConv = false;
            for (auto& i : c.inputs)
            {
                in.push_back(i.name);
                anyConv |= i.convertTempToMargin;
                conv.push_back(i.convertMarginZero);
                if (i.missingIsAcceptable)
                    miss.push_back(i.name);
            }
            json p = {{"name", n},
                      {"type", c.type},
                      {"inputs", in},
                      {"setpoint", c.setpoint},
                      {"FailSafePercent", c.failSafePercent}};
            if (anyConv)
                p["tempToMargin"] = conv;
            if (!miss.empty())
                p["missingIsAcceptable"] = miss;
            if (c.type == "stepwise")
            {
                json q = {{"samplePeriod", c.stepwiseInfo.ts},
                          {"isCeiling", c.stepwiseInfo.isCeiling},
                          {"positiveHysteresis",
                           c.stepwiseInfo.positiveHysteresis},
                          {"negativeHysteresis",
                           c.stepwiseInfo.negativeHysteresis}};
                for (size_t k = 0; k < ec::maxStepwisePoints; ++k)
                    if (!std::isnan(c.stepwiseInfo.reading[k]))
                    {
                        q["reading"][std::to_string(k)] =
                            c.stepwiseInfo.reading[k];
                        q["output"][std::to_string(k)] =
                            c.stepwiseInfo.output[k];
                    }
                p["pid"] = q;
            }
            else
                p["pid"] = pidJson(c.pidInfo);
            pids.push_back(p);
        }
        zones.push_back(
            {{"id", id},
             {"minThermalOutput", z.minThermalOutput},
             {"failsafePercent", z.failsafePercent},
             {"cycleIntervalTimeMS", z.cycleTime.cycleIntervalTimeMS},
             {"updateThermalsTimeMS", z.cycleTime.updateThermalsTimeMS},
             {"accumulateSetPoint", z.accumulateSetPoint},
             {"pids", pids}});
    }
    return {{"sensors", sensors}, {"zones", zones}};
}
inline std::string configPath()
{
    return mc::scratch() + "/config.json";
}
inline void writeFile(const std::string& path, const std::string& text)
{
    std::ofstream(path, std::ios::trunc) << text;
}

// called when the program ends through exit(); set by run()
inline std::function<void(int)>& onExit()
{
    static std::function<void(int)> f;
    return f;
}
inline void exitHook(int code, void*)
{
    auto f = std::move(onExit());
    if (!f)
        return;
    try
    {
        f(code);
    }
    catch (const mc::Violation&)
    {
        mc::endIsolated();
    }
    mc::endIsolated();
}

struct Outcome
{
    enum Kind
    {
        running, // still up when the time was over
        returned // main returned
    } kind;
    int rc = 0;
    int64_t at = 0;
};
// signals must not leak between the explorer's processes: call before raising
// any, in the process of the execution
inline void fresh()
{
    static bool done = false;
    if (&io && !done)
    {
        io.notify_fork(boost::asio::execution_context::fork_prepare);
        io.notify_fork(boost::asio::execution_context::fork_child);
    }
    done = true;
}
// Run main() with these arguments until virtual time `until`.  When the
// program calls exit(), `exited` is called with the status and the execution
// ends there.
inline Outcome run(const std::vector<std::string>& args, int64_t until,
                   std::function<void(int)> exited = nullptr)
{
    fresh();
    onExit() = exited;
    if (exited)
        on_exit(exitHook, nullptr);
    if (chdir(mc::scratch().c_str()))
        mc::fail("chdir");
    vt::deadline(until, [] { throw Done{}; });
    std::vector<std::string> a{"swampd"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> v;
    for (auto& s : a)
        v.push_back(s.data());
    v.push_back(nullptr);
    Outcome o{Outcome::running};
    try
    {
        o.rc = swampd_main(static_cast<int>(a.size()), v.data());
        o.kind = Outcome::returned;
    }
    catch (const Done&)
    {}
    o.at = vt::now();
    return o;
}
// object paths published below the fan control root
inline std::set<std::string> published()
{
    std::set<std::string> out;
    for (auto& s : bk().servers)
        if (s.path.starts_with("/xyz/openbmc_project/settings/fanctrl/"))
            out.insert(s.path);
    return out;
}
} // namespace dm

//@technique exhaustive enumeration of configuration files (every subset of optional keys, every missing mandatory key, every truncation) through the real parser against an independent reading
//@level model_checking
//@budget 200 500
//@assume intervals are integers; sensor, loop and zone names are unique within a file
#define DAEMON_WORLD 1 // only its configuration writer
#include "daemon.hpp"

#include "buildjson/buildjson.hpp"
#include "pid/buildjson.hpp"
#include "sensors/buildjson.hpp"

#include <fstream>

// this check links without main()
int swampd_main(int, char**)
{
    return 0;
}

using namespace dm;

namespace
{
struct Parsed
{
    std::map<std::string, conf::SensorConfig> sensors;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zones;
};
Parsed load(const std::string& text)
{
    auto f = mc::scratch() + "/c14.json";
    writeFile(f, text);
    Parsed p;
    auto j = parseValidateJson(f);
    p.sensors = buildSensorsFromJson(j);
    std::tie(p.pids, p.zones) = buildPIDsFromJson(j);
    return p;
}
void same(const char* where, const char* what, double got, double want)
{
    mc::compare();
    if (!(got == want || (std::isnan(got) && std::isnan(want))))
        mc::fail("%s: %s is %.17g, the file says %.17g", where, what, got,
                 want);
}
void same(const char* where, const char* what, const std::string& got,
          const std::string& want)
{
    mc::compare();
    if (got != want)
        mc::fail("%s: %s is '%s', the file says '%s'", where, what,
                 got.c_str(), want.c_str());
}

// ---- sensors ----
json someSensor(int which, int opts, const std::string& type,
                conf::SensorConfig& w)
{
    json s;
    w = {};
    w.type = type;
    w.readPath = which ? "/xyz/openbmc_project/sensors/temperature/s"
                       : "/sys/class/hwmon/hwmon3/temp1_input";
    s["type"] = w.type;
    if (opts & 256) // optional: a sensor that is only written
        w.readPath = "";
    else
        s["readPath"] = w.readPath;
    w.unavailableAsFailed = true;
    w.timeout = type == "fan" ? 0 : 2;
    if (opts & 1)
        s["writePath"] = w.writePath = S("/sys/pwm%d", which);
    if (opts & 2)
    {
        s["min"] = 10 + which;
        w.min = type == "fan" ? 10 + which : 0;
    }
    if (opts & 4)
    {
        s["max"] = 200 + which;
        w.max = type == "fan" ? 200 + which : 0;
    }
    if (opts & 8)
        s["timeout"] = w.timeout = which ? 0 : 7;
    if (opts & 16)
        s["ignoreDbusMinMax"] = w.ignoreDbusMinMax = true;
    if (opts & 32)
        s["unavailableAsFailed"] = w.unavailableAsFailed = false;
    if (opts & 64)
        s["ignoreFailIfHostOff"] = w.ignoreFailIfHostOff = true;
    if (opts & 128)
    {
        s["color"] = "green";
        s["Min"] = 3;
        s["Timeout"] = 9;
    }
    return s;
}
void compareSensor(const char* n, const conf::SensorConfig& g,
                   const conf::SensorConfig& w)
{
    same(n, "type", g.type, w.type);
    same(n, "readPath", g.readPath, w.readPath);
    same(n, "writePath", g.writePath, w.writePath);
    same(n, "min", g.min, w.min);
    same(n, "max", g.max, w.max);
    same(n, "timeout", g.timeout, w.timeout);
    same(n, "ignoreDbusMinMax", g.ignoreDbusMinMax, w.ignoreDbusMinMax);
    same(n, "unavailableAsFailed", g.unavailableAsFailed,
         w.unavailableAsFailed);
    same(n, "ignoreFailIfHostOff", g.ignoreFailIfHostOff,
         w.ignoreFailIfHostOff);
}
json minimalZones()
{
    static const json z = [] {
        World w;
        w.dbus("T", "temp", 0);
        w.zone(1, 10, 20);
        w.loop(1, "L", "temp", {"T"}, directThermal());
        return fileOf(w)["zones"];
    }();
    return z;
}
void sensors()
{
    static const std::vector<std::string> types{"fan",   "temp",  "margin",
                                                "power", "powersum"};
    auto& t1 = mc::pick(types, "type");
    int o1 = mc::choose(512, "options");
    static const std::vector<int> few{0, 0x7f, 0x2a, 0x55, 0x80, 0xff, 0x101};
    auto& t2 = types[mc::choose(2, "type of the other")];
    int o2 = mc::pick(few, "options of the other");
    bool order = mc::choose(2, "order");
    conf::SensorConfig w1, w2;
    json a = someSensor(0, o1, t1, w1), b = someSensor(1, o2, t2, w2);
    a["name"] = order ? "zz" : "aa";
    b["name"] = "m";
    json j = {{"sensors", order ? json{b, a} : json{a, b}},
              {"zones", minimalZones()}};
    mc::op();
    auto p = load(j.dump());
    mc::compare();
    if (p.sensors.size() != 2)
        mc::fail("%zu sensors built from 2", p.sensors.size());
    compareSensor("first sensor", p.sensors.at(a["name"]), w1);
    compareSensor("other sensor", p.sensors.at("m"), w2);
    mc::cover("accepted");
    mc::state(mc::mix(o1 * 8 + (&t1 - &types[0]), o2));
    mc::outcome(o1);
}
MC_SUITE("sensors", sensors, 1 << 20, 1 << 20, false, {"accepted"});

// ---- loops ----
json somePid(int k, int opts, const std::string& type, int points,
             conf::ControllerInfo& w)
{
    double b = k ? 1000.1 : 0.1;
    w = {};
    w.type = type;
    w.setpoint = b + 1;
    json j = {{"type", type}, {"setpoint", w.setpoint}};
    std::vector<std::string> in{"s1", "s2", "s10"};
    if (opts & 1)
        in = {"s3"};
    j["inputs"] = in;
    for (auto& i : in)
        w.inputs.push_back({i, NaN, false, false});
    json q;
    if (opts & 2)
    {
        std::vector<double> conv{90.7, 0, 77, 66};
        if (k)
            conv.resize(2);
        j["tempToMargin"] = conv;
        for (size_t i = 0; i < in.size() && i < conv.size(); ++i)
        {
            w.inputs[i].convertTempToMargin = true;
            w.inputs[i].convertMarginZero = conv[i];
        }
    }
    if (opts & 4)
    {
        j["missingIsAcceptable"] = {"other", "s1x", "S1", "s", "s2", "s3"};
        for (auto& i : w.inputs)
            i.missingIsAcceptable = i.name == "s2" || i.name == "s3";
    }
    if (opts & 8)
        j["FailSafePercent"] = w.failSafePercent = k ? 66.7 : 12.3;
    double hp = 0, hn = 0, d = 0;
    bool ck = false;
    if (opts & 16)
        q["positiveHysteresis"] = hp = b + 2;
    if (opts & 32)
        q["negativeHysteresis"] = hn = b + 3;
    if (opts & 64)
        q["derivativeCoeff"] = d = -b - 4;
    if (opts & 128)
        q["checkHysteresisWithSetpoint"] = ck = true;
    q["samplePeriod"] = b + 5;
    if (k)
    {
        q["bonus"] = 17;
        j["remark"] = {1, 2};
    }
    if (type != "stepwise")
    {
        auto& i = w.pidInfo;
        i.ts = b + 5;
        q["proportionalCoeff"] = i.proportionalCoeff = b + 6;
        q["integralCoeff"] = i.integralCoeff = b + 7;
        q["feedFwdOffsetCoeff"] = i.feedFwdOffset = b + 8;
        q["feedFwdGainCoeff"] = i.feedFwdGain = b + 9;
        q["integralLimit_min"] = i.integralLimit.min = b + 10;
        q["integralLimit_max"] = i.integralLimit.max = b + 11;
        q["outLim_min"] = i.outLim.min = b + 12;
        q["outLim_max"] = i.outLim.max = b + 13;
        q["slewNeg"] = i.slewNeg = -b - 14;
        q["slewPos"] = i.slewPos = b + 15;
        i.positiveHysteresis = hp;
        i.negativeHysteresis = hn;
        i.derivativeCoeff = d;
        i.checkHysterWithSetpt = ck;
    }
    else
    {
        auto& i = w.stepwiseInfo;
        i.ts = b + 5;
        q["isCeiling"] = i.isCeiling = points & 1;
        i.positiveHysteresis = hp;
        i.negativeHysteresis = hn;
        for (size_t n = 0; n < ec::maxStepwisePoints; ++n)
            i.reading[n] = i.output[n] = NaN;
        for (int n = 0; n < points; ++n)
        {
            q["reading"][std::to_string(n)] = b + 20 + n;
            q["output"][std::to_string(n)] = b + 50 - n;
            if (n < static_cast<int>(ec::maxStepwisePoints))
            {
                i.reading[n] = b + 20 + n;
                i.output[n] = b + 50 - n;
            }
        }
    }
    j["pid"] = q;
    return j;
}
void comparePid(const char* n, const conf::ControllerInfo& g,
                const conf::ControllerInfo& w)
{
    same(n, "type", g.type, w.type);
    same(n, "setpoint", g.setpoint, w.setpoint);
    same(n, "FailSafePercent", g.failSafePercent, w.failSafePercent);
    same(n, "number of inputs", g.inputs.size(), w.inputs.size());
    for (size_t i = 0; i < w.inputs.size(); ++i)
    {
        same(n, "input", g.inputs[i].name, w.inputs[i].name);
        same(n, "tempToMargin", g.inputs[i].convertTempToMargin,
             w.inputs[i].convertTempToMargin);
        if (w.inputs[i].convertTempToMargin)
            same(n, "tempToMargin value", g.inputs[i].convertMarginZero,
                 w.inputs[i].convertMarginZero);
        same(n, "missingIsAcceptable", g.inputs[i].missingIsAcceptable,
             w.inputs[i].missingIsAcceptable);
    }
    if (w.type != "stepwise")
    {
        auto &a = g.pidInfo, &b = w.pidInfo;
        same(n, "samplePeriod", a.ts, b.ts);
        same(n, "proportionalCoeff", a.proportionalCoeff, b.proportionalCoeff);
        same(n, "integralCoeff", a.integralCoeff, b.integralCoeff);
        same(n, "derivativeCoeff", a.derivativeCoeff, b.derivativeCoeff);
        same(n, "feedFwdOffsetCoeff", a.feedFwdOffset, b.feedFwdOffset);
        same(n, "feedFwdGainCoeff", a.feedFwdGain, b.feedFwdGain);
        same(n, "integralLimit_min", a.integralLimit.min, b.integralLimit.min);
        same(n, "integralLimit_max", a.integralLimit.max, b.integralLimit.max);
        same(n, "outLim_min", a.outLim.min, b.outLim.min);
        same(n, "outLim_max", a.outLim.max, b.outLim.max);
        same(n, "slewNeg", a.slewNeg, b.slewNeg);
        same(n, "slewPos", a.slewPos, b.slewPos);
        same(n, "positiveHysteresis", a.positiveHysteresis,
             b.positiveHysteresis);
        same(n, "negativeHysteresis", a.negativeHysteresis,
             b.negativeHysteresis);
        same(n, "checkHysteresisWithSetpoint", a.checkHysterWithSetpt,
             b.checkHysterWithSetpt);
    }
    else
    {
        auto &a = g.stepwiseInfo, &b = w.stepwiseInfo;
        same(n, "isCeiling", a.isCeiling, b.isCeiling);
        same(n, "positiveHysteresis", a.positiveHysteresis,
             b.positiveHysteresis);
        same(n, "negativeHysteresis", a.negativeHysteresis,
             b.negativeHysteresis);
        for (size_t i = 0; i < ec::maxStepwisePoints; ++i)
        {
            same(n, S("reading %zu", i).c_str(), a.reading[i], b.reading[i]);
            same(n, S("output %zu", i).c_str(), a.output[i], b.output[i]);
        }
    }
}
const json& someSensors()
{
    static const json s = {{{"name", "T"}, {"type", "temp"}, {"readPath", "/sys/x"}}};
    return s;
}
json zoneJson(int64_t id, double min, double fs, json pids)
{
    return {{"id", id},
            {"minThermalOutput", min},
            {"failsafePercent", fs},
            {"pids", std::move(pids)}};
}

void loops()
{
    static const std::vector<std::string> types{
        "fan", "temp", "margin", "stepwise", "power", "powersum"};
    auto& t1 = mc::pick(types, "type");
    int o1 = mc::choose(256, "options");
    static const std::vector<int> few{0, 0xff, 0xaa};
    auto& t2 = types[mc::choose(2, "type of the other") * 3];
    int o2 = mc::pick(few, "options of the other");
    int where = mc::choose(3, "other loop");
    conf::ControllerInfo w1, w2;
    json a = somePid(0, o1, t1, 4, w1), b = somePid(1, o2, t2, 3, w2);
    a["name"] = "loop_a";
    // the other loop: before, after, or of the same name in another zone
    b["name"] = where == 2 ? "loop_a" : "loop_b";
    json zs;
    if (where == 2)
        zs = {zoneJson(1, 1, 2, {a}), zoneJson(-3, 1, 2, {b})};
    else
        zs = {zoneJson(1, 1, 2, where ? json{a, b} : json{b, a})};
    mc::op();
    auto p = load(json{{"sensors", someSensors()}, {"zones", zs}}.dump());
    same("zones", "count", p.pids.size(), zs.size());
    same("zone 1", "loops", p.pids.at(1).size(), where == 2 ? 1 : 2);
    comparePid("loop", p.pids.at(1).at("loop_a"), w1);
    comparePid("other loop", p.pids.at(where == 2 ? -3 : 1).at(b["name"]), w2);
    mc::cover("accepted");
    mc::state(mc::mix(o1 * 8 + (&t1 - &types[0]), o2 * 8 + where));
    mc::outcome(o1);
}
MC_SUITE("loops", loops, 1 << 20, 1 << 20, false, {"accepted"});

// stepwise tables of every size, beyond the supported one too
void tables()
{
    int n1 = mc::choose(23, "points"), n2 = mc::choose(23, "points");
    conf::ControllerInfo w1, w2;
    json a = somePid(0, 0, "stepwise", n1, w1),
         b = somePid(1, 0, "stepwise", n2, w2);
    a["name"] = "a";
    b["name"] = "b";
    mc::op();
    auto p = load(json{{"sensors", someSensors()},
                       {"zones", {zoneJson(1, 1, 2, {a, b})}}}
                      .dump());
    comparePid("first table", p.pids.at(1).at("a"), w1);
    comparePid("second table", p.pids.at(1).at("b"), w2);
    mc::cover("accepted");
    mc::state(n1 * 32 + n2);
    mc::outcome(n1 * 32 + n2);
}
MC_SUITE("tables", tables, 1 << 20, 1 << 20, false, {"accepted"});

// ---- zones ----
void zones()
{
    int n = 1 + mc::choose(3, "zones");
    static const std::vector<int64_t> ids{0, 255, -4, 1, 4000000000};
    static const std::vector<int> iv{0, 1, 250, -1, 100000};
    json zs = json::array();
    std::map<int64_t, conf::ZoneConfig> want;
    int rot = mc::choose(5, "ids");
    for (int z = 0; z < n; ++z)
    {
        int64_t id = ids[(z + rot) % 5];
        conf::ControllerInfo w;
        json l = somePid(z, 0, "temp", 0, w);
        l["name"] = "l";
        json j = zoneJson(id, 10.3 + z, 33.7 + z, {l});
        conf::ZoneConfig c{};
        c.minThermalOutput = 10.3 + z;
        c.failsafePercent = 33.7 + z;
        c.cycleTime.cycleIntervalTimeMS = 100;
        c.cycleTime.updateThermalsTimeMS = 1000;
        int few = z == 2 ? 2 : 5;
        int f = iv[mc::choose(few, "cycle")], t = iv[mc::choose(few, "therm")];
        int given = z == 2 ? 3 : mc::choose(4, "given");
        // an interval that is not positive is invalid: the default holds
        if (given & 1)
        {
            j["cycleIntervalTimeMS"] = f;
            if (f > 0)
                c.cycleTime.cycleIntervalTimeMS = f;
        }
        if (given & 2)
        {
            j["updateThermalsTimeMS"] = t;
            if (t > 0)
                c.cycleTime.updateThermalsTimeMS = t;
        }
        int acc = mc::choose(z == 2 ? 1 : 3, "accumulate");
        if (acc)
            j["accumulateSetPoint"] = c.accumulateSetPoint = acc == 2;
        want[id] = c;
        zs.push_back(j);
        if (!mc::thorough() && z == 0 && n == 3)
            ++z, --n; // two zones in the larger case
    }
    mc::op();
    auto p = load(json{{"sensors", someSensors()}, {"zones", zs}}.dump());
    same("zones", "count", p.zones.size(), want.size());
    for (auto& [id, c] : want)
    {
        auto n = S("zone %ld", static_cast<long>(id));
        mc::compare();
        if (!p.zones.count(id) || !p.pids.count(id))
            mc::fail("%s was not built", n.c_str());
        auto& g = p.zones.at(id);
        same(n.c_str(), "minThermalOutput", g.minThermalOutput,
             c.minThermalOutput);
        same(n.c_str(), "failsafePercent", g.failsafePercent,
             c.failsafePercent);
        same(n.c_str(), "cycleIntervalTimeMS", g.cycleTime.cycleIntervalTimeMS,
             c.cycleTime.cycleIntervalTimeMS);
        same(n.c_str(), "updateThermalsTimeMS",
             g.cycleTime.updateThermalsTimeMS,
             c.cycleTime.updateThermalsTimeMS);
        same(n.c_str(), "accumulateSetPoint", g.accumulateSetPoint,
             c.accumulateSetPoint);
    }
    mc::cover("accepted");
    mc::state(mc::hashS(zs.dump(), 1));
    mc::outcome(want.size());
}
MC_SUITE("zones", zones, 1 << 20, 1 << 20, false, {"accepted"});

// ---- rejected files ----
json fullFile()
{
    World w;
    w.dbus("T", "temp", 20);
    w.fan("F", 0);
    w.zone(0, 5, 50);
    w.zone(3, 6, 60);
    w.loop(0, "LT", "temp", {"T"}, directThermal());
    w.loop(0, "LF", "fan", {"F"}, directFan());
    w.stepwise(3, "LS", {"T"}, {1, 2}, {3, 4});
    w.loop(3, "LM", "margin", {"T"}, directThermal());
    return fileOf(w);
}
struct Path
{
    std::vector<std::string> keys; // numbers index arrays
};
json* at(json& j, const std::vector<std::string>& k, size_t n)
{
    json* p = &j;
    for (size_t i = 0; i < n; ++i)
        p = p->is_array() ? &(*p)[std::stoi(k[i])] : &(*p)[k[i]];
    return p;
}
void mandatory(std::vector<std::vector<std::string>>& out, const json& j)
{
    out.push_back({"sensors"});
    out.push_back({"zones"});
    for (size_t i = 0; i < j["sensors"].size(); ++i)
        for (auto k : {"name", "type"})
            out.push_back({"sensors", std::to_string(i), k});
    for (size_t z = 0; z < j["zones"].size(); ++z)
    {
        auto zs = std::to_string(z);
        for (auto k : {"id", "minThermalOutput", "failsafePercent", "pids"})
            out.push_back({"zones", zs, k});
        auto& ps = j["zones"][z]["pids"];
        for (size_t p = 0; p < ps.size(); ++p)
        {
            auto pn = std::to_string(p);
            for (auto k : {"name", "type", "inputs", "setpoint", "pid"})
                out.push_back({"zones", zs, "pids", pn, k});
            std::vector<const char*> ks{
                "samplePeriod",      "proportionalCoeff", "integralCoeff",
                "feedFwdOffsetCoeff", "feedFwdGainCoeff", "integralLimit_min",
                "integralLimit_max", "outLim_min",        "outLim_max",
                "slewNeg",           "slewPos"};
            if (ps[p]["type"] == "stepwise")
                ks = {"samplePeriod", "isCeiling"};
            for (auto k : ks)
                out.push_back({"zones", zs, "pids", pn, "pid", k});
        }
    }
}
void mustReject(const std::string& text, const char* what)
{
    mc::op();
    mc::compare();
    try
    {
        load(text);
    }
    catch (const std::exception&)
    {
        mc::cover("rejected");
        mc::outcome(1);
        return;
    }
    mc::fail("a file %s was accepted", what);
}
void rejected()
{
    static const json good = fullFile();
    static const std::vector<std::vector<std::string>> paths = [] {
        std::vector<std::vector<std::string>> p;
        mandatory(p, good);
        return p;
    }();
    auto& k = mc::pick(paths, "value");
    json j = good;
    json* parent = at(j, k, k.size() - 1);
    std::string name;
    for (auto& s : k)
        name += "/" + s;
    switch (mc::choose(4, "defect"))
    {
        case 0: parent->erase(k.back()); break;
        case 1: (*parent)[k.back()] = nullptr; break;
        case 2: // an object fits nowhere but where one is expected
            (*parent)[k.back()] = json::array({json::array()});
            break;
        case 3: (*parent)[k.back()] = json::object(); break;
    }
    // no zones at all is refused when the loops are started (C13's daemon)
    if (k.back() == "zones" && !j["zones"].is_array() && j.contains("zones"))
        return;
    mc::state(mc::hashS(j.dump(), 2));
    mustReject(j.dump(), S("with a bad %s", name.c_str()).c_str());
}
MC_SUITE("rejected", rejected, 1 << 20, 1 << 20, false, {"rejected"});

void truncated()
{
    static const std::string text = fullFile().dump();
    // (every cut of a shorter file; every tenth region of the long one)
    int n = mc::choose(static_cast<int>(text.size()), "length");
    mc::state(n);
    mustReject(text.substr(0, n), "cut short");
}
MC_SUITE("truncated", truncated, 1 << 20, 1 << 20, false, {"rejected"});

// ---- what is built from it ----
void built()
{
    World wd;
    wd.ext("T", "temp");
    wd.ext("U", "margin");
    wd.fan("F1");
    wd.fan("F2");
    int o = mc::choose(64, "values");
    wd.sensors["T"].timeout = o & 1 ? 5 : 0;
    wd.sensors["U"].timeout = o & 2 ? 1 : 9;
    wd.sensors["F1"].timeout = o & 4 ? 3 : 0;
    wd.zone(0, o & 8 ? 12.5 : 0, 43.5, 100 + (o & 7), 1000 + o)
        .accumulateSetPoint = o & 16;
    wd.zone(9, 8, o & 32 ? 99.5 : 1.25, 300, 400);
    wd.loop(0, "A", "temp", {"T"}, directThermal(), 33.5);
    wd.loop(9, "A", "margin", {"U"}, directThermal(), -4);
    wd.loop(0, "F", "fan", {"F1"}, directFan());
    wd.loop(9, "F", "fan", {"F2"}, directFan());
    auto p = load(fileOf(wd).dump());
    auto want = wd.zcfg;
    auto ws = wd.sensors;
    wd.sensors = p.sensors;
    wd.pids = p.pids;
    wd.zcfg = p.zones;
    wd.build();
    mc::op();
    same("built", "zones", wd.zones.size(), 2);
    for (auto& [id, c] : want)
    {
        auto n = S("zone %ld", static_cast<long>(id));
        auto* z = wd.z(id);
        same(n.c_str(), "zone id", z->getZoneID(), id);
        same(n.c_str(), "minThermalOutput", z->getMinThermalSetPoint(),
             c.minThermalOutput);
        same(n.c_str(), "failsafePercent", z->getFailSafePercent(),
             c.failsafePercent);
        same(n.c_str(), "cycle", z->getCycleIntervalTime(),
             c.cycleTime.cycleIntervalTimeMS);
        same(n.c_str(), "thermals", z->getUpdateThermalsCycle(),
             c.cycleTime.updateThermalsTimeMS);
        same(n.c_str(), "accumulate", z->getAccSetPoint(),
             c.accumulateSetPoint);
        auto path = zonePath(id) + "/A";
        auto cls = bk().clientGetT<std::string>(FANCTRL, path, iThermal,
                                                "ClassType");
        same(n.c_str(), "class of loop A", cls, id ? "Margin" : "Temperature");
        same(n.c_str(), "set point of loop A",
             bk().clientGetT<double>(FANCTRL, path, iThermal, "Setpoint"),
             id ? -4 : 33.5);
    }
    for (auto& [name, c] : ws)
    {
        same(name.c_str(), "timeout", wd.mgr->getSensor(name)->getTimeout(),
             c.timeout);
        same(name.c_str(), "name", wd.mgr->getSensor(name)->getName(), name);
    }
    mc::cover("built");
    mc::state(o);
    mc::outcome(o);
}
MC_SUITE("built", built, 1 << 20, 1 << 20, false, {"built"});
} // namespace

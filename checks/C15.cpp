//@technique exhaustive enumeration of configuration-object sets, sensor sets, property types and reply orders against an independently written reference of the resulting configuration
//@level model_checking
//@sources +dbusconf
//@variant base
//@variant missing HANDLE_MISSING_OBJECT_PATHS=1
//@budget 100 700
//@assume objects have unique names; objects that share a sensor agree on its options; objects that share a sensor are of one class
#include "config.h"
#include "dbus/dbusconfiguration.hpp"
#include "dbusconf.hpp"

#include <algorithm>
#include <regex>

namespace pid_control
{
bool restartRequested = false;
void tryRestartControlLoops(bool)
{
    restartRequested = true;
}
} // namespace pid_control

using namespace dc;

namespace
{
constexpr bool handleMissing = HANDLE_MISSING_OBJECT_PATHS;

// ---------------------------------------------------------------- reference
struct Obj
{
    enum Kind
    {
        zone,
        pid,
        step
    } kind;
    PropMap p;
    std::string svc = EM;
    // plain copies for the reference
    std::string name, cls;
    Strings zones, in, out, missOk, profiles;
    bool emptyProfiles = false; // a list of none is no restriction
    std::vector<double> t2m;
    std::map<std::string, double> num;
    std::map<std::string, bool> flag;
    std::vector<double> rd, op;
    std::string offset;
};
Obj zoneO(const std::string& name, double minimum)
{
    Obj o;
    o.kind = Obj::zone;
    o.name = name;
    o.num["MinThermalOutput"] = minimum;
    return o;
}
const std::vector<const char*> pidNums{
    "SetPoint",  "PCoefficient", "ICoefficient", "FFOffCoefficient",
    "FFGainCoefficient", "ILimitMax", "ILimitMin", "OutLimitMax",
    "OutLimitMin", "SlewNeg", "SlewPos"};
Obj pidO(const std::string& name, const std::string& cls, const Strings& zones,
         const Strings& in, const Strings& out = {}, double base = 0)
{
    Obj o;
    o.kind = Obj::pid;
    o.name = name;
    o.cls = cls;
    o.zones = zones;
    o.in = in;
    o.out = out;
    double v = base;
    for (auto n : pidNums)
        o.num[n] = v += 1;
    return o;
}
Obj stepO(const std::string& name, const std::string& cls, const Strings& zones,
          const Strings& in, const std::vector<double>& r,
          const std::vector<double>& p)
{
    Obj o;
    o.kind = Obj::step;
    o.name = name;
    o.cls = cls;
    o.zones = zones;
    o.in = in;
    o.rd = r;
    o.op = p;
    return o;
}
// how a number travels: as double, signed or unsigned integer
simbus::Val number(double v, int type)
{
    if (type == 1 && v == static_cast<int64_t>(v))
        return toVal(static_cast<int64_t>(v));
    if (type == 2 && v >= 0 && v == static_cast<uint64_t>(v))
        return toVal(static_cast<uint64_t>(v));
    return toVal(v);
}
void publish(const Obj& o, const std::string& leaf, int type = 0)
{
    PropMap p;
    p["Name"] = toVal(o.name);
    for (auto& [n, v] : o.num)
        p[n] = number(v, type);
    for (auto& [n, v] : o.flag)
        p[n] = toVal(v);
    if (!o.profiles.empty() || o.emptyProfiles)
        p["Profiles"] = toVal(o.profiles);
    if (o.kind != Obj::zone)
    {
        p["Zones"] = toVal(o.zones);
        p["Inputs"] = toVal(o.in);
        p["Class"] = toVal(o.cls);
        if (!o.missOk.empty())
            p["MissingIsAcceptable"] = toVal(o.missOk);
        if (!o.t2m.empty())
            p["TempToMargin"] = toVal(o.t2m);
    }
    if (o.kind == Obj::pid)
    {
        if (!o.out.empty())
            p["Outputs"] = toVal(o.out);
        if (!o.offset.empty())
            p["SetPointOffset"] = toVal(o.offset);
    }
    if (o.kind == Obj::step)
    {
        p["Reading"] = toVal(o.rd);
        p["Output"] = toVal(o.op);
    }
    bk().services[o.svc][cfgPath(leaf)]
                 [o.kind == Obj::zone  ? iPidZone
                  : o.kind == Obj::pid ? iPid
                                       : iStep] = p;
}

struct Loop
{
    std::string zone, name, type;
    std::multiset<std::string> inputs; // name|margin|acceptable
    std::map<std::string, double> num;
    std::vector<double> rd, op;
    bool ceiling = false, checkHyst = false;
};
struct Sens
{
    std::string type, read, write;
    int64_t min = 0, max = 0;
    bool ignoreMinMax = true, unavail = true, hostOff = false;
};
struct Ref
{
    std::map<std::string, Obj> zones; // by name
    std::vector<Loop> loops;
    std::map<std::string, Sens> sensors;
    bool invalid = false;
};

// what is on the bus
struct Bus
{
    std::map<std::string, std::string> paths; // path -> "value" or "pwm"
    std::map<std::string, double> threshold;  // path -> threshold value
};
std::string under(std::string s)
{
    std::replace(s.begin(), s.end(), ' ', '_');
    return s;
}
std::string leafOf(const std::string& p)
{
    return p.substr(p.rfind('/') + 1);
}
bool matchName(const std::string& pattern, const std::string& leaf)
{
    auto p = under(pattern);
    return std::regex_match(leaf, std::regex(p));
}
std::vector<std::string> find(const Bus& b, const std::string& pattern)
{
    std::vector<std::string> out; // in path order
    for (auto& [p, k] : b.paths)
    {
        if (k == "value" && p.find("pwm") != std::string::npos)
            continue;
        if (matchName(pattern, leafOf(p)))
            out.push_back(p);
    }
    return out;
}
std::string inputTag(const std::string& n, double margin, bool ok)
{
    return n + "|" + (std::isnan(margin) ? "-" : S("%g", margin)) + "|" +
           (ok ? "ok" : "needed");
}
Ref reference(const std::vector<Obj>& objs, const Bus& b,
              const Strings& selected)
{
    Ref r;
    for (auto& o : objs)
    {
        if (!selected.empty() && !o.profiles.empty())
        {
            bool hit = false;
            for (auto& p : o.profiles)
                hit |= std::find(selected.begin(), selected.end(), p) !=
                       selected.end();
            if (!hit)
                continue;
        }
        if (o.kind == Obj::zone)
        {
            r.zones[o.name] = o;
            continue;
        }
        // values belong to the element of Inputs they stand beside
        struct In
        {
            std::string name, path;
            double margin;
        };
        std::vector<In> ins;
        std::vector<std::string> tach, pwms;
        for (size_t i = 0; i < o.in.size(); ++i)
        {
            double m = i < o.t2m.size() ? o.t2m[i] : NaN;
            auto hits = find(b, o.in[i]);
            for (auto& p : hits)
            {
                ins.push_back({leafOf(p), p, m});
                tach.push_back(p);
            }
            if (hits.empty() && handleMissing && o.cls != "fan" &&
                std::find(o.missOk.begin(), o.missOk.end(), o.in[i]) ==
                    o.missOk.end())
            {
                std::string cls = o.kind == Obj::step ? "temp" : o.cls;
                ins.push_back(
                    {under(o.in[i]),
                     "/xyz/openbmc_project/sensors/" +
                         std::string(cls.starts_with("power") ? "power"
                                                              : "temperature") +
                         "/" + under(o.in[i]),
                     m});
            }
        }
        std::set<std::string> ok;
        for (auto& n : o.missOk)
            for (auto& p : find(b, n))
                ok.insert(leafOf(p));
        auto flag = [&](const char* n, bool d) {
            auto i = o.flag.find(n);
            return i == o.flag.end() ? d : i->second;
        };
        if (o.cls == "fan")
        {
            for (auto& n : o.out)
                for (auto& p : find(b, n))
                    pwms.push_back(p);
            if (pwms.size() != 1 && pwms.size() != tach.size())
            {
                r.invalid = true;
                return r;
            }
            ins.clear();
            for (size_t i = 0; i < tach.size(); ++i)
            {
                auto& w = pwms.size() == 1 ? pwms[0] : pwms[i];
                Sens s;
                s.type = "fan";
                s.read = tach[i];
                s.write = w;
                s.max = 255;
                s.ignoreMinMax = false;
                auto n = leafOf(tach[i]) + leafOf(w);
                r.sensors[n] = s;
                ins.push_back({n, "", NaN});
            }
        }
        else
            for (auto& i : ins)
            {
                Sens s;
                s.type = o.kind == Obj::step ? "temp" : o.cls;
                s.read = i.path;
                s.unavail = flag("InputUnavailableAsFailed", true);
                s.hostOff = flag("IgnoreFailIfHostOff", false);
                r.sensors[i.name] = s;
            }
        if (ins.empty())
            continue;
        for (auto& z : o.zones)
        {
            Loop l;
            l.zone = z;
            l.name = under(o.name);
            l.type = o.kind == Obj::step ? "stepwise" : o.cls;
            l.num = o.num;
            for (auto n : {"PositiveHysteresis", "NegativeHysteresis"})
                l.num.try_emplace(n, 0);
            if (o.kind == Obj::pid)
            {
                l.num.try_emplace("DCoefficient", 0);
                l.num.try_emplace("FailSafePercent", 0);
                if (o.cls == "fan")
                    l.num["SetPoint"] = 0;
                l.checkHyst = flag("CheckHysteresisWithSetpoint", false);
            }
            l.rd = o.rd;
            l.op = o.op;
            l.ceiling = o.cls == "Ceiling";
            if (o.offset.empty())
            {
                for (auto& i : ins)
                    l.inputs.insert(inputTag(i.name, i.margin,
                                             ok.contains(i.name)));
                r.loops.push_back(l);
            }
            else
                for (auto& i : ins)
                {
                    Loop one = l;
                    one.name = i.name;
                    one.inputs = {
                        inputTag(i.name, i.margin, ok.contains(i.name))};
                    auto t = b.threshold.find(i.path + ":" + o.offset);
                    if (t != b.threshold.end())
                        one.num["SetPoint"] += t->second;
                    r.loops.push_back(one);
                }
        }
    }
    return r;
}

// ---------------------------------------------------------------- the code
struct Got
{
    std::map<std::string, conf::SensorConfig> sensors;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zones;
    bool ok = false;
    std::string error;
};
struct Rig
{
    World wd;
    Bus bus;
    Rig()
    {
        manager();
    }
    void value(const std::string& path, const std::string& svc = SVC)
    {
        bus.paths[path] = "value";
        bk().services[svc][path][iValue]["Value"] = toVal(1.0);
    }
    void control(const std::string& n)
    {
        auto p = "/xyz/openbmc_project/control/fanpwm/" + n;
        bus.paths[p] = "pwm";
        bk().services[PWMSVC][p][iPwm]["Target"] =
            toVal(static_cast<uint64_t>(0));
    }
    void threshold(const std::string& path, const std::string& kind, double v)
    {
        bus.threshold[path + ":" + kind] = v;
        bk().services[SVC][path][kind.starts_with("Warn") ? iWarn : iCrit]
                     [kind] = toVal(v);
    }
    void order(int k)
    {
        bk().reorder = [k](std::vector<simbus::Val>& v) {
            if (k & 1)
                std::reverse(v.begin(), v.end());
            if (v.size() > 1)
                std::rotate(v.begin(), v.begin() + (k / 2) % v.size(),
                            v.end());
        };
    }
    Got read()
    {
        static boost::asio::io_context ctx;
        static boost::asio::steady_timer timer(ctx);
        Got g;
        // leftovers of an earlier configuration must not survive
        g.sensors["Old"].type = "temp";
        g.pids[77]["Old"].type = "temp";
        g.zones[77].minThermalOutput = 1;
        try
        {
            g.ok = dbus_configuration::init(buses().passive, timer, g.sensors,
                                            g.pids, g.zones);
        }
        catch (const std::exception& e)
        {
            g.error = e.what();
            if (g.error.empty())
                g.error = "exception";
        }
        return g;
    }
};
std::string show(const std::multiset<std::string>& s)
{
    std::string r;
    for (auto& i : s)
        r += (r.empty() ? "" : ", ") + i;
    return r;
}
void compareNum(const char* what, const std::string& who, const char* field,
                double got, double want)
{
    mc::compare(1);
    if (got != want)
        mc::fail("%s %s: %s is %g, the object says %g", what, who.c_str(),
                 field, got, want);
}
void judge(const Ref& r, const Got& g)
{
    mc::compare(4);
    if (r.invalid)
    {
        if (g.error.empty())
            mc::fail("an unusable configuration was accepted");
        mc::cover("refused");
        return;
    }
    if (!g.error.empty())
        mc::fail("configuration refused: %s", g.error.c_str());
    // zones, found through their numbers
    std::map<std::string, int64_t> number;
    std::set<int64_t> used;
    if (g.zones.size() != r.zones.size())
        mc::fail("%zu zones configured, %zu published", g.zones.size(),
                 r.zones.size());
    for (auto& [n, o] : r.zones)
    {
        int64_t id = -1;
        for (auto& [i, c] : g.zones)
            if (c.minThermalOutput == o.num.at("MinThermalOutput"))
                id = i;
        if (id < 0)
            mc::fail("zone %s has no configuration", n.c_str());
        number[n] = id;
        if (!used.insert(id).second)
            mc::fail("zones share number %d", (int)id);
        auto& c = g.zones.at(id);
        auto num = [&](const char* k, double d) {
            auto i = o.num.find(k);
            return i == o.num.end() ? d : i->second;
        };
        compareNum("zone", n, "FailSafePercent", c.failsafePercent,
                   num("FailSafePercent", 0));
        double a = num("CycleIntervalTimeMS", 100),
               b = num("UpdateThermalsTimeMS", 1000);
        compareNum("zone", n, "CycleIntervalTimeMS",
                   c.cycleTime.cycleIntervalTimeMS, a >= 1 ? a : 100);
        compareNum("zone", n, "UpdateThermalsTimeMS",
                   c.cycleTime.updateThermalsTimeMS, b >= 1 ? b : 1000);
        auto f = o.flag.find("AccumulateSetPoint");
        compareNum("zone", n, "AccumulateSetPoint", c.accumulateSetPoint,
                   f != o.flag.end() && f->second);
    }
    // a published number is the zone's unless another zone has the same
    std::map<int64_t, int> wish;
    for (auto& [n, o] : r.zones)
        if (o.num.contains("ZoneIndex"))
            ++wish[static_cast<int64_t>(o.num.at("ZoneIndex"))];
    for (auto& [i, k] : wish)
    {
        bool got = false;
        for (auto& [n, o] : r.zones)
            if (o.num.contains("ZoneIndex") && o.num.at("ZoneIndex") == i)
                got |= number[n] == i;
        mc::compare(1);
        if (!got)
            mc::fail("no zone that asks for number %d has it", (int)i);
    }
    if (wish.empty() && !used.empty() &&
        *used.rbegin() != static_cast<int64_t>(used.size()) - 1)
        mc::fail("zones without a number are not numbered from 0");
    // loops
    size_t n = 0;
    for (auto& [i, c] : g.pids)
        n += c.size();
    if (n != r.loops.size())
    {
        std::string has, want;
        for (auto& [i, c] : g.pids)
            for (auto& [k, l] : c)
                has += S(" %d/%s", (int)i, k.c_str());
        for (auto& l : r.loops)
            want += " " + l.zone + "/" + l.name;
        mc::fail("loops configured:%s; published:%s", has.c_str(),
                 want.c_str());
    }
    std::map<std::string, int64_t> unknown;
    for (auto& l : r.loops)
    {
        int64_t id = -1;
        if (number.contains(l.zone))
            id = number[l.zone];
        else // a zone that is not published: any other number
        {
            for (auto& [i, c] : g.pids)
                if (!used.contains(i) && c.contains(l.name))
                    id = i;
        }
        auto z = g.pids.find(id);
        if (z == g.pids.end() || !z->second.contains(l.name))
            mc::fail("loop %s is missing in zone %s", l.name.c_str(),
                     l.zone.c_str());
        auto& c = z->second.at(l.name);
        auto who = l.zone + "/" + l.name;
        std::multiset<std::string> in;
        for (auto& i : c.inputs)
            in.insert(inputTag(i.name,
                               i.convertTempToMargin ? i.convertMarginZero
                                                     : NaN,
                               i.missingIsAcceptable));
        mc::compare(2);
        if (in != l.inputs)
            mc::fail("loop %s has inputs {%s}, expected {%s}", who.c_str(),
                     show(in).c_str(), show(l.inputs).c_str());
        if (c.type != l.type)
            mc::fail("loop %s has type %s, expected %s", who.c_str(),
                     c.type.c_str(), l.type.c_str());
        auto at = [&](const char* k) { return l.num.at(k); };
        if (l.type == "stepwise")
        {
            auto& s = c.stepwiseInfo;
            compareNum("loop", who, "PositiveHysteresis", s.positiveHysteresis,
                       at("PositiveHysteresis"));
            compareNum("loop", who, "NegativeHysteresis", s.negativeHysteresis,
                       at("NegativeHysteresis"));
            compareNum("loop", who, "Class", s.isCeiling, l.ceiling);
            for (size_t i = 0; i < l.rd.size(); ++i)
            {
                compareNum("loop", who, "Reading", s.reading[i], l.rd[i]);
                compareNum("loop", who, "Output", s.output[i], l.op[i]);
            }
            if (l.rd.size() < ec::maxStepwisePoints &&
                !std::isnan(s.reading[l.rd.size()]))
                mc::fail("the table of %s does not end", who.c_str());
            continue;
        }
        auto& p = c.pidInfo;
        compareNum("loop", who, "SetPoint", c.setpoint, at("SetPoint"));
        compareNum("loop", who, "FailSafePercent", c.failSafePercent,
                   at("FailSafePercent"));
        compareNum("loop", who, "PCoefficient", p.proportionalCoeff,
                   at("PCoefficient"));
        compareNum("loop", who, "ICoefficient", p.integralCoeff,
                   at("ICoefficient"));
        compareNum("loop", who, "DCoefficient", p.derivativeCoeff,
                   at("DCoefficient"));
        compareNum("loop", who, "FFOffCoefficient", p.feedFwdOffset,
                   at("FFOffCoefficient"));
        compareNum("loop", who, "FFGainCoefficient", p.feedFwdGain,
                   at("FFGainCoefficient"));
        compareNum("loop", who, "ILimitMax", p.integralLimit.max,
                   at("ILimitMax"));
        compareNum("loop", who, "ILimitMin", p.integralLimit.min,
                   at("ILimitMin"));
        compareNum("loop", who, "OutLimitMax", p.outLim.max, at("OutLimitMax"));
        compareNum("loop", who, "OutLimitMin", p.outLim.min, at("OutLimitMin"));
        compareNum("loop", who, "SlewNeg", p.slewNeg, at("SlewNeg"));
        compareNum("loop", who, "SlewPos", p.slewPos, at("SlewPos"));
        compareNum("loop", who, "PositiveHysteresis", p.positiveHysteresis,
                   at("PositiveHysteresis"));
        compareNum("loop", who, "NegativeHysteresis", p.negativeHysteresis,
                   at("NegativeHysteresis"));
        compareNum("loop", who, "CheckHysteresisWithSetpoint",
                   p.checkHysterWithSetpt, l.checkHyst);
    }
    // sensors
    for (auto& [k, c] : g.sensors)
        if (!r.sensors.contains(k))
            mc::fail("sensor %s is configured for no loop", k.c_str());
    for (auto& [k, s] : r.sensors)
    {
        if (!g.sensors.contains(k))
            mc::fail("sensor %s is not configured", k.c_str());
        auto& c = g.sensors.at(k);
        mc::compare(8);
        if (c.type != s.type || c.readPath != s.read || c.writePath != s.write)
            mc::fail("sensor %s is type %s, read from %s, written to '%s'; "
                     "expected %s %s '%s'",
                     k.c_str(), c.type.c_str(), c.readPath.c_str(),
                     c.writePath.c_str(), s.type.c_str(), s.read.c_str(),
                     s.write.c_str());
        if (c.timeout != 0)
            mc::fail("sensor %s has a timeout", k.c_str());
        if (s.type == "fan")
        {
            if (c.min != s.min || c.max != s.max)
                mc::fail("fan %s has range %ld..%ld", k.c_str(), (long)c.min,
                         (long)c.max);
        }
        else if (c.unavailableAsFailed != s.unavail ||
                 c.ignoreFailIfHostOff != s.hostOff)
            mc::fail("sensor %s: unavailable as failed %d, ignored while the "
                     "host is off %d; expected %d %d",
                     k.c_str(), c.unavailableAsFailed, c.ignoreFailIfHostOff,
                     s.unavail, s.hostOff);
        if (c.ignoreDbusMinMax != s.ignoreMinMax)
            mc::fail("sensor %s: range of the bus ignored: %d", k.c_str(),
                     c.ignoreDbusMinMax);
    }
    mc::cover("configured");
}
uint64_t digest(const Got& g)
{
    uint64_t h = 3;
    for (auto& [i, c] : g.pids)
        for (auto& [k, l] : c)
        {
            h = mc::hashS(k, mc::mix(h, i));
            for (auto& in : l.inputs)
                h = mc::hashS(in.name, mc::hashD(in.convertMarginZero, h));
            h = mc::hashD(l.setpoint, h);
        }
    for (auto& [i, c] : g.zones)
        h = mc::hashD(c.failsafePercent, mc::mix(h, i));
    for (auto& [k, c] : g.sensors)
        h = mc::hashS(c.writePath, mc::hashS(k, h + c.ignoreFailIfHostOff));
    return h;
}
void run(Rig& rig, const std::vector<Obj>& objs, const Strings& selected = {})
{
    Ref r = reference(objs, rig.bus, selected);
    Got g = rig.read();
    judge(r, g);
    mc::op();
    mc::state(digest(g));
    mc::outcome(digest(g));
    // reading the same configuration again yields the same result
    Got again = rig.read();
    if (digest(again) != digest(g) || again.error != g.error)
        mc::fail("the same objects read twice give different configurations");
}

// ------------------------------------------------------------------ suites
// every value of every object, with every optional one absent or present and
// numbers of every type
void values()
{
    Rig rig;
    int type = mc::choose(3, "number type");
    std::vector<Obj> objs;
    auto z = zoneO("Main Zone", 17);
    // one optional property (or all, or none) is published
    static const std::vector<const char*> zopt{
        "FailSafePercent", "CycleIntervalTimeMS", "UpdateThermalsTimeMS",
        "AccumulateSetPoint", "ZoneIndex"};
    int zo = mc::choose(zopt.size() + 2, "zone option");
    int bad = mc::choose(3, "zone value");
    for (size_t i = 0; i < zopt.size(); ++i)
        if (zo == static_cast<int>(i) + 2 || zo == 1)
        {
            if (i == 3)
                z.flag[zopt[i]] = bad != 1;
            else if (i == 0)
                z.num[zopt[i]] = bad == 0 ? 75 : bad == 1 ? 33.7 : 0;
            else if (i == 4)
                z.num[zopt[i]] = bad == 0 ? 0 : bad == 1 ? 5 : 255;
            else
                z.num[zopt[i]] = bad == 0 ? 250 + i : bad == 1 ? 0 : 1;
        }
    objs.push_back(z);
    static const std::vector<std::string> classes{"temp", "margin", "power",
                                                  "powersum", "fan",
                                                  "stepwise"};
    auto cls = mc::pick(classes, "class");
    static const std::vector<const char*> popt{
        "FailSafePercent",
        "PositiveHysteresis",
        "NegativeHysteresis",
        "DCoefficient",
        "CheckHysteresisWithSetpoint",
        "InputUnavailableAsFailed",
        "IgnoreFailIfHostOff"};
    int po = mc::choose(popt.size() + 2, "loop option");
    int pv = mc::choose(2, "loop value");
    Obj o = cls == "fan" ? pidO("Loop 1", cls, {"Main Zone"}, {"Fan 1"},
                                {"Pwm 1"}, -4)
            : cls == "stepwise"
                ? stepO("Loop 1", pv ? "Ceiling" : "Floor", {"Main Zone"},
                        {"CPU 1"}, {10, 20.3, 30}, {-1, 40, 55.3})
                : pidO("Loop 1", cls, {"Main Zone"}, {"CPU 1"}, {}, -4.5);
    for (size_t i = 0; i < popt.size(); ++i)
        if (po == static_cast<int>(i) + 2 || po == 1)
        {
            if (i >= 4)
                o.flag[popt[i]] = pv;
            else if (i == 0)
            {
                if (cls != "stepwise")
                    o.num[popt[i]] = pv ? 60 : 45.3;
            }
            else
                o.num[popt[i]] = 3 + i + pv * 0.3;
        }
    objs.push_back(o);
    rig.value(sensorPath("temperature", "CPU_1"));
    rig.value(sensorPath("fan_tach", "Fan_1"));
    rig.control("Pwm_1");
    int i = 0;
    for (auto& x : objs)
        publish(x, "Obj_" + std::to_string(i++), type);
    run(rig, objs);
}
MC_SUITE("values", values, 1 << 20, 1 << 20, false, {"configured"});

// inputs are matched by name: exact names, spaces, prefixes that are other
// sensors' names, several matches, absent ones, conversions beside them
void inputs()
{
    Rig rig;
    static const std::vector<std::string> universe{
        "CPU_1", "CPU_10", "CPU_1_x", "DIMM_A", "DIMM_B", "MyCPU_1"};
    int present = mc::choose(1 << universe.size(), "present");
    for (size_t i = 0; i < universe.size(); ++i)
        if (present >> i & 1)
            rig.value(sensorPath("temperature", universe[i]),
                      i % 2 ? SVC : "xyz.test.Other");
    static const std::vector<Strings> lists{
        {"CPU 1"},
        {"CPU 10", "CPU 1"},
        {"CPU 1 x", "CPU 1", "DIMM_B"},
        {"DIMM.*"},
        {"CPU 1", "DIMM.*", "CPU_10"},
        {"CPU.*", "DIMM A"},
        {"DIMM [AB]"},
        {"CPU_1.?", "DIMM_A"}};
    auto in = mc::pick(lists, "inputs");
    bool step = mc::choose(2, "kind");
    std::vector<Obj> objs{zoneO("Z", 1)};
    Obj o = step ? stepO("Loop", "Floor", {"Z"}, in, {1}, {2})
                 : pidO("Loop", "margin", {"Z"}, in);
    static const std::vector<std::vector<double>> margins{
        {}, {0}, {90, 0, 95.3}};
    o.t2m = mc::pick(margins, "conversions");
    static const std::vector<Strings> oks{
        {}, {"CPU 1"}, {"DIMM.*"}, {"CPU_10", "DIMM B", "CPU 1"}};
    o.missOk = mc::pick(oks, "acceptable");
    if (step)
        o.t2m.clear(); // not used by these loops
    objs.push_back(o);
    publish(objs[0], "Zone");
    publish(objs[1], "Loop");
    rig.order(mc::choose(mc::thorough() ? 6 : 3, "order"));
    run(rig, objs);
    if (in.size() > 1 && present != 63)
        mc::cover("some inputs absent");
}
MC_SUITE("inputs", inputs, 1 << 20, 1 << 20, false,
         {"configured", "some inputs absent"});

// fans and their controls
void fans()
{
    Rig rig;
    static const std::vector<std::string> tachs{"Fan_1", "Fan_2", "Fan_10"},
        ctl{"Pwm_1", "Pwm_2", "Pwm_10"};
    int present = mc::choose(64, "present");
    for (int i = 0; i < 3; ++i)
    {
        if (present >> i & 1)
            rig.value(sensorPath("fan_tach", tachs[i]));
        if (present >> (3 + i) & 1)
        {
            rig.control(ctl[i]);
            // duty published as a sensor: not a control
            rig.value(sensorPath("fan_pwm", ctl[i]), "xyz.test.Other");
        }
    }
    static const std::vector<Strings> ins{{"Fan 1"},
                                          {"Fan 2", "Fan 1"},
                                          {"Fan.*"},
                                          {"Fan_10", "Fan_2", "Fan_1"}},
        outs{{"Pwm 1"}, {"Pwm 2", "Pwm 1"}, {"Pwm.*"},
             {"Pwm_10", "Pwm_2", "Pwm_1"}};
    std::vector<Obj> objs{zoneO("Z", 1)};
    objs.push_back(pidO("Fans", "fan", {"Z"}, mc::pick(ins, "inputs"),
                        mc::pick(outs, "outputs")));
    publish(objs[0], "Zone");
    publish(objs[1], "Fans");
    rig.order(mc::choose(6, "order"));
    run(rig, objs);
}
MC_SUITE("fans", fans, 1 << 20, 1 << 20, false, {"configured", "refused"});

// zones and the loops attached to them, in any order of objects
void zones()
{
    Rig rig;
    rig.value(sensorPath("temperature", "CPU_1"));
    rig.value(sensorPath("temperature", "CPU_2"));
    std::vector<Obj> objs;
    static const std::vector<std::string> names{"Zone A", "Zone_B", "C"};
    static const std::vector<double> idx{-1, 0, 2, 7};
    int nz = 1 + mc::choose(3, "zones");
    for (int i = 0; i < nz; ++i)
    {
        auto z = zoneO(names[i], 10 + i);
        double k = mc::pick(idx, "index");
        if (k >= 0)
            z.num["ZoneIndex"] = k;
        z.num["FailSafePercent"] = 50 + i + 0.3;
        z.num["CycleIntervalTimeMS"] = 100 + i;
        objs.push_back(z);
    }
    int nl = 1 + mc::choose(2, "loops");
    for (int l = 0; l < nl; ++l)
    {
        int attach = 1 + mc::choose((1 << nz) - 1, "attach");
        Strings zs;
        for (int i = 0; i < nz; ++i)
            if (attach >> i & 1)
                zs.push_back(names[i]);
        auto n = "Loop " + std::to_string(l);
        objs.push_back(l == 0 ? pidO(n, "temp", zs, {"CPU 1"}, {}, 20)
                              : stepO(n, "Ceiling", zs, {"CPU 2", "CPU 1"},
                                      {5, 6}, {7, 8}));
    }
    int ord = mc::choose(mc::thorough() ? 8 : 4, "order");
    rig.order(ord);
    int i = 0;
    for (auto& o : objs)
        publish(o, "O" + std::to_string(i++), ord % 3);
    run(rig, objs);
}
MC_SUITE("zones", zones, 1 << 20, 1 << 20, false, {"configured"});

// objects with profiles
void profiles()
{
    Rig rig;
    rig.value(sensorPath("temperature", "CPU_1"));
    rig.value(sensorPath("temperature", "CPU_2"));
    static const std::vector<Strings> prof{
        {}, {"A"}, {"B"}, {"A", "B"}, {"Aa"}, {"C", "A"}};
    std::vector<Obj> objs{
        zoneO("Z", 1), pidO("P", "temp", {"Z"}, {"CPU 1"}, {}, 5),
        pidO("Q", "temp", {"Z"}, {"CPU 1"}, {}, 50),
        stepO("R", "Floor", {"Z"}, {"CPU 2"}, {5}, {6})};
    for (int i = 1; i < 4; ++i)
    {
        int k = mc::choose(prof.size() + 1, "profiles");
        objs[i].emptyProfiles = !k;
        if (k)
            objs[i].profiles = prof[k - 1];
    }
    if (mc::choose(2, "zone"))
    {
        // the same zone with other settings in the other profile
        objs[0].profiles = {"A"};
        auto z = zoneO("Z", 2);
        z.profiles = {"B"};
        objs.push_back(z);
    }
    bool zoned = objs.size() > 4;
    static const std::vector<Strings> sel{{}, {"A"}, {"B"}, {"A", "B"}, {"x"}};
    auto selected = mc::pick(sel, "selected");
    // with profiles on the zones exactly one of them is selected
    if (zoned && (selected.size() != 1 || selected[0] == "x"))
    {
        mc::outcome(0);
        return;
    }
    int i = 0;
    for (auto& s : selected)
        bk().services["xyz.test.Mode" + std::to_string(i++)][MODEPATH]
                     [iThermalMode]["Current"] = toVal(s);
    i = 0;
    for (auto& o : objs)
        publish(o, "O" + std::to_string(i++));
    rig.order(mc::choose(2, "order"));
    run(rig, objs, selected);
}
MC_SUITE("profiles", profiles, 1 << 20, 1 << 20, false, {"configured"});

// set points relative to the thresholds of each input
void offsets()
{
    Rig rig;
    static const std::vector<std::string> kinds{
        "WarningHigh", "WarningLow", "CriticalHigh", "CriticalLow"};
    auto a = sensorPath("temperature", "CPU_1"),
         b = sensorPath("temperature", "CPU_2");
    rig.value(a);
    rig.value(b);
    // all four thresholds of A differ; B may lack the one that is used
    double v = 40;
    for (auto& k : kinds)
        rig.threshold(a, k, v += 7.3);
    auto kind = mc::pick(kinds, "threshold");
    int lack = mc::choose(2, "B lacks it");
    for (auto& k : kinds)
        if (!lack || k != kind)
            rig.threshold(b, k, v += 11.3);
    std::vector<Obj> objs{zoneO("Z", 1), zoneO("Y", 2)};
    auto p = pidO("P", mc::choose(2, "class") ? "temp" : "margin", {"Z"},
                  {"CPU 1", "CPU 2"}, {}, -12);
    if (mc::choose(2, "zones"))
        p.zones.push_back("Y");
    p.offset = kind;
    if (mc::choose(2, "conversion"))
        p.t2m = {91, 92};
    if (mc::choose(2, "acceptable"))
        p.missOk = {"CPU 2"};
    objs.push_back(p);
    int i = 0;
    for (auto& o : objs)
        publish(o, "O" + std::to_string(i++));
    rig.order(mc::choose(4, "order"));
    run(rig, objs);
}
MC_SUITE("offsets", offsets, 1 << 20, 1 << 20, false, {"configured"});

// defective objects are refused, tables of every length are exact
void tables()
{
    Rig rig;
    rig.value(sensorPath("temperature", "CPU_1"));
    int n = mc::choose(ec::maxStepwisePoints + 3, "points");
    int diff = mc::choose(3, "outputs") - 1;
    std::vector<double> r, o;
    for (int i = 0; i < n; ++i)
        r.push_back(10 + i * 1.3);
    for (int i = 0; i < n + diff; ++i)
        o.push_back(3 + i * 2.2);
    std::vector<Obj> objs{zoneO("Z", 1),
                          stepO("S", "Floor", {"Z"}, {"CPU 1"}, r, o)};
    publish(objs[0], "Zone");
    publish(objs[1], "Step");
    if (n == 0 && diff < 0)
        return;
    if (n == 0 || diff || n > static_cast<int>(ec::maxStepwisePoints))
    {
        Got g = rig.read();
        mc::compare(1);
        if (g.error.empty())
            mc::fail("table of %d readings and %zu outputs accepted", n,
                     o.size());
        mc::cover("refused");
        mc::outcome(1);
        return;
    }
    run(rig, objs);
}
MC_SUITE("tables", tables, 1 << 20, 1 << 20, false, {"configured", "refused"});

// a mandatory property that is missing makes the object unusable
void mandatory()
{
    Rig rig;
    rig.value(sensorPath("temperature", "CPU_1"));
    rig.value(sensorPath("fan_tach", "Fan_1"));
    rig.control("Pwm_1");
    std::vector<Obj> objs{zoneO("Z", 1),
                          pidO("P", "temp", {"Z"}, {"CPU 1"}),
                          pidO("F", "fan", {"Z"}, {"Fan 1"}, {"Pwm 1"}),
                          stepO("S", "Floor", {"Z"}, {"CPU 1"}, {1}, {2})};
    int i = 0;
    std::vector<const char*> ifs{iPidZone, iPid, iPid, iStep};
    for (auto& o : objs)
        publish(o, "O" + std::to_string(i++));
    int which = mc::choose(4, "object");
    auto& p = bk().services[EM][cfgPath("O" + std::to_string(which))]
                           [ifs[which]];
    std::vector<std::string> names;
    for (auto& [n, v] : p)
        if (!(which == 2 && n == "SetPoint"))
            names.push_back(n);
    auto n = mc::pick(names, "property");
    p.erase(n);
    Got g = rig.read();
    mc::compare(1);
    if (g.error.empty())
        mc::fail("object %s without %s was accepted", objs[which].name.c_str(),
                 n.c_str());
    mc::cover("refused");
    mc::op();
    mc::state(mc::hashS(n, which));
    mc::outcome(which);
}
MC_SUITE("mandatory", mandatory, 1 << 20, 1 << 20, false, {"refused"});
} // namespace

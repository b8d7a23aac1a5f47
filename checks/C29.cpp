//@technique exhaustive enumeration of event sequences and timings against the daemon's real main() under address and undefined-behaviour sanitizers, with exact resource accounting at equal points of repeated histories
//@level model_checking
//@sources +main+dbusconf
//@flags -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr,alignment,object-size -fno-sanitize-recover=all
//@budget 170 850
//@assume messages have the types their interfaces define (numbers may be int64 or double); memory allocation does not fail
#include "daemon.hpp"
#include "dbusconf.hpp"

#include "hoststatemonitor.hpp"

#include <dirent.h>

using namespace dm;
using namespace dc;

extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:halt_on_error=1:abort_on_error=1:"
           "detect_stack_use_after_return=1:handle_abort=0:"
           "allocator_may_return_null=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:abort_on_error=1:print_stacktrace=0";
}

namespace
{
constexpr auto HSVC = "xyz.openbmc_project.State.Host0";
constexpr auto HPATH = "/xyz/openbmc_project/state/host0";
constexpr auto HIF = "xyz.openbmc_project.State.Host";
constexpr auto RSVC = "xyz.fans";
constexpr auto RPATH = "/xyz/openbmc_project/control/riser";
constexpr auto RIF = "xyz.openbmc_project.Control.FanRedundancy";
constexpr int cycle = 1000; // ms

// Everything the daemon can be asked to use at once.
struct Plant
{
    World wd;
    bool json;
    bool pwmDown = false, lost = false, hostOn = true, group = false;
    int n = 0; // events so far
    bool extra = true;
    bool manual[2]{};
    std::string loopOff;

    explicit Plant(bool j) : json(j)
    {
        fresh();
        vt::redirect("/sys/", mc::scratch() + "/sys/");
        vt::redirect("/etc/thermal.d/", mc::scratch() + "/thermal.d/");
        for (auto d : {"sys", "thermal.d"})
            mkdir((mc::scratch() + "/" + d).c_str(), 0755);
        std::filesystem::remove(configPath());
        bk().services[HSVC][HPATH][HIF]["CurrentHostState"] = toVal(
            std::string("xyz.openbmc_project.State.Host.HostState.Running"));
        bk().fault = [this](const simbus::CallInfo& c) {
            return pwmDown && c.member == "Set" && c.dest == PWMSVC ? EIO : 0;
        };
        json ? useFile() : useBus();
    }
    std::string sys(const char* n)
    {
        return mc::scratch() + "/sys/" + n;
    }
    void useFile()
    {
        wd.dbus("T", "temp", 30);
        wd.dbus("T2", "temp", 35);
        wd.dbus("P", "power", 100).ignoreFailIfHostOff = true;
        wd.ext("M", "margin", 3);
        wd.sensor("Hw", "temp", 2).readPath = "/sys/temp1_input";
        for (auto f : {"FanA", "FanB", "FanC"})
            wd.fan(f, 3000);
        auto& ff = wd.sensor("FanF", "fan", 0);
        ff.readPath = "/sys/fan1_input";
        ff.writePath = "/sys/pwm1";
        ff.max = 255;
        auto& fw = wd.sensor("FanW", "fan", 0);
        fw.readPath = "";
        fw.writePath = "/sys/pwm2";
        writeFile(sys("temp1_input"), "31000\n");
        writeFile(sys("fan1_input"), "2900\n");
        writeConfig();
    }
    void writeConfig()
    {
        ec::pidinfo p = directFan(0, 100);
        p.ts = cycle / 1000.0;
        p.proportionalCoeff = 0.01;
        p.integralCoeff = 0.001;
        p.derivativeCoeff = 0.002;
        p.integralLimit = {-10, 10};
        p.slewNeg = -20;
        p.slewPos = 20;
        auto th = directThermal();
        th.positiveHysteresis = 2;
        th.negativeHysteresis = 1;
        auto chk = directThermal();
        chk.checkHysterWithSetpt = true;
        wd.pids.clear();
        wd.zcfg.clear();
        wd.zone(1, 10, 80, cycle, 2 * cycle);
        wd.zcfg[1].accumulateSetPoint = true;
        wd.loop(1, "cpu_1", "temp", {"T", "Hw"}, th, 0, 60);
        wd.loop(1, "cpu_2", "temp", {"T2"}, th);
        auto& m = wd.loop(1, "margin", "margin", {"M", "T2"}, chk, 5);
        m.inputs[0].convertMarginZero = 0;
        m.inputs[1].convertTempToMargin = true;
        m.inputs[1].convertMarginZero = 90;
        m.inputs[0].convertTempToMargin = true;
        // a full table
        std::vector<double> r, o;
        for (int i = 0; i < static_cast<int>(ec::maxStepwisePoints); ++i)
        {
            r.push_back(20 + i);
            o.push_back(10 + 2 * i);
        }
        wd.stepwise(1, "steps", {"T", "T2"}, r, o, false, 1, 1);
        wd.stepwise(1, "lid", {"T"}, {0, 50}, {90, 100}, true);
        wd.loop(1, "fans", "fan", {"FanA", "FanF", "FanW"}, p);
        wd.loop(1, "fans2", "fan", {"FanB"}, directFan(0, 100));
        if (extra)
        {
            wd.zone(2, 0, 70, cycle, cycle);
            wd.loop(2, "watts", "powersum", {"P"}, th);
            wd.loop(2, "temp", "temp", {"T"}, th).inputs[0].missingIsAcceptable =
                true;
            wd.loop(2, "fansC", "fan", {"FanC"}, p);
        }
        writeFile(configPath(), fileOf(wd).dump());
    }
    void busSensor(const char* layer, const char* n, double v)
    {
        auto ifs = sensorIfs("DegreesC", v);
        ifs[iCrit]["CriticalAlarmHigh"] = toVal(false);
        ifs[iCrit]["CriticalAlarmLow"] = toVal(false);
        ifs[iCrit]["CriticalHigh"] = toVal(90.0);
        bk().services[SVC][sensorPath(layer, n)] = ifs;
    }
    void useBus()
    {
        manager();
        put("Zone_0", iPidZone, zoneObj("Main Zone", 1, 10, 80));
        put("Zone_1", iPidZone, zoneObj("Other", 2, 0, 70));
        for (auto z : {"Zone_0", "Zone_1"})
        {
            bk().services[EM][cfgPath(z)][iPidZone]["CycleIntervalTimeMS"] =
                toVal(static_cast<double>(cycle));
            bk().services[EM][cfgPath(z)][iPidZone]["UpdateThermalsTimeMS"] =
                toVal(2.0 * cycle);
        }
        auto f = pidObj("Fans", "fan", {"Main Zone"}, {"FanA", "FanB"},
                        {"PwmA", "PwmB"});
        f["FFGainCoefficient"] = toVal(1.0);
        put("Fans", iPid, f);
        f["Name"] = toVal(std::string("FansC"));
        f["Zones"] = toVal(Strings{"Other"});
        f["Inputs"] = toVal(Strings{"FanC"});
        f["Outputs"] = toVal(Strings{"PwmC"});
        put("FansC", iPid, f);
        auto l = pidObj("cpu 1", "temp", {"Main Zone", "Other"}, {"T", "T2"});
        l["PCoefficient"] = toVal(-1.0);
        l["PositiveHysteresis"] = toVal(2.0);
        l["SetPointOffset"] = toVal(std::string("CriticalHigh"));
        put("Cpu", iPid, l);
        l.erase("SetPointOffset");
        l["Name"] = toVal(std::string("margin"));
        l["Class"] = toVal(std::string("margin"));
        l["TempToMargin"] = toVal(std::vector<double>{90});
        l["Inputs"] = toVal(Strings{"T2"});
        l["Zones"] = toVal(Strings{"Main Zone"});
        put("Margin", iPid, l);
        std::vector<double> r, o;
        for (int i = 0; i < static_cast<int>(ec::maxStepwisePoints); ++i)
        {
            r.push_back(20 + i);
            o.push_back(10 + 2 * i);
        }
        put("Steps", iStep,
            stepObj("steps", "Floor", {"Main Zone"}, {"T", "T2"}, r, o));
        put("Lid", iStep,
            stepObj("lid", "Ceiling", {"Main Zone"}, {"T"}, {0, 50},
                    {90, 100}));
        busSensor("temperature", "T", 30);
        busSensor("temperature", "T2", 35);
        for (auto n : {"FanA", "FanB", "FanC"})
        {
            bk().services[SVC][sensorPath("fan_tach", n)] =
                sensorIfs("RPMS", 3000);
        }
        for (auto n : {"PwmA", "PwmB", "PwmC"})
            pwm(n);
        bk().services[MODESVC][MODEPATH][iThermalMode]["Current"] =
            toVal(std::string("A"));
    }
    std::string path(const std::string& n)
    {
        if (json)
            return wd.objPath(n);
        return sensorPath(n.starts_with("Fan") ? "fan_tach" : "temperature", n);
    }
    void change(const std::string& n, const char* i, const char* p,
                simbus::Val v)
    {
        if (bk().services[SVC].contains(path(n)))
            bk().propsChanged(SVC, path(n), i, {{p, std::move(v)}});
    }
    void client(const std::string& dest, const std::string& path,
                const char* iface, const char* prop, simbus::Val v)
    {
        try
        {
            bk().clientSet(dest, path, iface, prop, std::move(v));
        }
        catch (const sdbusplus::exception_t&)
        {} // not there at the moment, or refused
    }
    enum
    {
        reload,
        swap,        // another configuration, then a reload
        vanish,      // a sensor object disappears, or comes back
        nan,         // a bad reading, or a good one
        unavailable, // availability toggles
        alarm,
        toggleManual,
        pwmFails,
        host,
        redundancy,
        nLife, // the above change what is built or sent
        integer = nLife,
        odd,      // messages without the expected properties
        enable,   // a loop's enable switch
        hostSens, // host sensor written (or: written with a bad value)
        files,    // sysfs files vanish, hold garbage, come back
        tuning,   // set point files appear
        badSet,   // requests the daemon refuses
        nKinds
    };
    static const char* name(int k)
    {
        static const char* n[] = {
            "reload", "swap",  "vanish",     "nan",     "unavailable", "alarm",
            "manual", "pwm",   "host",       "group",   "integer",     "odd",
            "enable", "hostS", "sysfs-file", "setpoint", "badSet"};
        return n[k];
    }
    void event(int kind)
    {
        ++n;
        mc::op();
        switch (kind)
        {
            case reload:
                raise(SIGHUP);
                break;
            case swap:
                extra = !extra;
                if (json)
                {
                    writeConfig();
                    raise(SIGHUP);
                }
                else
                {
                    bk().propsChanged(
                        EM, cfgPath("FansC"), iPid,
                        {{"Zones", toVal(extra ? Strings{"Other"}
                                               : Strings{"Main Zone"})}});
                    bk().propsChanged(
                        EM, cfgPath("Cpu"), iPid,
                        {{"Zones", toVal(extra ? Strings{"Main Zone", "Other"}
                                               : Strings{"Main Zone"})}});
                }
                break;
            case vanish:
                lost = !lost;
                if (lost)
                {
                    gone = bk().services[SVC][path("T2")];
                    std::vector<std::string> ifs;
                    for (auto& [i, p] : gone)
                        ifs.push_back(i);
                    bk().interfacesRemoved(SVC, "/xyz/openbmc_project/sensors",
                                           path("T2"), ifs);
                }
                else
                    bk().interfacesAdded(SVC, "/xyz/openbmc_project/sensors",
                                         path("T2"), gone);
                break;
            case nan:
                change("T", iValue, "Value", toVal(n % 2 ? NaN : 33.0));
                change("FanA", iValue, "Value", toVal(n % 2 ? INF : 2500.0));
                break;
            case unavailable:
                change("T", iAvail, "Available", toVal(n % 2 == 0));
                change("FanB", iAvail, "Available", toVal(n % 2 == 0));
                change("FanA", iOper, "Functional", toVal(n % 2 == 0));
                break;
            case alarm:
                change("T", iCrit, "CriticalAlarmHigh", toVal(n % 2 == 1));
                change("T", iCrit, "CriticalAlarmLow", toVal(n % 3 == 1));
                break;
            case toggleManual:
                manual[0] = !manual[0];
                client(FANCTRL, zonePath(1), iMode, "Manual",
                       toVal(manual[0]));
                break;
            case pwmFails:
                pwmDown = !pwmDown;
                break;
            case host:
                hostOn = !hostOn;
                bk().propsChanged(
                    HSVC, HPATH, HIF,
                    {{"CurrentHostState",
                      toVal(std::string("xyz.openbmc_project.State.Host."
                                        "HostState.") +
                            (hostOn ? "Running" : "Off"))}});
                break;
            case redundancy:
                group = !group;
                if (group)
                    bk().interfacesAdded(
                        RSVC, "/xyz/openbmc_project", RPATH,
                        {{RIF,
                          {{"Status",
                            toVal(std::string(RIF) + ".State.Failed")},
                           {"Collection",
                            toVal(Strings{path("FanA"), path("FanB")})},
                           {"AllowedFailures", toVal(uint8_t{0})}}}});
                else
                    bk().interfacesRemoved(RSVC, "/xyz/openbmc_project", RPATH,
                                           {RIF});
                break;
            case integer:
                change("T", iValue, "Value",
                       toVal(static_cast<int64_t>(n % 2 ? -5 : 1ll << 40)));
                change("T", iValue, "Value", toVal(n % 2 ? -1e300 : 1e300));
                break;
            case odd:
                bk().propsChanged(SVC, path("T"), iValue, {}, false);
                bk().propsChanged(SVC, path("T"), iValue,
                                  {{"MaxValue", toVal(255.0)},
                                   {"Unit", toVal(std::string("x"))}},
                                  false);
                bk().propsChanged(SVC, path("T"), iCrit,
                                  {{"CriticalHigh", toVal(90.0)}}, false);
                bk().propsChanged(SVC, path("T"),
                                  "xyz.openbmc_project.Association.Definitions",
                                  {{"Associations", toVal(Strings{})}}, false);
                bk().propsChanged(HSVC, HPATH, HIF,
                                  {{"RequestedHostTransition",
                                    toVal(std::string("x"))}},
                                  false);
                bk().propsChanged(RSVC, RPATH, RIF,
                                  {{"AllowedFailures", toVal(uint8_t{1})}},
                                  false);
                bk().propsChanged("xyz.other", "/xyz/other", RIF,
                                  {{"Status", toVal(std::string("Failed"))}},
                                  false);
                bk().interfacesAdded(
                    SVC, "/xyz/openbmc_project/sensors", "/xyz/new",
                    {{"xyz.a", {{"P", toVal(std::vector<double>{1})}}},
                     {"xyz.b", {}}},
                    false);
                break;
            case enable:
                client(FANCTRL, zonePath(1) + "/cpu_1", iEnable, "Enabled",
                       toVal(n % 2 == 0));
                client(FANCTRL, zonePath(1) + "/steps", iEnable, "Enabled",
                       toVal(n % 2 == 0));
                break;
            case hostSens:
                if (json)
                    client(EXTSVC, path("M"), iValue, "Value",
                           toVal(n % 2 ? -NaN : 12.5));
                break;
            case files:
                if (n % 3 == 1)
                    for (auto f : {"temp1_input", "fan1_input", "pwm1"})
                        std::filesystem::remove(sys(f));
                else
                    for (auto f : {"temp1_input", "fan1_input"})
                        writeFile(sys(f),
                                  n % 3 ? "-99999999999999999999\n" : "3000\n");
                break;
            case tuning:
                writeFile(mc::scratch() + "/thermal.d/setpoint",
                          n % 2 ? "99999999999999999999\n" : "150\n");
                writeFile(mc::scratch() + "/thermal.d/setpoint1",
                          n % 2 ? "x\n" : "120\n");
                break;
            case badSet:
                client(FANCTRL, zonePath(1), iMode, "FailSafe", toVal(true));
                client(FANCTRL, zonePath(1), iMode, "Manual", toVal(1.0));
                client(FANCTRL, zonePath(1), iZone, "Leader",
                       toVal(std::string("me")));
                client(FANCTRL, zonePath(1) + "/cpu_1", iThermal, "Leader",
                       toVal(std::string("x")));
                client(FANCTRL, zonePath(7), iMode, "Manual", toVal(true));
                break;
        }
    }
    simbus::IfaceMap gone;
    // everything back to normal, so that what runs at the end is known
    void heal()
    {
        pwmDown = false;
        if (lost)
            event(vanish);
        for (int z = 0; z < 2; ++z)
            client(FANCTRL, zonePath(z + 1), iMode, "Manual", toVal(true));
        if (json)
        {
            writeFile(sys("temp1_input"), "31000\n");
            writeFile(sys("fan1_input"), "2900\n");
        }
    }
    std::vector<std::string> fans() const
    {
        if (!json)
            return {"PwmA", "PwmB", "PwmC"};
        if (extra)
            return {"FanA", "FanB", "FanC"};
        return {"FanA", "FanB"};
    }
};

const std::vector<int64_t> gaps{0, 30 * vt::ms, 2030 * vt::ms, 1100 * vt::ms,
                                9 * vt::sec};
std::vector<std::string> args(bool json, int opt)
{
    std::vector<std::string> a;
    if (json)
        a = {"-c", configPath()};
    if (opt == 1 || opt == 2)
        a.push_back("-d");
    if (opt == 1 || opt == 3)
    {
        auto d = mc::scratch() + "/log";
        mkdir(d.c_str(), 0755);
        a.insert(a.end(), {"-l", d, "-g", "-t"});
    }
    return a;
}

// Whatever happens: the daemon keeps running, every zone keeps cycling, and
// it ends cleanly when asked to.
void events()
{
    bool json = mc::choose(2, "configuration") == 0;
    int opt = mc::choose(mc::thorough() ? 4 : 2, "options");
    Plant p(json);
    int k[3], g[3];
    k[0] = mc::choose(Plant::nKinds, "event");
    g[0] = mc::choose(mc::thorough() ? 3 : 1, "at");
    k[1] = mc::choose(Plant::nKinds, "event");
    g[1] = mc::choose(mc::thorough() ? 5 : 3, "gap");
    k[2] = mc::choose(1 + (mc::thorough() ? Plant::nKinds : 1), "event") - 1;
    g[2] = k[2] < 0 ? 0 : mc::choose(mc::thorough() ? 3 : 2, "gap");
    static const std::vector<int64_t> firsts{3 * vt::sec, 0,
                                             3 * vt::sec + 10 * vt::ms};
    int64_t t = firsts[g[0]];
    for (int i = 0; i < 3; ++i)
    {
        if (i)
            t += gaps[g[i]];
        if (k[i] >= 0)
            vt::at(t, [&p, &k, i] { p.event(k[i]); });
    }
    int64_t judge = t + 35 * vt::sec;
    std::set<std::string> seen;
    size_t sets = 0;
    vt::at(t + 8 * vt::sec, [&] { p.heal(); });
    vt::at(judge, [&] {
        for (int z = 0; z < 2; ++z)
        {
            p.client(FANCTRL, zonePath(z + 1), iMode, "Manual", toVal(true));
            p.client(FANCTRL, zonePath(z + 1), iMode, "Manual", toVal(false));
        }
        sets = bk().sets.size();
        if (json)
            std::filesystem::remove(p.sys("pwm1"));
    });
    auto what = [&] {
        std::string s = json ? "file," : "bus,";
        for (int i = 0; i < 3; ++i)
            if (k[i] >= 0)
                s += S(" %s+%ldms", Plant::name(k[i]),
                       static_cast<long>(i ? gaps[g[i]] / vt::ms : 0));
        return s;
    };
    vt::at(judge + 2 * cycle * vt::ms, [&] {
        for (auto& x : fanWrites(sets))
            seen.insert(x.fan);
        mc::compare(p.fans().size());
        for (auto& f : p.fans())
            if (!seen.contains(f))
                mc::fail("%s is not controlled any more after: %s", f.c_str(),
                         what().c_str());
        if (json && !std::filesystem::exists(p.sys("pwm1")))
            mc::fail("pwm1 is not controlled any more after: %s",
                     what().c_str());
        raise(SIGTERM);
    });
    Outcome o;
    try
    {
        o = run(args(json, opt), judge + 8 * vt::sec,
                [&](int rc) { mc::fail("exit(%d) after: %s", rc, what().c_str()); });
    }
    catch (const std::exception& e)
    {
        mc::fail("the program dies of an exception (%s) after: %s", e.what(),
                 what().c_str());
    }
    mc::compare();
    if (o.kind != Outcome::returned || o.rc != 0)
        mc::fail("%s %d after: %s",
                 o.kind == Outcome::running ? "did not end" : "main returned",
                 o.rc, what().c_str());
    if (o.at < judge)
        mc::fail("the program ended by itself after: %s", what().c_str());
    mc::cover(json ? "file configuration" : "bus configuration");
    uint64_t h = 1;
    for (int i = 0; i < 3; ++i)
        h = mc::mix(h, k[i] * 8 + g[i] + 8);
    mc::state(mc::mix(h, opt * 2 + json));
    mc::outcome(h);
}
MC_SUITE("events", events, 1 << 20, 1 << 20, true,
         {"file configuration", "bus configuration"});

// What a round of events leaves behind: nothing more than the round before.
struct Held
{
    size_t matches, objects, files, bytes;
};
size_t openFiles()
{
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}
void wear()
{
    bool json = mc::choose(2, "configuration") == 0;
    int opt = mc::choose(mc::thorough() ? 4 : 2, "options");
    Plant p(json);
    int a = mc::choose(Plant::nKinds, "event");
    int b = mc::choose(mc::thorough() ? int(Plant::nKinds) : int(Plant::nLife), "event");
    int g = mc::choose(mc::thorough() ? 3 : 1, "gap");
    static const int64_t round = 32 * vt::sec;
    static const int rounds = 6;
    static Held held[rounds];
    // every kind of event is its own inverse, or periodic with period 2 or 3
    for (int r = 0; r < rounds; ++r)
    {
        int64_t t = 3 * vt::sec + r * round;
        p.n = 0;
        for (int i = 0; i < 6; ++i) // a multiple of 2 and 3
        {
            vt::at(t + i * 4 * vt::sec, [&p, a] { p.event(a); });
            vt::at(t + i * 4 * vt::sec + gaps[g], [&p, b] { p.event(b); });
        }
        vt::at(t + round - vt::sec - 7, [r] {
            bk().sets.clear();
            bk().sets.shrink_to_fit();
            held[r] = {bk().matches.size(), bk().servers.size(), openFiles(),
                       __sanitizer_get_current_allocated_bytes()};
        });
    }
    auto what = [&] {
        return S("%s, options %d: %s, %s+%ldms six times a round",
                 json ? "file" : "bus", opt, Plant::name(a), Plant::name(b),
                 static_cast<long>(gaps[g] / vt::ms));
    };
    Outcome o;
    try
    {
        o = run(args(json, opt), 3 * vt::sec + rounds * round,
                [&](int rc) { mc::fail("exit(%d) with %s", rc, what().c_str()); });
    }
    catch (const std::exception& e)
    {
        mc::fail("the program dies of an exception (%s) with %s", e.what(),
                 what().c_str());
    }
    if (o.kind != Outcome::running)
        mc::fail("the program ended by itself with %s", what().c_str());
    mc::compare(4 * (rounds - 2));
    auto grows = [&](size_t Held::* m, size_t least, const char* n) {
        for (int r = 2; r < rounds; ++r)
            if (held[r].*m < held[r - 1].*m + least)
                return;
        mc::fail("%s grow with every round (%zu, %zu, %zu, %zu): %s", n,
                 held[rounds - 4].*m, held[rounds - 3].*m, held[rounds - 2].*m,
                 held[rounds - 1].*m, what().c_str());
    };
    grows(&Held::matches, 1, "bus subscriptions");
    grows(&Held::objects, 1, "published objects");
    grows(&Held::files, 1, "open files");
    grows(&Held::bytes, 16, "bytes of memory");
    mc::cover("worn");
    mc::state(mc::mix(mc::mix(a * 32 + b, g), opt * 2 + json));
    mc::outcome(mc::mix(held[rounds - 1].matches, held[rounds - 1].files));
}
MC_SUITE("wear", wear, 1 << 20, 1 << 20, true, {"worn"});
} // namespace

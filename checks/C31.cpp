//@technique exhaustive exploration of the positions of environment events among all bus operations of the daemon's start and reload, on its real main()
//@level model_checking
//@sources +main+dbusconf
//@budget 120 850
//@assume signals reach the subscriptions that exist when they are sent, in order, once the program waits for events
#include "daemon.hpp"
#include "dbusconf.hpp"

#include "hoststatemonitor.hpp"

using namespace dm;
using namespace dc;

namespace
{
constexpr auto HSVC = "xyz.openbmc_project.State.Host0";
constexpr auto HPATH = "/xyz/openbmc_project/state/host0";
constexpr auto HIF = "xyz.openbmc_project.State.Host";
constexpr auto RSVC = "xyz.fans";
constexpr auto RPATH = "/xyz/openbmc_project/control/riser";
constexpr auto RIF = "xyz.openbmc_project.Control.FanRedundancy";
constexpr auto SENSORS = "/xyz/openbmc_project/sensors";
constexpr int failsafeDuty = 90;

// The environment: what it holds is the reference for what the daemon must do
// once everything has settled.
struct Env
{
    World wd;
    bool json;
    double t = 30, t3 = 70, minimum = 10, profB = 55;
    bool avail = true, high = false, low = false, t2bad = false, hostOn = true;
    bool group = false, groupFailed = false, has3 = false, modeB = false;
    bool started = false;

    explicit Env(bool j) : json(j) {}

    std::string hostState() const
    {
        return std::string("xyz.openbmc_project.State.Host.HostState.") +
               (hostOn ? "Running" : "Off");
    }
    std::string path(const std::string& n)
    {
        return sensorPath(n.starts_with("F") ? "fan_tach" : "temperature", n);
    }
    simbus::PropMap groupProps()
    {
        simbus::PropMap p;
        p["Status"] = toVal(std::string(RIF) + ".State." +
                            (groupFailed ? "Failed" : "Full"));
        p["Collection"] = toVal(std::vector<std::string>{path("FR")});
        p["AllowedFailures"] = toVal(uint8_t{0});
        return p;
    }
    void lay()
    {
        fresh();
        std::filesystem::remove(configPath());
        auto& s = bk().services[SVC];
        auto temp = [&](const char* n, double v) {
            auto i = sensorIfs("DegreesC", v);
            i[iCrit]["CriticalAlarmHigh"] = toVal(high && *n == 'T' && !n[1]);
            i[iCrit]["CriticalAlarmLow"] = toVal(low && *n == 'T' && !n[1]);
            i[iAvail]["Available"] = toVal(avail || n[1] != 0);
            return i;
        };
        s[path("T")] = temp("T", avail ? t : NaN);
        s[path("T2")] = temp("T2", t2bad ? NaN : 20.0);
        if (has3)
            s[path("T3")] = temp("T3", t3);
        for (auto f : {"FA", "FR"})
            s[path(f)] = sensorIfs("RPMS", 3000);
        for (auto f : {"PwmA", "PwmR"})
            pwm(f);
        bk().services[HSVC][HPATH][HIF]["CurrentHostState"] =
            toVal(hostState());
        if (group)
            bk().services[RSVC][RPATH][RIF] = groupProps();
        if (json)
            writeConfig();
        else
            busConfig();
        started = true;
    }
    void writeConfig()
    {
        wd.pids.clear();
        wd.zcfg.clear();
        wd.sensors.clear();
        auto add = [&](const char* n, const char* type, const char* w) {
            auto& c = wd.sensor(n, type, 0);
            c.readPath = path(n);
            if (w)
                c.writePath = std::string("/xyz/openbmc_project/control/"
                                          "fanpwm/") +
                              w;
            c.max = w ? 255 : 0;
            return &c;
        };
        add("T", "temp", nullptr);
        add("T2", "temp", nullptr)->ignoreFailIfHostOff = true;
        add("FA", "fan", "PwmA");
        add("FR", "fan", "PwmR");
        wd.zone(1, minimum, failsafeDuty, 1000, 1000);
        wd.loop(1, "t", "temp", {"T"}, directThermal());
        wd.loop(1, "t2", "temp", {"T2"}, directThermal());
        wd.loop(1, "f", "fan", {"FA", "FR"}, directFan(0, 100));
        writeFile(configPath(), fileOf(wd).dump());
    }
    void busConfig()
    {
        manager();
        put("Zone_0", iPidZone, zoneObj("Main", 1, minimum, failsafeDuty));
        bk().services[EM][cfgPath("Zone_0")][iPidZone]["CycleIntervalTimeMS"] =
            toVal(1000.0);
        auto f = pidObj("f", "fan", {"Main"}, {"FA", "FR"}, {"PwmA", "PwmR"});
        f["FFGainCoefficient"] = toVal(1.0);
        f["OutLimitMin"] = toVal(0.0);
        f["OutLimitMax"] = toVal(100.0);
        put("f", iPid, f);
        auto l = pidObj("t", "temp", {"Main"}, {"T", "T3"});
        l["PCoefficient"] = toVal(-1.0);
        put("t", iPid, l);
        l["Name"] = toVal(std::string("t2"));
        l["Inputs"] = toVal(Strings{"T2"});
        l["IgnoreFailIfHostOff"] = toVal(true);
        put("t2", iPid, l);
        auto b = pidObj("b", "temp", {"Main"}, {"T2"});
        b["Profiles"] = toVal(Strings{"B"});
        b["IgnoreFailIfHostOff"] = toVal(true);
        b["OutLimitMin"] = toVal(profB); // asks for this in any case
        put("b", iPid, b);
        bk().services[MODESVC][MODEPATH][iThermalMode]["Current"] =
            toVal(std::string(modeB ? "B" : "A"));
    }
    void change(const char* n, const char* i, const char* p, simbus::Val v)
    {
        bk().propsChanged(SVC, path(n), i, {{p, std::move(v)}});
    }
    enum
    {
        value,
        unavailable,
        alarmHigh,
        alarmLow,
        badValue, // of the sensor expected to vanish with host power
        host,
        groupStatus,
        groupThere,
        config, // of the zone
        profile,
        sensor3,
        nKinds
    };
    // before the start: the other state
    void prepare(int k, bool other)
    {
        if (!other)
            return;
        switch (k)
        {
            case value:
                t = 60;
                break;
            case unavailable:
                avail = false;
                break;
            case alarmHigh:
                high = true;
                break;
            case alarmLow:
                low = true;
                break;
            case badValue:
                t2bad = true;
                break;
            case host:
                hostOn = false;
                break;
            case groupStatus:
                groupFailed = true;
                break;
            case groupThere:
                group = groupFailed = true;
                break;
            case config:
                minimum = 45;
                break;
            case profile:
                modeB = true;
                break;
            case sensor3:
                has3 = true;
                break;
        }
    }
    static const char* name(int k)
    {
        static const char* n[] = {"value",    "availability", "high alarm",
                                  "low alarm", "bad value",   "host",
                                  "group status", "group",    "configuration",
                                  "profile",  "third sensor"};
        return n[k];
    }
    void event(int k)
    {
        mc::op();
        switch (k)
        {
            case value:
                t = t == 30 ? 60 : 30;
                if (avail)
                    change("T", iValue, "Value", toVal(t));
                break;
            case unavailable:
                avail = !avail;
                change("T", iAvail, "Available", toVal(avail));
                change("T", iValue, "Value", toVal(avail ? t : NaN));
                break;
            case alarmHigh:
                high = !high;
                change("T", iCrit, "CriticalAlarmHigh", toVal(high));
                break;
            case alarmLow:
                low = !low;
                change("T", iCrit, "CriticalAlarmLow", toVal(low));
                break;
            case badValue:
                t2bad = !t2bad;
                change("T2", iValue, "Value", toVal(t2bad ? NaN : 20.0));
                break;
            case host:
                hostOn = !hostOn;
                bk().propsChanged(HSVC, HPATH, HIF,
                                  {{"CurrentHostState", toVal(hostState())}});
                break;
            case groupStatus:
                groupFailed = !groupFailed;
                if (group)
                    bk().propsChanged(RSVC, RPATH, RIF,
                                      {{"Status", groupProps()["Status"]}});
                break;
            case groupThere:
                group = !group;
                if (group)
                    bk().interfacesAdded(RSVC, "/xyz/openbmc_project", RPATH,
                                         {{RIF, groupProps()}});
                else
                    bk().interfacesRemoved(RSVC, "/xyz/openbmc_project",
                                           RPATH, {RIF});
                break;
            case config:
                minimum = minimum == 10 ? 45 : 10;
                if (json)
                {
                    writeConfig();
                    raise(SIGHUP);
                }
                else
                    bk().propsChanged(EM, cfgPath("Zone_0"), iPidZone,
                                      {{"MinThermalOutput", toVal(minimum)}});
                break;
            case profile:
                modeB = !modeB;
                if (!json)
                    bk().propsChanged(
                        MODESVC, MODEPATH, iThermalMode,
                        {{"Current", toVal(std::string(modeB ? "B" : "A"))}});
                break;
            case sensor3:
                has3 = !has3;
                if (json)
                    break;
                if (has3)
                {
                    auto i = sensorIfs("DegreesC", t3);
                    i[iCrit]["CriticalAlarmHigh"] = toVal(false);
                    i[iCrit]["CriticalAlarmLow"] = toVal(false);
                    bk().interfacesAdded(SVC, SENSORS, path("T3"), i);
                }
                else
                    bk().interfacesRemoved(SVC, SENSORS, path("T3"),
                                           {iValue, iAvail, iOper, iCrit});
                break;
        }
    }
    // the reference
    bool failsafe() const
    {
        return !avail || high || low || (t2bad && hostOn) ||
               (group && groupFailed);
    }
    double duty() const
    {
        if (failsafe())
            return failsafeDuty;
        double d = std::max(minimum, t);
        if (!json && has3)
            d = std::max(d, t3);
        if (!json && modeB)
            d = std::max(d, profB);
        return d;
    }
    std::string what;
    void judge(const std::string& what)
    {
        mc::compare(3);
        std::set<std::string> zones;
        for (auto& s : published())
            if (s.find('/', strlen(zonePath(0).c_str()) - 1) ==
                std::string::npos)
                zones.insert(s);
        if (zones != std::set<std::string>{zonePath(1)})
            mc::fail("%zu zones are published after %s", zones.size(),
                     what.c_str());
        bool fs = bk().clientGetT<bool>(FANCTRL, zonePath(1), iMode,
                                        "FailSafe");
        if (fs != failsafe())
            mc::fail("fail-safe is %d, expected %d: %s", fs, failsafe(),
                     what.c_str());
        std::map<std::string, uint64_t> last;
        for (auto& w : fanWrites())
            last[w.fan] = w.raw;
        for (auto f : {"PwmA", "PwmR"})
            if (!last.contains(f) ||
                last[f] != static_cast<uint64_t>(rawOf(duty(), 0, 255)))
                mc::fail("%s was last sent %lu, expected %g%%: %s", f,
                         static_cast<unsigned long>(
                             last.contains(f) ? last[f] : 99999),
                         duty(), what.c_str());
    }
};

void explore(int nEvents, int spread)
{
    bool json = mc::choose(2, "configuration") == 0;
    bool reload = mc::choose(2, "during") == 1;
    Env e(json);
    int kind[2]{}, at[2]{};
    std::string what = json ? "file," : "bus,";
    for (int i = 0; i < nEvents; ++i)
    {
        kind[i] = mc::choose(Env::nKinds, "event");
        bool other = mc::choose(2, "direction");
        if (i && kind[i] == kind[0])
            other = false; // and back
        e.prepare(kind[i], other);
        what += S(" %s%s", Env::name(kind[i]), other ? "(back)" : "");
    }
    // what only matters together with something else
    if (kind[0] == Env::host && nEvents == 1)
        e.t2bad = true;
    if (kind[0] == Env::groupStatus && nEvents == 1)
        e.group = true;
    // (there are up to 45 bus operations)
    const int positions = mc::thorough() ? 80 : nEvents > 1 ? 48 : 60;
    at[0] = mc::choose(positions, "before bus operation");
    if (nEvents > 1)
        at[1] = at[0] + mc::choose(spread, "operations later");
    e.lay();
    bk().latch = true;
    int ops = -1, next = 0, total = 0;
    auto flushLater = [] { vt::at(vt::now(), [] { bk().flushLatched(); }); };
    auto happen = [&] {
        // (an event is no operation of the daemon)
        auto hook = std::move(bk().beforeOp);
        e.event(kind[next++]);
        bk().beforeOp = std::move(hook);
        flushLater();
    };
    auto counting = [&] {
        ops = 0;
        bk().beforeOp = [&] {
            ++total;
            for (int o = ops++; next < nEvents && at[next] <= o;)
                happen();
        };
    };
    int64_t t0 = vt::now(), quiet = t0 + vt::sec * 20;
    if (reload)
    {
        vt::at(t0 + vt::sec * 3, [&] {
            counting();
            if (json)
                raise(SIGHUP);
            else
                bk().propsChanged(EM, cfgPath("Zone_0"), iPidZone,
                                  {{"FailSafePercent",
                                    toVal(double(failsafeDuty))}});
            bk().flushLatched();
        });
        quiet += vt::sec * 30;
    }
    else
        counting();
    // there are not that many operations
    vt::at(quiet, [&] {
        while (next < nEvents)
            happen();
    });
    int64_t judge = quiet + vt::sec * 40;
    bool judged = false;
    vt::at(judge, [&] {
        judged = true;
        what += S(" before operation %d, %d of %s", at[0], at[1],
                  reload ? "a reload" : "the start");
        e.judge(what);
    });
    std::vector<std::string> args;
    if (json)
        args = {"-c", configPath()};
    auto o = run(args, judge + vt::sec);
    if (o.kind != Outcome::running || !judged)
        mc::fail("ended with %d: %s", o.rc, what.c_str());
    mc::cover(next == nEvents && at[0] < total
                  ? (reload ? "during a reload" : "during the start")
                  : "afterwards");
    if (at[0] >= total)
        return;
    uint64_t h = json * 2 + reload;
    for (int i = 0; i < nEvents; ++i)
        h = mc::mix(h, kind[i] * 1000 + at[i]);
    mc::state(h);
    mc::outcome(e.failsafe() * 256 + static_cast<int>(e.duty()));
}
void single()
{
    explore(1, 0);
}
MC_SUITE("single", single, 1 << 20, 1 << 20, true,
         {"during a reload", "during the start", "afterwards"});
void pairs()
{
    explore(2, mc::thorough() ? 4 : 1);
}
MC_SUITE("pairs", pairs, 1 << 20, 1 << 20, true,
         {"during a reload", "during the start", "afterwards"});

// Some calls in a row fail once, at any point of the start or of a reload.
void faults()
{
    bool json = mc::choose(2, "configuration") == 0;
    bool reload = mc::choose(2, "during") == 1;
    Env e(json);
    int scene = mc::choose(Env::nKinds, "state");
    e.prepare(scene, true);
    if (scene == Env::host)
        e.t2bad = true;
    if (scene == Env::groupStatus)
        e.group = true;
    int at = mc::choose(mc::thorough() ? 80 : 48, "bus call");
    int err = mc::choose(2, "error") ? ETIMEDOUT : ENOENT;
    static const std::vector<int> lengths{1, 2, 3, 5, 12, 30};
    int len = lengths[mc::choose(mc::thorough() ? 6 : 4, "failures")];
    e.lay();
    int ops = -1, total = 0;
    bk().fault = [&](const simbus::CallInfo& c) {
        if (ops < 0)
            return 0;
        int n = ops++;
        if (n < at || n >= at + len)
            return 0;
        // sensors need not have alarms: not being able to read them is that
        if ((e.high || e.low) && c.member == "GetAll" && c.args &&
            !c.args->empty() && std::get<std::string>((*c.args)[0].b) == iCrit)
            return 0;
        // a failed group that cannot be read is not known
        if (e.group && (c.dest == RSVC || (c.member == "GetSubTree" && c.args &&
                                           c.args->size() == 3 &&
                                           (*c.args)[2].kids.size() == 1)))
            return 0;
        // an unknown host state hides nothing
        if (!e.hostOn && c.dest == HSVC)
            return 0;
        total = 1;
        e.what = S("%s %s of %s", c.iface.c_str(), c.member.c_str(),
                   c.path.c_str());
        return err;
    };
    int64_t t0 = vt::now(), judge = t0 + vt::sec * (60 + 11 * len);
    if (reload)
        vt::at(t0 + vt::sec * 3, [&] {
            ops = 0;
            if (json)
                raise(SIGHUP);
            else
                bk().propsChanged(EM, cfgPath("Zone_0"), iPidZone,
                                  {{"FailSafePercent",
                                    toVal(double(failsafeDuty))}});
        });
    else
        ops = 0;
    bool judged = false;
    std::vector<std::string> args;
    if (json)
        args = {"-c", configPath()};
    vt::at(judge, [&] {
        judged = true;
        e.judge(S("%s, %s: %d calls from %d (last: %s) of %s failed",
                  json ? "file" : "bus", Env::name(scene), len, at, e.what.c_str(),
                  reload ? "a reload" : "the start"));
    });
    auto o = run(args, judge + vt::sec);
    if (o.kind != Outcome::running || !judged)
        mc::fail("ended with %d: call %s failed", o.rc, e.what.c_str());
    mc::cover(total ? "fault" : "no fault");
    mc::state(mc::mix(scene * 4 + json * 2 + reload, at * 64 + len));
    mc::outcome(e.failsafe() * 256 + static_cast<int>(e.duty()));
}
MC_SUITE("faults", faults, 1 << 20, 1 << 20, true, {"fault", "no fault"});
} // namespace

//@technique exhaustive enumeration of host state and sensor condition histories on the real sensors, zone and host state monitor, and on the whole daemon, against a reference
//@level model_checking
//@sources +main
//@budget 100 600
//@assume the host state is what its service last reported
#include "daemon.hpp"
#include "hoststatemonitor.hpp"

using namespace dm;

namespace
{
constexpr auto HSVC = "xyz.openbmc_project.State.Host0";
constexpr auto HPATH = "/xyz/openbmc_project/state/host0";
constexpr auto HIF = "xyz.openbmc_project.State.Host";
constexpr auto HSTATE = "xyz.openbmc_project.State.Host.HostState.";

// what the bus says when the program starts
const std::vector<const char*> initials{
    "Running",    "Off",        "Quiesced",
    "no service", "read error", "TransitioningToRunning"};
// sets up the bus; true/false: known on/off; nothing: unknown
std::optional<bool> initial(const std::string& s)
{
    bool err = s == "read error";
    bk().fault = [err](const simbus::CallInfo& c) {
        return c.dest == HSVC && err ? ETIMEDOUT : 0;
    };
    if (s == "no service")
        return {};
    auto& p = bk().services[HSVC][HPATH][HIF];
    p["RequestedHostTransition"] =
        toVal(std::string("xyz.openbmc_project.State.Host.Transition.On"));
    p["CurrentHostState"] = toVal(HSTATE + (err ? "Off" : s));
    if (err)
        return {};
    return s == "Running";
}
struct Sens
{
    bool host;   // supplied by the host
    bool ignore; // expected to vanish with host power
    bool fan = false;
    bool badValue = false, functional = true, available = true;
    bool bad() const
    {
        return host ? badValue : badValue || !functional || !available;
    }
};
struct Bench
{
    World wd;
    std::map<std::string, Sens> ref;
    std::optional<bool> on;

    const char* type = "temp"; // of what is no fan

    void add(const std::string& n, Sens s)
    {
        auto& c = s.fan    ? wd.fan(n, 1000)
                  : s.host ? wd.ext(n, type)
                           : wd.dbus(n, type, 30);
        c.ignoreFailIfHostOff = s.ignore;
        ref[n] = s;
    }
    void configure()
    {
        add("BusI", {false, true});
        add("Bus", {false, false});
        add("HostI", {true, true});
        add("Host", {true, false});
        add("FanI", {false, true, true});
        add("Fan", {false, false, true});
        wd.zone(0, 0, 50);
        wd.loop(0, "t", "temp", {"BusI", "Bus", "HostI", "Host"},
                directThermal());
        wd.loop(0, "f", "fan", {"FanI", "Fan"}, directFan());
    }
    bool expect(const Sens& s)
    {
        return s.bad() && !(s.ignore && on && !*on);
    }
    std::string wanted()
    {
        std::string w;
        for (auto& [n, s] : ref)
            if (expect(s))
                w += n + " ";
        return w;
    }
    std::string where()
    {
        return S("host %s, failed per reports: %s",
                 on ? (*on ? "on" : "off") : "unknown", allBad().c_str());
    }
    std::string allBad()
    {
        std::string w;
        for (auto& [n, s] : ref)
            if (s.bad())
                w += n + " ";
        return w;
    }
    void hostState(const std::string& s)
    {
        bk().propsChanged(HSVC, HPATH, HIF,
                          {{"CurrentHostState", toVal(HSTATE + s)}});
        on = s == "Running";
    }
    static constexpr int nOps = 17;
    // one environment event
    void event(int o)
    {
        static const std::vector<std::string> groups[3] = {
            {"BusI", "Bus"}, {"HostI", "Host"}, {"FanI", "Fan"}};
        auto each = [&](int g, auto fn) {
            for (auto& n : groups[g])
                fn(n, ref[n]);
        };
        auto val = [&](int g, double v) {
            each(g, [&](auto& n, Sens& s) {
                wd.value(n, v);
                s.badValue = !std::isfinite(v);
            });
        };
        auto fun = [&](int g, bool v) {
            each(g, [&](auto& n, Sens& s) {
                wd.functional(n, v);
                s.functional = v;
            });
        };
        mc::op();
        switch (o)
        {
            case 0: hostState("Running"); break;
            case 1: hostState("Off"); break;
            case 2: hostState("TransitioningToOff"); break;
            case 3: hostState("TransitioningToRunning"); break;
            case 4: // another property of the host
                bk().propsChanged(
                    HSVC, HPATH, HIF,
                    {{"RequestedHostTransition",
                      toVal(std::string("xyz.openbmc_project.State.Host."
                                        "Transition.Running"))}});
                break;
            case 5: // the other host of the machine
            case 6:
                bk().propsChanged("xyz.openbmc_project.State.Host1",
                                  "/xyz/openbmc_project/state/host1", HIF,
                                  {{"CurrentHostState",
                                    toVal(HSTATE + std::string(
                                                       o == 5 ? "Running"
                                                              : "Off"))}});
                break;
            case 7: val(0, NaN); break;
            case 8: val(0, 31); break;
            case 9: val(1, NaN); break;
            case 10: val(1, 29); break;
            case 11: fun(0, false); break;
            case 12: fun(0, true); break;
            case 13: fun(2, false); break;
            case 14: fun(2, true); break;
            case 15:
            case 16:
                each(0, [&](auto& n, Sens& s) {
                    wd.available(n, o == 16);
                    s.available = o == 16;
                    if (o == 15)
                        s.badValue = true; // no reading until the next one
                });
                break;
        }
    }
    uint64_t hash()
    {
        uint64_t h = on ? *on + 1 : 9;
        for (auto& [n, s] : ref)
            h = h * 16 + s.badValue + 2 * s.functional + 4 * s.available;
        return h;
    }
};

// sensors and zone on their own
void sensors()
{
    w::noBuses = false;
    Bench b;
    b.on = initial(mc::pick(initials, "host at start"));
    if (!b.on)
        mc::cover("unknown");
    HostStateMonitor::getInstance(buses().hoststate).startMonitoring();
    static const std::vector<const char*> types{"temp", "power", "margin"};
    b.type = mc::pick(types, "type");
    b.configure();
    b.wd.build();
    b.wd.start();
    b.wd.runUntil(b.wd.started + vt::ms * 150);
    int64_t t = b.wd.started + vt::ms * 1150;
    int depth = (mc::thorough() ? 5 : 3) - (b.type != types[0]);
    for (int i = 0; i < depth; ++i)
    {
        b.event(mc::choose(Bench::nOps, "event"));
        std::string got, zone;
        for (auto& [n, s] : b.ref)
            if (b.wd.mgr->getSensor(n)->getFailed())
                got += n + " ";
        mc::compare(2);
        if (got != b.wanted())
            mc::fail("failed sensors are '%s', expected '%s' (%s)",
                     got.c_str(), b.wanted().c_str(), b.where().c_str());
        b.wd.runUntil(t += vt::sec);
        for (auto& [n, why] : b.wd.z(0)->getFailSafeSensors())
            zone += n + " ";
        if (zone != b.wanted() || b.wd.failsafeProp(0) != !zone.empty())
            mc::fail("the zone counts '%s' as failed, expected '%s' (%s)",
                     zone.c_str(), b.wanted().c_str(), b.where().c_str());
        if (b.allBad() != b.wanted())
            mc::cover("ignored");
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("sensors", sensors, 1 << 20, 1 << 20, true, {"unknown", "ignored"});

// the daemon: host state known from its very start, followed across reloads
void daemon()
{
    Bench b;
    fresh();
    b.on = initial(mc::pick(initials, "host at start"));
    b.configure();
    writeFile(configPath(), fileOf(b.wd).dump());
    // everything is bad at some point before the first judgement
    int64_t t = vt::now() + vt::ms * 50;
    std::vector<int> plan;
    int depth = mc::thorough() ? 3 : 2;
    static const std::vector<int> ops{0, 1, 3, 7, 8, 9, 10, 13};
    bool judged = false;
    auto judge = [&] {
        mc::compare();
        judged = true;
        bool fs = b.wd.failsafeProp(0);
        if (fs != !b.wanted().empty())
            mc::fail("the zone's fail-safe state is %d, failed should be "
                     "'%s' (%s)",
                     fs, b.wanted().c_str(), b.where().c_str());
    };
    int64_t at = t + vt::sec * 2;
    // host sensors are fine, bus sensors too: no failsafe
    vt::at(at - vt::ms, judge);
    bool reload = mc::choose(2, "reload");
    for (int i = 0; i < depth; ++i)
    {
        int o = mc::pick(ops, "event");
        vt::at(at, [&b, o] { b.event(o); });
        vt::at(at + vt::ms * 1500, judge);
        at += vt::sec * 2;
        if (reload && i == 0)
        {
            vt::at(at, [] { raise(SIGHUP); });
            // host sensors start afresh; the bus is read again
            at += vt::sec * 25;
            vt::at(at, [&b, judge] {
                for (auto& [n, s] : b.ref)
                    if (s.host)
                        s.badValue = false;
                    else if (s.badValue)
                        b.wd.value(n, NaN);
                    else
                        b.wd.value(n, 33);
                for (auto& [n, s] : b.ref)
                    if (!s.host)
                        b.wd.functional(n, s.functional);
            });
            at += vt::sec * 2;
            vt::at(at, judge);
        }
    }
    auto o = run({"-c", configPath()}, at);
    if (o.kind != Outcome::running || !judged)
        mc::fail("main() returned %d", o.rc);
    mc::outcome(b.hash());
}
MC_SUITE("daemon", daemon, 1 << 20, 1 << 20, true);
} // namespace

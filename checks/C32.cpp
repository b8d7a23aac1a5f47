//@technique exhaustive enumeration of the daemon's pasts (events of 15 kinds, other configurations, failed attempts, their timing), each followed by a reload of the real main() and compared, command by command and property by property, with a daemon freshly started in the same surroundings
//@level model_checking
//@sources +main+dbusconf
//@budget 150 700
//@assume sensors keep publishing while a reload runs; what happens during the reload itself is C31's
#include "daemon.hpp"
#include "dbusconf.hpp"

#include "hoststatemonitor.hpp"

#include <sys/wait.h>

#include <sstream>

using namespace dm;
using namespace dc;
namespace fs = std::filesystem;

namespace
{
constexpr auto HSVC = "xyz.openbmc_project.State.Host0";
constexpr auto HPATH = "/xyz/openbmc_project/state/host0";
constexpr auto HIF = "xyz.openbmc_project.State.Host";
constexpr auto RSVC = "xyz.fans";
constexpr auto RPATH = "/xyz/openbmc_project/control/riser";
constexpr auto RIF = "xyz.openbmc_project.Control.FanRedundancy";

enum Kind
{
    hot,         // T 60
    lost,        // T unavailable
    alarm,       // T critical
    broken,      // T not functional
    margin,      // M uses up its margin
    hostOff,     //
    group,       // the group of FA fails
    stuck,       // FB stands still
    byHand,      // manual mode, fans set by hand
    disabled,    // loop t switched off over the bus
    told,        // a host sensor is written (file only)
    refusing,    // fan commands fail
    other,       // another configuration is loaded
    unreachable, // a reload fails and is retried
    profile,     // the other profile (bus only)
    nKinds
};
const char* kindName[nKinds] = {
    "hot",    "lost",     "alarm", "broken",   "margin", "host off",
    "group",  "stuck",    "by hand", "disabled", "told",
    "refusing", "other", "unreachable", "profile"};

struct Past
{
    bool file, logs;
    int config; // at the end
    std::vector<std::pair<Kind, bool>> events; // and whether quickly
    bool between; // the last one while the reload is due
};

struct Env
{
    World wd;
    const Past& p;
    bool live; // with a daemon to talk to
    int config = 0;
    bool on[nKinds] = {};
    int writes = 0;

    Env(const Past& p, bool live) : p(p), live(live)
    {
        lay();
    }
    std::string path(const std::string& n)
    {
        return sensorPath(n.starts_with("F") ? "fan_tach" : "temperature", n);
    }
    simbus::PropMap groupProps()
    {
        simbus::PropMap m;
        m["Status"] = toVal(std::string(RIF) + ".State." +
                            (on[group] ? "Failed" : "Full"));
        m["Collection"] = toVal(Strings{path("FA")});
        m["AllowedFailures"] = toVal(uint8_t{0});
        return m;
    }
    void lay()
    {
        fresh();
        auto& s = bk().services[SVC];
        for (auto n : {"T", "M", "U"})
        {
            auto i = sensorIfs("DegreesC", 30);
            i[iCrit]["CriticalAlarmHigh"] = toVal(false);
            i[iCrit]["CriticalAlarmLow"] = toVal(false);
            s[path(n)] = i;
        }
        for (auto f : {"FA", "FB", "FC"})
            s[path(f)] = sensorIfs("RPMS", 3000);
        for (auto f : {"PwmA", "PwmB", "PwmC"})
            pwm(f);
        bk().services[HSVC][HPATH][HIF]["CurrentHostState"] =
            toVal(std::string(HIF) + ".HostState.Running");
        bk().services[RSVC][RPATH][RIF] = groupProps();
        if (!p.file)
            manager();
        configure();
    }
    void configure()
    {
        if (p.file)
            fileConfig();
        else
            busConfig();
    }
    void fileConfig()
    {
        wd.pids.clear();
        wd.zcfg.clear();
        wd.sensors.clear();
        bool b = config;
        auto add = [&](const char* n, const char* type, const char* w) {
            auto& c = wd.sensor(n, type, 0);
            c.readPath = path(n);
            if (w)
                c.writePath = std::string("/xyz/openbmc_project/control/"
                                          "fanpwm/") +
                              w;
            c.max = w ? 255 : 0;
            return &c;
        };
        add("T", "temp", nullptr)->unavailableAsFailed = !b;
        add("M", "margin", nullptr);
        if (!b)
            add("U", "temp", nullptr)->ignoreFailIfHostOff = true;
        add("FA", "fan", "PwmA");
        add("FB", "fan", "PwmB");
        wd.ext(b ? "Y" : "X", "temp", b ? 0 : 2);
        wd.zone(0, b ? 30 : 10, b ? 80 : 90, b ? 500 : 250, b ? 1500 : 1000)
            .accumulateSetPoint = b;
        auto t = directThermal();
        t.proportionalCoeff = -0.25;
        t.integralCoeff = -0.5;
        t.integralLimit = {-40, 70};
        t.slewPos = b ? 0 : 15;
        t.positiveHysteresis = b ? 0 : 2;
        wd.loop(0, "t", "temp", {"T"}, t, b ? 35 : 25, b ? 0 : 95);
        auto& m = wd.loop(0, "m", "margin", {"M"}, directThermal(), 50);
        m.inputs[0].convertTempToMargin = true;
        m.inputs[0].convertMarginZero = b ? 70 : 75;
        m.inputs[0].missingIsAcceptable = b;
        wd.stepwise(0, "s_T", {"T"}, {20, 32, 45, 60}, {20, 35, 50, 75}, false,
                    3, 4);
        if (!b)
            wd.loop(0, "u", "temp", {"U"}, directThermal());
        wd.loop(0, "x", "temp", {b ? "Y" : "X"}, directThermal());
        auto f = directFan(0, 100);
        f.integralCoeff = -0.001;
        f.integralLimit = {-5, 5};
        wd.loop(0, "f", "fan", {"FA", "FB"}, f);
        if (b)
        {
            add("FC", "fan", "PwmC");
            add("U", "temp", nullptr);
            wd.zone(3, 20, 60, 1000, 1000);
            wd.loop(3, "v", "temp", {"U"}, directThermal());
            wd.loop(3, "fc", "fan", {"FC"}, directFan(0, 100));
        }
        writeFile(configPath(), fileOf(wd).dump());
    }
    void busConfig()
    {
        bool b = config;
        std::map<std::string, std::pair<const char*, simbus::PropMap>> want;
        auto z = zoneObj("Main", b ? 5 : 0, b ? 30 : 10, b ? 80 : 90);
        z["CycleIntervalTimeMS"] = toVal(b ? 500.0 : 250.0);
        z["AccumulateSetPoint"] = toVal(b);
        want["Zone_0"] = {iPidZone, z};
        auto f = pidObj("f", "fan", {"Main"}, {"FA", "FB"}, {"PwmA", "PwmB"});
        f["FFGainCoefficient"] = toVal(1.0);
        f["OutLimitMin"] = toVal(0.0);
        f["OutLimitMax"] = toVal(100.0);
        want["f"] = {iPid, f};
        auto l = pidObj("t", "temp", {"Main"}, {"T"});
        l["PCoefficient"] = toVal(-0.25);
        l["ICoefficient"] = toVal(-0.5);
        l["ILimitMin"] = toVal(-40.0);
        l["ILimitMax"] = toVal(70.0);
        l["SlewPos"] = toVal(b ? 0.0 : 15.0);
        l["SetPoint"] = toVal(b ? 35.0 : 25.0);
        l["PositiveHysteresis"] = toVal(b ? 0.0 : 2.0);
        l["FailSafePercent"] = toVal(b ? 0.0 : 95.0);
        l["InputUnavailableAsFailed"] = toVal(!b);
        want["t"] = {iPid, l};
        auto m = pidObj("m", "margin", {"Main"}, {"M"});
        m["PCoefficient"] = toVal(-1.0);
        m["SetPoint"] = toVal(50.0);
        m["TempToMargin"] = toVal(std::vector<double>{b ? 70.0 : 75.0});
        if (b)
            m["MissingIsAcceptable"] = toVal(Strings{"M"});
        want["m"] = {iPid, m};
        auto u = pidObj("u", "temp", {b ? "Aux" : "Main"}, {"U"});
        u["PCoefficient"] = toVal(-1.0);
        u["IgnoreFailIfHostOff"] = toVal(!b);
        want["u"] = {iPid, u};
        auto pr = pidObj("p", "temp", {"Main"}, {"T"});
        pr["Profiles"] = toVal(Strings{"B"});
        pr["OutLimitMin"] = toVal(64.0);
        pr["InputUnavailableAsFailed"] = toVal(!b);
        want["p"] = {iPid, pr};
        auto st = stepObj("s_T", "Floor", {"Main"}, {"T"}, {20, 32, 45, 60},
                          {20, 35, 50, 75});
        st["PositiveHysteresis"] = toVal(3.0);
        st["NegativeHysteresis"] = toVal(4.0);
        st["InputUnavailableAsFailed"] = toVal(!b);
        want["s"] = {iStep, st};
        if (b)
        {
            auto a = zoneObj("Aux", 0, 20, 60);
            a["CycleIntervalTimeMS"] = toVal(1000.0);
            want["Zone_1"] = {iPidZone, a};
            auto fc = pidObj("fc", "fan", {"Aux"}, {"FC"}, {"PwmC"});
            fc["FFGainCoefficient"] = toVal(1.0);
            fc["OutLimitMin"] = toVal(0.0);
            fc["OutLimitMax"] = toVal(100.0);
            want["fc"] = {iPid, fc};
        }
        for (auto n : {"Zone_1", "fc"})
            if (!want.count(n))
                bk().services[EM].erase(cfgPath(n));
        for (auto& [n, o] : want)
            put(n, o.first, o.second);
        bk().services[MODESVC][MODEPATH][iThermalMode]["Current"] =
            toVal(std::string(on[profile] ? "B" : "A"));
    }
    // the configuration changed: tell the daemon
    void announce()
    {
        if (p.file && live)
            raise(SIGHUP);
        else if (!p.file)
            bk().propsChanged(
                EM, cfgPath("Zone_0"), iPidZone,
                {{"MinThermalOutput", toVal(config ? 30.0 : 10.0)}});
    }
    void change(const char* n, const char* i, const char* pr, simbus::Val v)
    {
        bk().propsChanged(SVC, path(n), i, {{pr, std::move(v)}});
    }
    std::string mainZone()
    {
        return zonePath(!p.file && config ? 5 : 0);
    }
    void request(const std::string& path, const char* i, const char* pr,
                 bool v)
    {
        if (!live)
            return;
        try
        {
            bk().clientSet(FANCTRL, path, i, pr, toVal(v));
        }
        catch (const std::exception&)
        {} // not there at the moment
    }
    // how long the daemon may be reloading because of it
    static bool reloads(Kind k)
    {
        return k == other || k == unreachable || k == profile;
    }
    void event(Kind k)
    {
        mc::op();
        bool v = on[k] = !on[k];
        switch (k)
        {
            case hot:
                change("T", iValue, "Value", toVal(v ? 60.0 : 30.0));
                break;
            case lost:
                change("T", iAvail, "Available", toVal(!v));
                change("T", iValue, "Value", toVal(v ? NaN : 30.0));
                break;
            case alarm:
                change("T", iCrit, "CriticalAlarmHigh", toVal(v));
                break;
            case broken:
                change("T", iOper, "Functional", toVal(!v));
                break;
            case margin:
                change("M", iValue, "Value", toVal(v ? 75.0 : 30.0));
                break;
            case hostOff:
                change("U", iValue, "Value", toVal(v ? NaN : 30.0));
                bk().propsChanged(HSVC, HPATH, HIF,
                                  {{"CurrentHostState",
                                    toVal(std::string(HIF) + ".HostState." +
                                          (v ? "Off" : "Running"))}});
                break;
            case group:
                bk().propsChanged(RSVC, RPATH, RIF, groupProps());
                break;
            case stuck:
                change("FB", iValue, "Value", toVal(v ? 0.0 : 3000.0));
                break;
            case byHand:
                request(mainZone(), iMode, "Manual", v);
                if (v)
                    bk().services[PWMSVC]["/xyz/openbmc_project/control/"
                                          "fanpwm/PwmA"][iPwm]["Target"] =
                        toVal(uint64_t{17});
                break;
            case disabled:
                request(mainZone() + "/t", iEnable, "Enabled", !v);
                break;
            case told:
                if (live && p.file)
                    try
                    {
                        bk().clientSet(EXTSVC, extPath(), iValue, "Value",
                                       toVal(v ? 66.0 : NaN));
                    }
                    catch (const std::exception&)
                    {}
                break;
            case refusing:
                refuse = v;
                break;
            case other:
                config = !config;
                configure();
                announce();
                break;
            case unreachable:
                deafUntil = vt::now() + 5 * vt::sec;
                if (live)
                    raise(SIGHUP);
                break;
            case profile:
                bk().propsChanged(
                    MODESVC, MODEPATH, iThermalMode,
                    {{"Current", toVal(std::string(v ? "B" : "A"))}});
                break;
            default:
                break;
        }
    }
    std::string extPath()
    {
        return std::string("/xyz/openbmc_project/extsensors/temp/") +
               (config ? "Y" : "X");
    }
    bool refuse = false;
    int64_t deafUntil = -1;
    void faults()
    {
        bk().fault = [this](const simbus::CallInfo& c) {
            if (refuse && c.dest == PWMSVC && c.member == "Set")
                return EIO;
            if (vt::now() < deafUntil &&
                c.dest == "xyz.openbmc_project.ObjectMapper")
                return EIO;
            return 0;
        };
    }
};

// everything the daemon does from the moment its zones are there
struct Watch
{
    Env& e;
    std::vector<std::string> seen;
    size_t from = 0;
    int64_t t0 = -1;
    int generation = 0;
    std::ostringstream said;
    std::streambuf* old;
    static constexpr int64_t length = 11 * vt::sec;

    explicit Watch(Env& e) : e(e), old(std::cerr.rdbuf(said.rdbuf())) {}
    ~Watch()
    {
        std::cerr.rdbuf(old);
    }
    static std::string show(const simbus::Val& v)
    {
        double d;
        bool b;
        std::string s;
        if (v.sig == "b")
            return simbus::fromVal(v, b), b ? "true" : "false";
        if (v.sig == "s")
            return simbus::fromVal(v, s), s;
        if (v.sig == "d")
            return simbus::fromVal(v, d), S("%.17g", d);
        return "?";
    }
    void add(std::string s)
    {
        seen.push_back(S("%.3f ms ", (vt::now() - t0) / 1e6) + std::move(s));
    }
    void arm()
    {
        bk().onClaim = [this](const char* path) {
            if (!std::string(path).starts_with(
                    "/xyz/openbmc_project/settings/fanctrl/zone"))
                return;
            t0 = vt::now();
            e.refuse = false;
            seen.clear();
            said.str("");
            from = bk().sets.size();
            ++generation;
            plan();
        };
        bk().onServerSignal = [this](auto& path, auto& iface, auto& prop,
                                     auto& v) {
            if (t0 >= 0 && vt::now() < t0 + 10500 * vt::ms)
                add("signal " + path + " " + iface + "." + prop + " " +
                    show(v));
        };
    }
    void collect()
    {
        auto w = fanWrites(from);
        from = bk().sets.size();
        for (auto& x : w)
            seen.push_back(S("%.3f ms %s := %lu%s", (x.t - t0) / 1e6,
                             x.fan.c_str(), static_cast<unsigned long>(x.raw),
                             x.ok ? "" : " refused"));
        std::istringstream in(said.str());
        said.str("");
        for (std::string l; std::getline(in, l);)
            if (l.find("failsafe") != std::string::npos ||
                l.find("max SetPoint") != std::string::npos)
                add(l);
    }
    void snapshot()
    {
        for (auto& sv : bk().servers)
        {
            std::string t = sv.path + " " + sv.iface;
            for (auto& [k, p] : sv.props)
                t += " " + k + "=" + show(p.get());
            add(t);
        }
    }
    void plan()
    {
        int g = generation;
        int64_t t = t0;
        auto at = [&](int64_t ms, auto f) {
            vt::at(t + ms * vt::ms, [this, g, f] {
                if (g != generation)
                    return;
                collect();
                snapshot();
                f();
            });
        };
        auto none = [] {};
        auto& env = e;
        at(555, none);
        at(1130, [&env] {
            env.live = true;
            if (env.p.file)
                bk().clientSet(EXTSVC, env.extPath(), iValue, "Value",
                               toVal(28.0));
        });
        at(2345, [&env] {
            env.change("T", iAvail, "Available", toVal(true));
            env.change("T", iValue, "Value", toVal(47.0));
            env.change("T", iCrit, "CriticalAlarmHigh", toVal(false));
            env.change("M", iValue, "Value", toVal(30.0));
        });
        at(3456, [&env] { env.change("T", iValue, "Value", toVal(34.0)); });
        at(5123,
           [&env] { env.change("T", iOper, "Functional", toVal(false)); });
        at(6123, [&env] {
            env.change("T", iOper, "Functional", toVal(true));
            env.change("U", iValue, "Value", toVal(22.0));
        });
        at(7123, [&env] {
            env.on[group] = false;
            bk().propsChanged(RSVC, RPATH, RIF, env.groupProps());
            env.request(env.mainZone(), iMode, "Manual", true);
        });
        at(8123,
           [&env] { env.request(env.mainZone(), iMode, "Manual", false); });
        at(9123, [&env] {
            env.request(env.mainZone() + "/s_T", iEnable, "Enabled", false);
        });
        at(10500, none);
    }
};

std::string readAll(const std::string& path)
{
    std::ifstream f(path);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

struct Trace
{
    int64_t t0 = -1;
    std::vector<std::string> seen;
    std::map<std::string, std::vector<std::string>> logs;
};

// start < 0: with the past; else freshly started at that time
Trace program(const Past& p, int64_t start, const char* tag)
{
    auto dir = mc::scratch() + "/" + tag;
    fs::remove_all(dir);
    fs::create_directories(dir);
    auto out = mc::scratch() + "/seen";
    fs::remove(out);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0)
        mc::fail("fork");
    if (!pid)
    {
        int rc = 8;
        try
        {
            w::noBuses = true;
            bool past = start < 0;
            Env e(p, past);
            Watch wt(e);
            e.faults();
            if (!past)
            {
                for (auto& [k, quick] : p.events)
                    e.event(k);
                if (p.config != e.config)
                {
                    e.config = p.config;
                    e.configure();
                }
                e.refuse = false;
                e.deafUntil = -1;
                vt::set(start);
                wt.arm();
            }
            int64_t t = 2135 * vt::ms, end = start + wt.length;
            if (past)
            {
                auto step = [&e](Kind k) { return [&e, k] { e.event(k); }; };
                auto turn = [&] {
                    return [&] {
                        wt.arm();
                        e.refuse = false;
                        if (p.config != e.config)
                        {
                            e.config = p.config;
                            e.configure();
                            e.announce();
                        }
                        else
                            raise(SIGHUP);
                    };
                };
                for (size_t i = 0; i < p.events.size(); ++i)
                {
                    auto [k, quick] = p.events[i];
                    if (p.between && i + 1 == p.events.size())
                    {
                        vt::at(t, turn());
                        t += 500 * vt::ms;
                        vt::at(t, step(k));
                        continue;
                    }
                    vt::at(t, step(k));
                    t += quick ? 700 * vt::ms : 13350 * vt::ms;
                }
                if (!p.between || p.events.empty())
                    vt::at(t, turn());
                end = t + 14 * vt::sec + wt.length;
            }
            std::vector<std::string> args;
            if (p.file)
                args = {"-c", configPath()};
            if (p.logs)
            {
                args.insert(args.end(), {"-l", dir, "-g"});
            }
            auto o = dm::run(args, end);
            bk().onServerSignal = nullptr;
            bk().onClaim = nullptr;
            std::ofstream f(out);
            f << wt.t0 << "\n";
            for (auto& l : wt.seen)
                f << l << "\n";
            rc = o.kind == Outcome::running ? 0 : 9;
        }
        catch (...)
        {}
        _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
        mc::fail("the program ended (%d)", st);
    Trace r;
    std::ifstream f(out);
    std::string l;
    std::getline(f, l);
    r.t0 = atoll(l.c_str());
    while (std::getline(f, l))
        r.seen.push_back(l);
    if (r.t0 < 0)
        mc::fail("no zones after the %s", start < 0 ? "reload" : "start");
    for (auto& d : fs::directory_iterator(dir))
    {
        std::istringstream in(readAll(d.path()));
        auto& rows = r.logs[d.path().filename()];
        while (std::getline(in, l))
        {
            auto ms = atoll(l.c_str());
            // (until the end of the watch; the rest is not compared)
            if (ms && ms * vt::ms > r.t0 + vt::epochMs() * vt::ms +
                                        10500 * vt::ms)
                break;
            rows.push_back(l);
        }
    }
    return r;
}

void histories()
{
    Past p;
    p.file = mc::choose(2, "source") == 0;
    int n = mc::choose(mc::thorough() ? 4 : 3, "events");
    for (int i = 0; i < n; ++i)
    {
        auto k = static_cast<Kind>(mc::choose(nKinds, "event"));
        if (p.file ? k == profile : k == told)
            return; // not there
        bool quick = !Env::reloads(k) && mc::choose(2, "soon") == 0;
        p.events.push_back({k, quick});
    }
    p.config = mc::choose(2, "configuration");
    p.logs = p.file && mc::choose(2, "logs");
    bool calm = n == 0 || Env::reloads(p.events.back().first);
    p.between = !calm && mc::choose(2, "during the delay");
    auto a = program(p, -1, "reloaded");
    auto b = program(p, a.t0, "fresh");
    if (b.t0 != a.t0)
        mc::fail("a fresh start took %ld ms",
                 static_cast<long>((b.t0 - a.t0) / vt::ms));
    uint64_t h = 7;
    for (size_t i = 0; i < std::max(a.seen.size(), b.seen.size()); ++i)
    {
        std::string x = i < a.seen.size() ? a.seen[i] : "nothing";
        std::string y = i < b.seen.size() ? b.seen[i] : "nothing";
        mc::compare();
        if (x != y)
            mc::fail("after the reload: %s; freshly started: %s", x.c_str(),
                     y.c_str());
        h = mc::hashS(x, h);
    }
    if (a.seen.size() < 40)
        mc::fail("the program does nothing");
    for (auto& [name, rows] : b.logs)
    {
        if (name.starts_with("pidco"))
            continue;
        mc::compare(rows.size());
        if (a.logs[name] != rows)
            mc::fail("log %s differs: %zu rows after the reload, %zu freshly "
                     "started",
                     name.c_str(), a.logs[name].size(), rows.size());
        mc::cover("logs");
    }
    mc::outcome(h);
    mc::state(h);
    for (auto& [k, q] : p.events)
        mc::cover(kindName[k]);
}
MC_SUITE("histories", histories, 1 << 20, 1 << 20, true,
         {"hot", "lost", "alarm", "group", "by hand", "disabled", "told",
          "refusing", "other", "unreachable", "profile", "logs"});
} // namespace

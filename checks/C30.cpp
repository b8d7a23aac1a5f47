//@technique exhaustive enumeration of command lines, switch files and configuration sources against the daemon's real main()
//@level model_checking
//@sources +main+dbusconf
//@budget 100 500
//@assume the files of /etc/thermal.d, /var/lib/swampd and /usr/share/swampd are redirected into a scratch directory
#include "daemon.hpp"
#include "dbusconf.hpp"

#include "hoststatemonitor.hpp"

using namespace dm;
using namespace dc;
namespace fs = std::filesystem;

namespace
{
constexpr int64_t sec = 1000000000;

struct Place
{
    World wd;
    std::string base;
    Place()
    {
        fresh();
        base = mc::scratch() + "/p";
        fs::remove_all(base);
        for (auto* d : {"/etc", "/var", "/usr", "/opt", "/tmp"})
            fs::create_directories(base + d);
        fs::remove(configPath());
        vt::redirect("/etc/thermal.d", base + "/etc");
        vt::redirect("/var/lib/swampd", base + "/var");
        vt::redirect("/usr/share/swampd", base + "/usr");
        setenv("TMPDIR", (base + "/tmp").c_str(), 1);
    }
    // the k-th source: zone k + 1, whose minimum is 10 * (k + 1) percent
    std::string file(int k)
    {
        wd.pids.clear();
        wd.zcfg.clear();
        wd.zone(k + 1, 10 * (k + 1), 70, 1000, 1000);
        wd.loop(k + 1, "t", "temp", {"T"}, directThermal(), 0);
        wd.loop(k + 1, "f", "fan", {"F"}, fanLoop());
        return fileOf(wd).dump();
    }
    static ec::pidinfo fanLoop()
    {
        return directFan(0, 100);
    }
    void sensors()
    {
        wd.dbus("T", "temp", -200); // never asks for more than the minimum
        wd.fan("F", 3000);
    }
    void bus(int k)
    {
        manager();
        put("Zone_0", iPidZone, zoneObj("Main", k + 1, 10 * (k + 1), 70));
        bk().services[EM][cfgPath("Zone_0")][iPidZone]["CycleIntervalTimeMS"] =
            toVal(1000.0);
        auto f = pidObj("f", "fan", {"Main"}, {"FanB"}, {"PwmB"});
        f["FFGainCoefficient"] = toVal(1.0);
        f["OutLimitMin"] = toVal(0.0);
        f["OutLimitMax"] = toVal(100.0);
        put("f", iPid, f);
        bk().services[SVC][sensorPath("fan_tach", "FanB")] =
            sensorIfs("RPMS", 3000);
        bk().services[SVC][sensorPath("temperature", "TB")] =
            sensorIfs("DegreesC", -200);
        auto t = pidObj("t", "temp", {"Main"}, {"TB"});
        t["PCoefficient"] = toVal(-1.0);
        put("t", iPid, t);
        pwm("PwmB");
    }
};

// Where the configuration comes from: the file named on the command line, else
// config.json in the current directory, in /var/lib/swampd, in
// /usr/share/swampd, else the bus; looked for again at every reload.
enum
{
    cwd,
    var,
    usr,
    option,
    onBus,
    nSources
};
const char* sourceName[] = {"the current directory", "/var/lib/swampd",
                            "/usr/share/swampd", "the command line", "the bus"};

std::string sourcePath(Place& p, int k)
{
    switch (k)
    {
        case cwd:
            return configPath();
        case var:
            return p.base + "/var/config.json";
        case usr:
            return p.base + "/usr/config.json";
        default:
            return p.base + "/opt/mine.json";
    }
}

void source()
{
    Place p;
    p.sensors();
    int opt = mc::choose(5, "-c");
    bool have[nSources];
    for (int k : {cwd, var, usr, onBus})
        have[k] = mc::choose(2, sourceName[k]);
    have[option] = opt != 0;
    const int nChanges = mc::thorough() ? 3 : 2;
    int change[3]{};
    for (int i = 0; i < nChanges; ++i)
        change[i] = mc::choose(5, "changed");
    for (int k : {cwd, var, usr, option})
        if (have[k])
            writeFile(sourcePath(p, k), p.file(k));
    if (have[onBus])
        p.bus(onBus);
    std::vector<std::string> args;
    std::string mine = sourcePath(p, option);
    switch (opt)
    {
        case 1:
            args = {"-c", mine};
            break;
        case 2:
            args = {"--conf", mine};
            break;
        case 3:
            args = {"--conf=" + mine};
            break;
        case 4:
            args = {"-c" + mine};
            break;
    }
    auto expected = [&] {
        for (int k : {option, cwd, var, usr, onBus})
            if (have[k])
                return k;
        return -1;
    };
    std::string said;
    size_t mark = 0;
    auto judge = [&] {
        int k = expected();
        std::set<std::string> zones, want;
        for (auto& s : published())
            if (s.find('/', strlen(zonePath(0).c_str()) - 1) ==
                std::string::npos)
                zones.insert(s);
        if (k >= 0)
            want.insert(zonePath(k + 1));
        std::string list;
        for (auto& z : zones)
            list += " " + z;
        mc::compare(2);
        if (zones != want)
            mc::fail("%s: controls%s, expected the configuration of %s",
                     said.c_str(), list.c_str(), k < 0 ? "none" : sourceName[k]);
        // ... and that is the one the fans follow
        auto ws = fanWrites(mark);
        if (k >= 0 && ws.empty() && mark == 0)
            mc::fail("%s: no fan is controlled", said.c_str());
        for (auto& w : ws)
            if (k < 0 ||
                static_cast<int64_t>(w.raw) != rawOf(10 * (k + 1), 0,
                                                       k == onBus ? 255 : 100000))
                mc::fail("%s: fan %s was sent %lu", said.c_str(),
                         w.fan.c_str(), static_cast<unsigned long>(w.raw));
    };
    auto all = [&](const char* when) {
        said = S("-c %d, %s:", opt, when);
        for (int k : {cwd, var, usr, onBus})
            said += S(" %d", have[k]);
    };
    all("start, present");
    int64_t t = vt::now();
    static const int64_t step = 14 * sec; // (retries are 10 s apart)
    for (int i = 0; i < nChanges; ++i)
    {
        vt::at(t + i * step + 4 * sec, [&, i] {
            judge();
            if (change[i] == 0)
                return;
            int k = change[i] - 1;
            if (k == option) // stays; the bus comes or goes instead
                k = onBus;
            have[k] = !have[k];
            if (k == onBus)
            {
                if (have[k])
                    p.bus(onBus);
                else
                    bk().services.erase(EM);
            }
            else if (have[k])
                writeFile(sourcePath(p, k), p.file(k));
            else
                fs::remove(sourcePath(p, k));
            all("reload, present");
            raise(SIGHUP);
        });
        vt::at(t + i * step + 7 * sec, [&] { mark = bk().sets.size(); });
    }
    auto o = run(args, t + nChanges * step + 4 * sec);
    if (o.kind != Outcome::running)
        mc::fail("%s: ended with %d", said.c_str(), o.rc);
    // a running loop may repeat nothing: the fan has its duty already
    int k = expected();
    mark = mark ? mark : 1;
    judge();
    mc::state(mc::mix(mc::mix(opt, change[0] * 64 + change[1] * 8 + change[2]), have[0] + 2 * have[1] + 4 * have[2] +
                                                8 * have[4]));
    mc::cover(k < 0 ? "nothing to run" : k == onBus ? "bus" : "file");
    mc::outcome(k + 1);
}
MC_SUITE("source", source, 1 << 20, 1 << 20, true,
         {"nothing to run", "bus", "file"});

// A command line that cannot be honoured ends the program with a failure
// before anything is controlled; asking for help controls nothing either.
void refused()
{
    Place p;
    p.sensors();
    writeFile(configPath(), p.file(cwd));
    if (mc::choose(2, "bus"))
        p.bus(onBus);
    std::string dir = p.base + "/opt", nothing = p.base + "/nothing";
    std::vector<std::vector<std::string>> lines{
        {"-c", nothing},     {"-c"},           {"-c", dir},
        {"-l", nothing},     {"-l"},           {"-l", configPath()},
        {"--bogus"},         {"stray"},        {"-c", configPath(), "stray"},
        {"-x"},              {"--help"},       {"-h"},
        {"--conf", nothing}, {"--log", nothing}};
    int i = mc::choose(static_cast<int>(lines.size()), "command line");
    bool help = lines[i][0] == "--help" || lines[i][0] == "-h";
    auto said = [&] {
        std::string s;
        for (auto& a : lines[i])
            s += " " + a;
        return s;
    };
    int rc = -1;
    auto done = [&](int r) {
        rc = r;
        mc::compare(2);
        if (help != (rc == 0))
            mc::fail("exit status %d for%s", rc, said().c_str());
        if (!fanWrites().empty() || !published().empty())
            mc::fail("controls fans in spite of%s", said().c_str());
        mc::cover(help ? "help" : "refused");
        mc::state(i);
        mc::outcome(rc);
    };
    auto o = run(lines[i], vt::now() + 5 * sec, done);
    if (o.kind != Outcome::returned)
        mc::fail("runs with%s", said().c_str());
    done(o.rc);
}
MC_SUITE("refused", refused, 1 << 20, 1 << 20, true, {"refused", "help"});

// The switches: each is given by an option or by a file of its name, and only
// tuning has an influence on the fans.
void switches()
{
    Place p;
    p.wd.dbus("T", "temp", 30);
    p.wd.fan("F", 3000);
    p.wd.zone(1, 10, 70, 1000, 1000);
    p.wd.loop(1, "t", "temp", {"T"}, directThermal(), 0);
    p.wd.loop(1, "f", "fan", {"F"}, directFan(0, 1000));
    bool file = mc::choose(2, "configuration") == 0;
    std::string fan = file ? "F" : "PwmB", temp = file ? "T" : "TB";
    std::vector<std::string> args;
    if (file)
    {
        writeFile(configPath(), fileOf(p.wd).dump());
    }
    else
    {
        p.bus(0);
        bk().services[EM][cfgPath("f")][iPid]["OutLimitMax"] = toVal(1000.0);
        bk().services[SVC][sensorPath("temperature", "TB")][iValue]["Value"] =
            toVal(30.0);
    }
    // absent, short option, long option, file (empty, with text)
    struct Switch
    {
        const char *s, *l, *f;
    };
    static const Switch all[] = {{"-t", "--tuning", "tuning"},
                                 {"-d", "--debug", "debugging"},
                                 {"-g", "--corelogging", "corelogging"}};
    int given[4];
    for (int i = 0; i < 3; ++i)
    {
        given[i] = mc::choose(mc::thorough() ? 6 : i == 0 ? 5 : 4, all[i].f);
        if (given[i] == 1)
            args.push_back(all[i].s);
        if (given[i] == 2)
            args.push_back(all[i].l);
        if (given[i] >= 3)
            writeFile(p.base + "/etc/" + all[i].f, given[i] == 3 ? "" : "0\n");
        if (given[i] == 5)
            args.push_back(all[i].s);
    }
    given[3] = mc::choose(3, "logging");
    if (given[3] == 1)
        args.insert(args.end(), {"-l", p.base + "/opt"});
    if (given[3] == 2)
        writeFile(p.base + "/etc/logging", "");
    bool tuning = given[0] != 0;
    writeFile(p.base + "/etc/setpoint", "150\n");
    auto said = [&] {
        return S("tuning %d debugging %d corelogging %d logging %d (%s)",
                 given[0], given[1], given[2], given[3], file ? "file" : "bus");
    };
    // the temperature rises at 3.5 s and the set point file goes at 6.5 s
    int64_t t = vt::now();
    vt::at(t + 3500 * vt::ms, [&] {
        bk().propsChanged(SVC, file ? p.wd.objPath("T")
                                    : sensorPath("temperature", "TB"),
                          iValue, {{"Value", toVal(200.0)}});
    });
    vt::at(t + 6500 * vt::ms, [&] {
        fs::remove(p.base + "/etc/setpoint");
        // a change of the switches does nothing while it runs
        for (auto& s : all)
            if (fs::exists(p.base + "/etc/" + s.f))
                fs::remove(p.base + "/etc/" + s.f);
            else
                writeFile(p.base + "/etc/" + s.f, "");
    });
    // ... and a set point file comes when the switches are already different
    vt::at(t + 9500 * vt::ms,
           [&] { writeFile(p.base + "/etc/setpoint", "175\n"); });
    auto o = run(args, t + 12500 * vt::ms);
    if (o.kind != Outcome::running)
        mc::fail("ended with %d: %s", o.rc, said().c_str());
    // what the fan got, as changes of its duty
    std::vector<std::pair<int64_t, int64_t>> got;
    for (auto& w : fanWrites())
        if (got.empty() || got.back().second != static_cast<int64_t>(w.raw))
            got.emplace_back((w.t - t) / sec, w.raw);
    int64_t full = file ? 100000 : 255;
    auto duty = [&](double v) { return rawOf(v, 0, full); };
    std::vector<std::pair<int64_t, int64_t>> want;
    auto ask = [&](double temp) { return std::max(10.0, temp); };
    if (tuning)
        want = {{1, duty(150)}, {7, duty(ask(200))}, {10, duty(175)}};
    else
        want = {{1, duty(ask(30))}, {4, duty(ask(200))}};
    mc::compare(2);
    if (got != want)
    {
        std::string s;
        for (auto& [a, b] : got)
            s += S(" %lds:%ld", a, b);
        s += " expected";
        for (auto& [a, b] : want)
            s += S(" %lds:%ld", a, b);
        mc::fail("the fan was sent%s with %s", s.c_str(), said().c_str());
    }
    // logs are where and only where they were asked for
    auto count = [&](const char* d) {
        size_t n = 0;
        for ([[maybe_unused]] auto& e : fs::directory_iterator(p.base + d))
            ++n;
        return n;
    };
    size_t n = (given[3] != 0) + (given[2] ? 4 : 0);
    size_t inOpt = given[3] == 1 ? n : 0, inTmp = given[3] == 1 ? 0 : n;
    if (count("/opt") != inOpt || count("/tmp") != inTmp)
        mc::fail("%zu logs in the given directory, %zu in the temporary one "
                 "with %s",
                 count("/opt"), count("/tmp"), said().c_str());
    mc::cover(tuning ? "tuning" : "no tuning");
    mc::state(mc::mix(mc::mix(given[0] * 8 + given[1], given[2] * 8 + given[3]),
                      file));
    mc::outcome(got.size() * 64 + n);
}
MC_SUITE("switches", switches, 1 << 20, 1 << 20, true, {"tuning", "no tuning"});

// The program's public face: its names, the objects of every zone below them
// and the host's sensors, from each kind of configuration.
void face()
{
    Place p;
    p.sensors();
    p.wd.ext("M", "margin", 0);
    int zones = 1 + mc::choose(3, "zones");
    bool host = mc::choose(2, "host sensor");
    p.wd.pids.clear();
    p.wd.zcfg.clear();
    for (int z = 1; z <= zones; ++z)
    {
        p.wd.zone(z * 7, 0, 70, 1000, 1000);
        p.wd.loop(z * 7, S("t%d", z), "temp", {"T"}, directThermal());
        if (host)
            p.wd.loop(z * 7, S("m%d", z), "margin", {"M"}, directThermal());
        p.wd.loop(z * 7, S("f%d", z), "fan", {"F"}, directFan(0, 100));
    }
    auto hostPath = p.wd.objPath("M");
    if (!host)
        p.wd.sensors.erase("M");
    writeFile(configPath(), fileOf(p.wd).dump());
    int reloads = mc::choose(3, "reloads");
    int64_t t = vt::now();
    for (int i = 0; i < reloads; ++i)
        vt::at(t + (3 + 4 * i) * sec, [] { raise(SIGHUP); });
    vt::at(t + 34 * sec, [&] {
        for (int z = 1; z <= zones; ++z)
        {
            auto path = zonePath(z * 7);
            mc::compare(3);
            try
            {
                bool m = bk().clientGetT<bool>(FANCTRL, path, iMode, "Manual");
                bool f = bk().clientGetT<bool>(FANCTRL, path, iMode,
                                               "FailSafe");
                if (m || f)
                    mc::fail("zone %d reports manual %d, fail-safe %d", z * 7,
                             m, f);
                for (auto l : {"t", "m"})
                    if (*l == 't' || host)
                        if (!bk().clientGetT<bool>(FANCTRL,
                                                   path + "/" + l +
                                                       std::to_string(z),
                                                   iEnable, "Enabled"))
                            mc::fail("loop %s%d is published as disabled", l,
                                     z);
            }
            catch (const sdbusplus::exception_t& e)
            {
                mc::fail("zone %d cannot be read under its name: %s", z * 7,
                         e.what());
            }
        }
        try
        {
            bk().clientSet(EXTSVC, hostPath, iValue, "Value",
                           toVal(42.0));
            double v = bk().clientGetT<double>(EXTSVC, hostPath, iValue,
                                               "Value");
            if (!host || v != 42)
                mc::fail("the host's sensor reads %g", v);
            bk().clientSet(EXTSVC, hostPath, iValue, "Value", toVal(NaN));
        }
        catch (const sdbusplus::exception_t& e)
        {
            if (host)
                mc::fail("the host's sensor cannot be written: %s", e.what());
        }
    });
    vt::at(t + 37 * sec, [&] {
        for (int z = 1; z <= zones; ++z)
        {
            bool f = bk().clientGetT<bool>(FANCTRL, zonePath(z * 7), iMode,
                                           "FailSafe");
            if (f != host)
                mc::fail("zone %d reports fail-safe %d after the host wrote "
                         "that its sensor has no reading",
                         z * 7, f);
        }
    });
    auto o = run({}, t + 38 * sec);
    if (o.kind != Outcome::running)
        mc::fail("ended with %d", o.rc);
    mc::cover("published");
    mc::state(zones * 8 + host * 4 + reloads);
    mc::outcome(zones * 2 + host);
}
MC_SUITE("face", face, 1 << 20, 1 << 20, true, {"published"});
} // namespace

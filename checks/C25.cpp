//@technique exhaustive enumeration of tuning file contents over consecutive evaluations of real zones (and of the daemon) with scratch files in place of /etc/thermal.d
//@level model_checking
//@sources +main
//@budget 80 500
//@flags -ftrivial-auto-var-init=uninitialized
//@assume files change between evaluations, not during one
#include "daemon.hpp"

#include <fcntl.h>

#include <cstring>
#include <filesystem>

using namespace dm;
namespace fs = std::filesystem;

namespace
{
struct Content
{
    const char* name;
    const char* text; // nullptr: no file; "/": a directory
    double usable;    // 0: not usable
};
const std::vector<Content> contents{
    {"none", nullptr, 0},
    {"45000", "45000\n", 45000},
    {"empty", "", 0},
    {"text", "fast\n", 0},
    {"100", "100", 0},
    {"101", "101", 101},
    {"0", "0\n", 0},
    {"-4000", "-4000\n", 0},
    {"directory", "/", 0},
    {"newline", "\n", 0},
    {"large", "2147483647\n", 2147483647},
    {"blanks", "  \t 4321 \n\n", 4321},
    {"99", "99\n", 0},
    {"two", "3000 50\n", 3000},
    {"sign", "-\n", 0},
};
std::string dir()
{
    return mc::scratch() + "/thermal.d";
}
// what is in the directory (rewritten only where it differs)
std::map<std::string, const Content*> present;
void put(const std::string& name, const Content& c)
{
    auto& was = present[name];
    if (was == &c)
        return;
    auto f = dir() + "/" + name;
    if (was && was->text && std::string(was->text) == "/")
        rmdir(f.c_str());
    else if (!c.text || std::string(c.text) == "/")
        unlink(f.c_str());
    was = &c;
    if (!c.text)
        return;
    if (std::string(c.text) == "/")
    {
        mkdir(f.c_str(), 0755);
        return;
    }
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || write(fd, c.text, strlen(c.text)) < 0)
        mc::fail("cannot write %s", f.c_str());
    close(fd);
}
void clean()
{
    static bool first = true;
    if (first)
    {
        fs::remove_all(dir());
        fs::create_directories(dir());
        first = false;
    }
    for (auto& [n, c] : present)
        put(n, contents[0]);
    vt::redirect("/etc/thermal.d", dir());
}
double target(const Content& common, const Content& own, bool tuning, double v)
{
    if (!tuning)
        return v;
    return own.usable ? own.usable : common.usable ? common.usable : v;
}

// what happens to two zones over consecutive evaluations
void history()
{
    clean();
    World wd;
    tuningEnabled = mc::choose(2, "tuning");
    static const std::vector<std::pair<int64_t, int64_t>> idss{
        {1, 10}, {0, 2}, {255, 3}};
    auto ids = mc::pick(idss, "zones");
    wd.dbus("T1", "temp", 20);
    wd.dbus("T2", "temp", 30);
    wd.fan("F1", 1000);
    wd.fan("F2", 1000);
    // (one of the zones is below its minimum)
    wd.zone(ids.first, 25, 0, 1000, 1000);
    wd.zone(ids.second, 25, 0, 1000, 1000);
    wd.loop(ids.first, "t1", "temp", {"T1"}, directThermal());
    wd.loop(ids.second, "t2", "temp", {"T2"}, directThermal());
    wd.loop(ids.first, "f1", "fan", {"F1"}, directFan());
    wd.loop(ids.second, "f2", "fan", {"F2"}, directFan());
    wd.build();
    int nc = mc::thorough() ? 15 : 10;
    int depth = mc::thorough() ? 3 : 2;
    const Content *c = &contents[0], *a = c, *b = c;
    auto look = [&](double va, double vb, const char* when) {
        double ta = target(*c, *a, tuningEnabled, va);
        double tb = target(*c, *b, tuningEnabled, vb);
        mc::compare(2);
        double ga = wd.z(ids.first)->getMaxSetPointRequest();
        double gb = wd.z(ids.second)->getMaxSetPointRequest();
        if (ga != ta || gb != tb)
            mc::fail("%s: targets of zones %ld,%ld are %g,%g instead of "
                     "%g,%g (common file: %s, own files: %s, %s; tuning %d)",
                     when, static_cast<long>(ids.first),
                     static_cast<long>(ids.second), ga, gb, ta, tb, c->name,
                     a->name, b->name, tuningEnabled);
        mc::cover(a->usable   ? "own file"
                  : c->usable ? "common file"
                              : "computed");
    };
    int64_t t = vt::now();
    bool started = false;
    double va = 25, vb = 30;
    for (int i = 0; i < depth; ++i)
    {
        if (!i)
        {
            c = &contents[mc::choose(nc, "common")];
            a = &contents[mc::choose(nc, "first")];
            b = &contents[mc::choose(mc::thorough() ? 5 : 2, "second")];
        }
        else // one of the files changes
        {
            auto& which = *std::vector<const Content**>{
                &c, &a, &b}[mc::choose(3, "file")];
            which = &contents[mc::choose(nc, "content")];
        }
        put("setpoint", *c);
        put("setpoint.zone" + std::to_string(ids.first), *a);
        put("setpoint.zone" + std::to_string(ids.second), *b);
        if (i)
        {
            wd.value("T1", va = 40);
            wd.value("T2", 20);
            vb = 25;
        }
        if (!started)
        {
            wd.start();
            started = true;
            t += vt::sec; // the next evaluation is at the second cycle
        }
        else
            wd.runUntil(t += vt::sec);
        mc::op();
        look(va, vb, i ? "second evaluation" : "first evaluation");
        mc::state(mc::hashD(target(*c, *a, tuningEnabled, va),
                            mc::hashD(target(*c, *b, tuningEnabled, vb), i)));
    }
    // and the fans follow
    mc::compare(2);
    double ta = target(*c, *a, tuningEnabled, va);
    if (wd.target("F1") != static_cast<uint64_t>(rawOf(ta)))
        mc::fail("fan is sent %lu for a target of %g", wd.target("F1"), ta);
    mc::outcome(mc::hashD(ta, 1));
}
MC_SUITE("history", history, 1 << 20, 1 << 20, false,
         {"own file", "common file", "computed"});

// a file changing between evaluations counts at the next one, not before
void moments()
{
    clean();
    World wd;
    tuningEnabled = true;
    wd.dbus("T1", "temp", 20);
    wd.fan("F1", 1000);
    wd.zone(4, 0, 0, 100, 300);
    wd.loop(4, "t1", "temp", {"T1"}, directThermal());
    wd.loop(4, "f1", "fan", {"F1"}, directFan());
    wd.build();
    static const std::vector<int> used{0, 1, 2, 5, 4};
    const Content *c = &contents[0], *a = c;
    wd.start();
    double now = 20;
    int64_t evals = 0, cycles = 0;
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        auto& x = contents[mc::pick(used, "content")];
        if (mc::choose(2, "file"))
            put("setpoint", *(c = &x));
        else
            put("setpoint.zone4", *(a = &x));
        int n = 1 + mc::choose(2, "cycles") * 2;
        for (int k = 0; k < n; ++k)
        {
            ++cycles;
            wd.runUntil(wd.started + cycles * 100 * vt::ms);
            // thermal evaluations are due at cycles 4, 7, 10, ...
            if (cycles >= 4 && (cycles - 1) / 3 > evals)
            {
                evals = (cycles - 1) / 3;
                now = target(*c, *a, true, 20);
            }
            mc::compare();
            double g = wd.z(4)->getMaxSetPointRequest();
            if (g != now)
                mc::fail("cycle %ld: target %g instead of %g (common %s, own "
                         "%s)",
                         static_cast<long>(cycles), g, now, c->name, a->name);
        }
        mc::state(mc::hashD(now, cycles));
    }
    mc::outcome(mc::hashD(now, 1));
}
MC_SUITE("moments", moments);

// the program: tuning is on with its flag or its file, off otherwise
void daemon()
{
    clean();
    World wd;
    fresh();
    wd.dbus("T1", "temp", 30);
    wd.fan("F1", 0);
    wd.zone(12, 0, 70);
    wd.loop(12, "t1", "temp", {"T1"}, directThermal());
    wd.loop(12, "f1", "fan", {"F1"}, directFan());
    writeFile(configPath(), fileOf(wd).dump());
    bool flag = mc::choose(2, "-t"), file = mc::choose(2, "tuning file");
    if (file)
        std::ofstream(dir() + "/tuning");
    // neighbours that must not switch it on
    if (mc::choose(2, "other files"))
        std::ofstream(dir() + "/tuning.zone12") << "1";
    static const std::vector<int> used{0, 1, 4};
    auto& c = contents[mc::pick(used, "common")];
    auto& a = contents[mc::pick(used, "own")];
    put("setpoint", c);
    put("setpoint.zone12", a);
    std::vector<std::string> args{"-c", configPath()};
    if (flag)
        args.push_back(mc::choose(2, "long option") ? "--tuning" : "-t");
    auto judge = [&] {
        mc::compare();
        double want = target(c, a, flag || file, 30);
        if (wd.target("F1") != static_cast<uint64_t>(rawOf(want)))
            mc::fail("fan is sent %lu instead of %ld (flag %d, file %d, "
                     "common %s, own %s)",
                     wd.target("F1"), static_cast<long>(rawOf(want)), flag,
                     file, c.name, a.name);
    };
    vt::at(vt::now() + vt::sec * 3, judge);
    if (mc::choose(2, "reload"))
    {
        vt::at(vt::now() + vt::sec * 4, [] { raise(SIGHUP); });
        vt::at(vt::now() + vt::sec * 30, judge);
    }
    auto o = run(args, vt::now() + vt::sec * 31);
    if (o.kind != Outcome::running)
        mc::fail("main() returned %d", o.rc);
}
MC_SUITE("daemon", daemon, 1 << 20, 1 << 20, true);
} // namespace

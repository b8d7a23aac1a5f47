//@technique exhaustive enumeration of interleaved event histories of two real zones, each compared with the same zone running alone under its own events (self-composition)
//@level model_checking
//@budget 90 600
//@sources +main
//@assume fans and their controls belong to one zone
#define DAEMON_WORLD 1
#include "daemon.hpp"
#include "world.hpp"

#include <sys/wait.h>

#include <filesystem>
#include <sstream>

using namespace w;
using namespace dm;
namespace fs = std::filesystem;

namespace
{
std::string show(const simbus::Val& v)
{
    std::string s = std::visit(
        [](auto& x) -> std::string {
            using T = std::decay_t<decltype(x)>;
            if constexpr (std::is_same_v<T, std::monostate>)
                return "";
            else if constexpr (std::is_same_v<T, std::string>)
                return x;
            else if constexpr (std::is_same_v<T, double>)
                return S("%.17g", x);
            else
                return std::to_string(x);
        },
        v.b);
    for (auto& k : v.kids)
        s += "(" + show(k) + ")";
    return s;
}
const char* const tag[2] = {"A", "B"};

struct Shape
{
    int64_t id[2];
    uint64_t fanMs[2], thermMs[2];
    bool accumulate[2];
    bool missOk[2];    // an absent shared sensor is acceptable
    int shared[2];     // how the zone uses the shared sensor: 0 not, 1 temp,
                       // 2 converted to margin, 3 stepwise
    int fans[2];
    bool sameNames;
    double failsafe[2];
};
const std::vector<Shape> shapes{
    {{1, 2}, {100, 100}, {1000, 1000}, {false, false}, {false, false}, {1, 1},
     {1, 1}, true, {70, 80}},
    {{1, 257}, {100, 200}, {300, 400}, {false, true}, {true, false}, {1, 2},
     {2, 1}, true, {60, 0}},
    {{255, 0}, {200, 100}, {400, 700}, {true, false}, {false, true}, {3, 1},
     {1, 2}, false, {0, 75}},
    {{3, 13}, {100, 1000}, {100, 1000}, {true, true}, {true, true}, {2, 2},
     {2, 2}, true, {90, 50}},
    {{5, 4}, {1000, 100}, {1000, 500}, {false, false}, {false, false}, {3, 3},
     {1, 1}, true, {65, 65}},
};
enum Ev
{
    evTemp,
    evTempFail,
    evHost,
    evFan,
    evManual,
    evLoop,
    evDelivery,
    zoneEvents
};
struct Step
{
    int who; // 0, 1: a zone; 2: the shared sensor
    int what;
};
struct View
{
    std::vector<std::string> seen; // in order
    std::string log;
};

class Scene
{
  public:
    Scene(const Shape& s, bool a, bool b, bool debug, bool program = false) :
        s(s), has{a, b}
    {
        dir = mc::scratch() + "/zones";
        fs::remove_all(dir);
        fs::create_directories(dir);
        vt::reset();
        wd.emplace();
        if (!program)
        {
            loggingEnabled = true;
            loggingPath = dir;
            debugEnabled = debug;
        }
        configure();
        observe();
        if (program)
            return;
        wd->build();
        settle();
    }
    ~Scene()
    {
        wd.reset();
    }
    std::string n(const char* base, int z)
    {
        return base + std::string(tag[z]);
    }
    std::string ln(const char* base, int z)
    {
        return s.sameNames ? base : n(base, z);
    }
    void configure()
    {
        wd->dbus("Shared", "temp", 30);
        for (int z = 0; z < 2; ++z)
        {
            if (!has[z])
                continue;
            wd->dbus(n("Temp", z), "temp", 25);
            wd->ext(n("Host", z), "margin");
            std::vector<std::string> fans;
            for (int i = 0; i < s.fans[z]; ++i)
            {
                fans.push_back(n("Fan", z) + std::to_string(i));
                wd->fan(fans.back(), 1000 + 100 * z);
            }
            int64_t id = s.id[z];
            wd->zone(id, 10 + 5 * z, s.failsafe[z], s.fanMs[z], s.thermMs[z])
                .accumulateSetPoint = s.accumulate[z];
            wd->loop(id, ln("temp", z), "temp", {n("Temp", z)},
                     directThermal(), 0, 20);
            auto p = directThermal();
            p.integralCoeff = -0.25;
            p.integralLimit = {-50, 50};
            wd->loop(id, ln("margin", z), "margin", {n("Host", z)}, p, 15);
            auto f = directFan(0, 300);
            f.slewPos = 400;
            wd->loop(id, ln("fan", z), "fan", fans, f);
            if (s.shared[z] == 3)
                wd->stepwise(id, ln("shared", z), {"Shared"}, {20, 40, 60},
                             {12.0 + z, 45, 90}, false, 1 + z, 2);
            else if (s.shared[z])
            {
                auto& c = wd->loop(id, ln("shared", z),
                                   s.shared[z] == 2 ? "margin" : "temp",
                                   {"Shared"}, directThermal(), 0, 10 * z);
                if (s.shared[z] == 2)
                {
                    c.inputs[0].convertTempToMargin = true;
                    c.inputs[0].convertMarginZero = 85 + z;
                    c.pidInfo.proportionalCoeff = 1;
                    c.setpoint = 70;
                }
                c.inputs[0].missingIsAcceptable = s.missOk[z];
            }
        }
    }
    void observe()
    {
        bk().onServerSignal = [this](auto& path, auto& iface, auto& prop,
                                     auto& v) {
            int z = zoneOf(path);
            if (z >= 0)
                add(z, "signal " + path + " " + iface + "." + prop + " " +
                           show(v));
        };
        bk().fault = [this](const simbus::CallInfo& c) {
            if (c.dest == PWMSVC && c.member == "Set")
                for (int z = 0; z < 2; ++z)
                    if (broken[z] &&
                        c.path.find("/" + n("Fan", z)) != std::string::npos)
                        return EIO;
            return 0;
        };
    }
    void settle()
    {
        for (int z = 0; z < 2; ++z)
            if (has[z])
                wd->value(n("Host", z), 20);
    }
    int zoneOf(const std::string& path)
    {
        for (int z = 0; z < 2; ++z)
        {
            auto p = zonePath(s.id[z]);
            if (path == p || path.starts_with(p + "/"))
                return z;
        }
        return -1;
    }
    void add(int z, std::string t)
    {
        view[z].seen.push_back(
            S("%.3f ms ", vt::now() / 1e6) + std::move(t));
    }
    void apply(const Step& e)
    {
        if (e.who == 2)
        {
            if (e.what == 0)
                wd->value("Shared", hot = hot == 30 ? 66.5 : 30);
            else
                wd->functional("Shared", bad = !bad);
            return;
        }
        int z = e.who;
        if (!has[z])
            return;
        bool on = !on_[z][e.what];
        on_[z][e.what] = on;
        switch (e.what)
        {
            case evTemp:
                wd->value(n("Temp", z), on ? 47.25 : 25);
                break;
            case evTempFail:
                wd->functional(n("Temp", z), !on);
                break;
            case evHost:
                wd->value(n("Host", z), on ? NaN : 5);
                break;
            case evFan:
                wd->functional(n("Fan", z) + "0", !on);
                break;
            case evManual:
                wd->manual(s.id[z], on);
                break;
            case evLoop:
                wd->enable(s.id[z], ln("temp", z), !on);
                break;
            case evDelivery:
                broken[z] = on;
                break;
        }
    }
    void snapshot()
    {
        for (auto& sv : bk().servers)
        {
            int z = zoneOf(sv.path);
            if (z < 0)
                continue;
            std::string t = sv.path + " " + sv.iface;
            for (auto& [k, p] : sv.props)
                t += " " + k + "=" + show(p.get());
            add(z, t);
        }
    }
    void collectWrites()
    {
        for (; mark < bk().sets.size(); ++mark)
        {
            auto& x = bk().sets[mark];
            for (int z = 0; z < 2; ++z)
                if (x.path.find("/" + n("Fan", z)) != std::string::npos)
                    view[z].seen.push_back(S("%.3f ms fan ", x.timeNs / 1e6) +
                                           x.path + " " + show(x.value) +
                                           (x.ok ? "" : " lost"));
        }
    }
    void run(const std::vector<Step>& steps, bool descending,
             int64_t gap = 700 * vt::ms)
    {
        wd->start(descending);
        int64_t t = vt::now();
        for (size_t i = 0; i <= steps.size(); ++i)
        {
            // away from the cycles' own instants
            wd->runUntil(t += gap + 50 * vt::ms);
            collectWrites();
            snapshot();
            if (i < steps.size())
                apply(steps[i]);
        }
        wd->runUntil(t += 1500 * vt::ms);
        collectWrites();
        snapshot();
        for (int z = 0; z < 2; ++z)
            if (has[z])
                states[z] = mc::hashD(
                    wd->z(s.id[z])->getMaxSetPointRequest(),
                    wd->failsafeProp(s.id[z]) * 2 + wd->manualProp(s.id[z]));
        bk().onServerSignal = nullptr;
        wd->stop();
        for (int z = 0; z < 2; ++z)
        {
            std::ifstream f(dir + "/zone_" + std::to_string(s.id[z]) + ".log");
            std::stringstream ss;
            ss << f.rdbuf();
            view[z].log = ss.str();
            if (has[z] && view[z].log.empty())
                mc::fail("no log of zone %ld", static_cast<long>(s.id[z]));
        }
    }
    const Shape& s;
    bool has[2];
    std::optional<World> wd;
    View view[2];
    uint64_t states[2] = {};
    std::string dir;

  private:
    double hot = 30;
    bool bad = false, broken[2] = {};
    bool on_[2][zoneEvents] = {};
    size_t mark = 0;
};

void same(const View& alone, const View& both, const char* zone)
{
    mc::compare(alone.seen.size() + 1);
    for (size_t i = 0; i < alone.seen.size() || i < both.seen.size(); ++i)
    {
        if (i >= alone.seen.size())
            mc::fail("zone %s does in addition: %s", zone,
                     both.seen[i].c_str());
        if (i >= both.seen.size())
            mc::fail("zone %s no longer does: %s", zone,
                     alone.seen[i].c_str());
        if (alone.seen[i] != both.seen[i])
            mc::fail("zone %s: \"%s\" becomes \"%s\" beside the other zone",
                     zone, alone.seen[i].c_str(), both.seen[i].c_str());
    }
    if (alone.log != both.log)
        mc::fail("the log of zone %s differs beside the other zone", zone);
}
Step pickStep()
{
    int o = mc::choose(2 * zoneEvents + 2, "event");
    return o >= 2 * zoneEvents ? Step{2, o - 2 * zoneEvents}
                               : Step{o / zoneEvents, o % zoneEvents};
}
void compare(const Shape& s, const std::vector<Step>& steps, bool descending,
             bool debug)
{
    w::noBuses = false;
    mc::op(3 * steps.size());
    Scene both(s, true, true, debug);
    both.run(steps, descending);
    auto v0 = both.view[0], v1 = both.view[1];
    both.wd.reset();
    {
        Scene a(s, true, false, debug);
        a.run(steps, false);
        same(a.view[0], v0, "A");
    }
    {
        Scene b(s, false, true, debug);
        b.run(steps, false);
        same(b.view[1], v1, "B");
    }
    uint64_t h = mc::mix(both.states[0], both.states[1]);
    mc::state(mc::mix(h, steps.size()));
    for (auto& l : {v0.log, v1.log})
        h = mc::hashS(l, h);
    mc::outcome(h);
}

// every interleaving of events of both zones and of what they share
void interleavings()
{
    auto& s = mc::pick(shapes, "zones");
    bool desc = mc::choose(2, "start order");
    std::vector<Step> steps;
    int depth = mc::thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i)
        steps.push_back(pickStep());
    compare(s, steps, desc, false);
}
MC_SUITE("interleavings", interleavings);

// the settings of the zones in every combination
void settings()
{
    Shape s = shapes[0];
    static const std::vector<std::pair<int64_t, int64_t>> ids{
        {1, 2}, {2, 1}, {0, 256}, {7, 70}};
    auto i = mc::pick(ids, "ids");
    s.id[0] = i.first;
    s.id[1] = i.second;
    for (int z = 0; z < 2; ++z)
    {
        s.shared[z] = mc::choose(4, "use of the shared sensor");
        s.accumulate[z] = mc::choose(2, "accumulate");
        s.failsafe[z] = mc::choose(2, "failsafe") ? 80 : 0;
        s.missOk[z] = mc::choose(2, "missing acceptable");
    }
    s.sameNames = mc::choose(2, "same loop names");
    std::vector<Step> steps{{2, mc::choose(2, "shared event")}};
    compare(s, steps, false, mc::choose(2, "debug"));
}
MC_SUITE("settings", settings);

// the program itself, with one or both zones in its configuration file, in a
// process of its own
View program(const Shape& s, bool a, bool b, const std::vector<Step>& steps,
             int zone)
{
    std::string out = mc::scratch() + "/seen";
    fs::remove(out);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0)
        mc::fail("fork");
    if (!pid)
    {
        int rc = 8;
        try
        {
            w::noBuses = true;
            Scene sc(s, a, b, false, true);
            writeFile(configPath(), fileOf(*sc.wd).dump());
            int64_t t = vt::sec;
            vt::at(t, [&] { sc.settle(); });
            for (auto& e : steps)
                vt::at(t += 1750 * vt::ms, [&] {
                    sc.collectWrites();
                    sc.snapshot();
                    sc.apply(e);
                });
            auto o = dm::run({"-c", configPath()}, t + 4 * vt::sec);
            bk().onServerSignal = nullptr;
            sc.collectWrites();
            sc.snapshot();
            std::ofstream f(out);
            for (auto& l : sc.view[zone].seen)
                f << l << "\n";
            rc = o.kind == Outcome::running ? 0 : 9;
        }
        catch (...)
        {}
        _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
        mc::fail("the program ended (%d)", st);
    View v;
    std::ifstream f(out);
    for (std::string l; std::getline(f, l);)
        v.seen.push_back(l);
    if (v.seen.size() < 10)
        mc::fail("the program does nothing");
    return v;
}
void programs()
{
    auto& s = mc::pick(shapes, "zones");
    std::vector<Step> steps;
    for (int i = 0; i < 2; ++i)
        steps.push_back(pickStep());
    int z = mc::choose(2, "zone");
    auto both = program(s, true, true, steps, z);
    same(program(s, z == 0, z == 1, steps, z), both, tag[z]);
    uint64_t h = 3;
    for (auto& l : both.seen)
        h = mc::hashS(l, h);
    mc::outcome(h);
    mc::state(mc::mix(h, z));
    mc::op(4);
}
MC_SUITE("program", programs, 1 << 20, 1 << 20, true);
} // namespace

//@technique exhaustive enumeration of file fault sequences on real file-backed sensors and zones
//@level model_checking
//@budget 60 400
//@assume files change between reads, not during one
#include "world.hpp"

#include <filesystem>

using namespace w;
namespace fs = std::filesystem;

namespace
{
struct Content
{
    const char* name;
    const char* text; // nullptr: no file
    bool good;
    double value;
};
const std::vector<Content> contents{
    {"1234", "1234\n", true, 1234},
    {"no file", nullptr, false, 0},
    {"empty", "", false, 0},
    {"text", "abc\n", false, 0},
    {"0", "0\n", true, 0},
    {"-5000", "-5000\n", true, -5000},
    {"newline", "\n", false, 0},
    {"big", "4294967297000", true, 4294967297000.0},
    {"a directory", "/", false, 0},
};
void put(const std::string& f, const Content& c)
{
    fs::remove_all(f);
    if (!c.text)
        return;
    if (std::string(c.text) == "/")
    {
        fs::create_directory(f);
        return;
    }
    std::ofstream o(f);
    o << c.text;
}

void faults()
{
    World wd;
    bool fan = mc::choose(2, "fan");
    static const std::vector<int64_t> tos{0, 2};
    int64_t timeout = mc::pick(tos, "timeout");
    bool glob = mc::choose(2, "wildcard path");
    std::string base = mc::scratch() + "/sys/class/hwmon";
    fs::remove_all(mc::scratch() + "/sys");
    fs::create_directories(base + "/hwmon7");
    std::string file = base + "/hwmon7/in1";
    auto& c = wd.sensor("S", fan ? "fan" : "temp", timeout);
    c.readPath = glob ? base + "/**/in1" : file;
    if (!fan)
        wd.fan("Other");
    else
        wd.dbus("Other", "temp", 5);
    wd.zone(0, 0, 40, 500, 500);
    wd.loop(0, "t", "temp", {fan ? "Other" : "S"}, directThermal());
    wd.loop(0, "f", "fan", {fan ? "S" : "Other"}, directFan());
    const Content* cur = &mc::pick(contents, "initial content");
    put(file, *cur);
    wd.build();
    bool had = false;
    double last = 0;
    int64_t lastGood = -100 * vt::sec;
    auto evaluated = [&] {
        // what the loops were given by the evaluation that just happened
        int64_t t = vt::now();
        double v = wd.z(0)->getCachedValues("S").unscaled;
        double vs = wd.z(0)->getCachedValues("S").scaled;
        mc::compare(2);
        if (cur->good)
        {
            had = true;
            last = cur->value;
            lastGood = t;
            if (v != last || vs != last)
                mc::fail("t=%.3f file holds '%s' but the reading is %.17g",
                         t / 1e9, cur->name, v);
            mc::cover("good");
        }
        else
        {
            if (std::isfinite(v) && !(had && v == last))
                mc::fail("t=%.3f file is '%s' but the loops were given %.17g",
                         t / 1e9, cur->name, v);
            mc::cover("bad");
        }
        bool fsafe = wd.failsafeProp(0);
        bool want = !cur->good && t - lastGood >= timeout * vt::sec;
        if (want && !fsafe)
            mc::fail("t=%.3f file is '%s' for %.1f s (timeout %ld s) and the "
                     "zone is not in failsafe",
                     t / 1e9, cur->name, (t - lastGood) / 1e9, (long)timeout);
        if (cur->good && fsafe)
            mc::fail("t=%.3f file is '%s' and the zone is in failsafe",
                     t / 1e9, cur->name);
        mc::state(mc::hashD(last, (cur - &contents[0]) * 100 +
                                      (t - lastGood) / (500 * vt::ms) % 50 +
                                      fsafe * 7000));
    };
    wd.start();
    int64_t t = 0;
    wd.runUntil(t += vt::sec); // two fan cycles, two thermal evaluations
    evaluated();
    int depth = mc::thorough() ? 3 : 2;
    for (int i = 0; i < depth; ++i)
    {
        cur = &mc::pick(contents, "content");
        mc::op();
        wd.runUntil(t += 100 * vt::ms); // change between the evaluations
        put(file, *cur);
        t -= 100 * vt::ms;
        wd.runUntil(t += 500 * vt::ms);
        evaluated();
        if (mc::choose(2, "stays"))
            for (int k = 0; k < 5; ++k)
            {
                wd.runUntil(t += 500 * vt::ms);
                evaluated();
            }
    }
    mc::outcome(mc::hashD(last, cur - &contents[0]));
    wd.stop();
    fs::remove_all(mc::scratch() + "/sys");
}
MC_SUITE("faults", faults, 1 << 20, 1 << 20, false, {"good", "bad"});

// Several sensors: each file's contents reach its own sensor only.
void several()
{
    World wd;
    std::string base = mc::scratch() + "/sys/class/hwmon/hwmon0/";
    fs::remove_all(mc::scratch() + "/sys");
    fs::create_directories(base);
    static const char* n[] = {"in1", "in10", "in2"};
    const Content* c[3];
    for (int i = 0; i < 3; ++i)
    {
        c[i] = &contents[mc::choose(6, n[i])];
        wd.sensor(n[i], "temp").readPath = base + n[i];
        put(base + n[i], *c[i]);
    }
    wd.build();
    for (int r = 0; r < 2; ++r)
    {
        for (int i = 0; i < 3; ++i)
        {
            auto* s = wd.mgr->getSensor(n[i]);
            auto v = s->read();
            mc::op();
            mc::compare();
            if (c[i]->good ? v.value != c[i]->value : (r == 0 && std::isfinite(v.value)))
                mc::fail("%s holds '%s', reading is %.17g", n[i], c[i]->name,
                         v.value);
        }
        mc::state((c[0] - &contents[0]) + 10 * (c[1] - &contents[0]) +
                  100 * (c[2] - &contents[0]) + 1000 * r);
        int k = mc::choose(3, "which changes");
        c[k] = &contents[mc::choose(2, "to") ? 5 : 0];
        put(base + n[k], *c[k]);
    }
    fs::remove_all(mc::scratch() + "/sys");
}
MC_SUITE("several", several);
} // namespace

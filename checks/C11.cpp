//@technique exhaustive enumeration of manual/automatic switch, sensor and hand-set event histories over two real zones
//@level model_checking
//@budget 120 800
//@assume setting automatic while already automatic may or may not re-send duties
#include "world.hpp"

using namespace w;

namespace
{
// Zone A (id 5) has two bus fans (in two loops) and one file fan, zone B (id 50)
// two fans of one loop.
struct Scene
{
    World wd;
    int64_t t = 0;
    bool manA = false, manB = false;
    bool forceA = false, forceB = false, optA = false, optB = false;
    bool fileFan;
    size_t mark = 0;
    std::string file;
    std::map<std::string, int64_t> sent; // last raw the daemon delivered
    static constexpr int64_t A = 5, B = 50;

    explicit Scene(bool file_ = true, int thermMs = 1000) : fileFan(file_)
    {
        wd.zone(A, 5, 60, 1000, thermMs);
        wd.zone(B, 5, 70, 1000, thermMs);
        wd.fan("FanA1");
        wd.fan("FanA2");
        wd.fan("FanB");
        wd.fan("FanB2");
        std::vector<std::string> af{"FanA1"};
        if (fileFan)
        {
            wd.fan("FanA3", 1000, 0, 255);
            file = mc::scratch() + "/sys/pwm3";
            mkdir((mc::scratch() + "/sys").c_str(), 0755);
            handFile("77");
            wd.sensors["FanA3"].writePath = file;
            af.push_back("FanA3");
        }
        wd.dbus("TA", "temp", 30);
        wd.dbus("TB", "temp", 35);
        wd.dbus("TS", "temp", 20); // shared
        wd.loop(A, "LA", "temp", {"TA", "TS"}, directThermal());
        wd.loop(B, "LB", "temp", {"TB", "TS"}, directThermal());
        wd.loop(A, "FA", "fan", af, directFan());
        wd.loop(A, "FA2", "fan", {"FanA2"}, directFan());
        wd.loop(B, "FB", "fan", {"FanB", "FanB2"}, directFan());
        wd.build();
        wd.start();
    }
    void handFile(const char* v)
    {
        std::ofstream(file) << v;
    }
    std::string fileText()
    {
        std::ifstream i(file);
        std::string s;
        i >> s;
        return s;
    }
    // percentage zone z's loop must command now
    double duty(int64_t z, double failsafe)
    {
        double d = wd.z(z)->getMaxSetPointRequest();
        return wd.failsafeProp(z) ? std::max(d, failsafe) : d;
    }
    void setManual(int64_t z, bool on)
    {
        bool& m = z == A ? manA : manB;
        bool& f = z == A ? forceA : forceB;
        bool& o = z == A ? optA : optB;
        wd.manual(z, on);
        if (m && !on)
            f = true;
        else if (!m && !on)
            o = true;
        m = on;
        readback();
    }
    void readback()
    {
        mc::compare(2);
        if (wd.manualProp(A) != manA || wd.manualProp(B) != manB)
            mc::fail("published manual state (%d,%d), set (%d,%d)",
                     wd.manualProp(A), wd.manualProp(B), manA, manB);
    }
    // one fan cycle of both zones
    void cycle()
    {
        mark = bk().sets.size();
        std::string before = fileFan ? fileText() : "";
        wd.runUntil(t += vt::sec);
        std::map<std::string, std::vector<uint64_t>> w;
        for (auto& x : fanWrites(mark))
            w[x.fan].push_back(x.raw);
        zone(A, manA, forceA, optA, 60, {"FanA1", "FanA2"}, w);
        zone(B, manB, forceB, optB, 70, {"FanB", "FanB2"}, w);
        if (fileFan)
        {
            mc::compare();
            if (manA)
            {
                if (fileText() != before)
                    mc::fail("the file-backed fan was written (%s -> %s) in "
                             "manual mode",
                             before.c_str(), fileText().c_str());
            }
            else if (fileText() !=
                     std::to_string(rawOf(duty(A, 60), 0, 255)))
                mc::fail("the file-backed fan holds %s, expected %ld",
                         fileText().c_str(),
                         static_cast<long>(rawOf(duty(A, 60), 0, 255)));
        }
        readback();
        mc::state(mc::hashD(
            duty(A, 60),
            mc::hashD(duty(B, 70), manA * 2 + manB + 4 * wd.failsafeProp(A))));
    }
    void zone(int64_t z, bool man, bool& force, bool& opt, double fs,
              const std::vector<std::string>& fans,
              std::map<std::string, std::vector<uint64_t>>& w)
    {
        for (auto& f : fans)
        {
            auto& got = w[f];
            mc::compare();
            if (man)
            {
                mc::cover("manual cycle");
                if (!got.empty())
                    mc::fail("fan %s was commanded %lu while zone %ld is in "
                             "manual mode",
                             f.c_str(), static_cast<unsigned long>(got[0]),
                             static_cast<long>(z));
                continue;
            }
            auto raw = rawOf(duty(z, fs));
            bool changed = !sent.count(f) || sent[f] != raw;
            if (got.size() > 1)
                mc::fail("fan %s was commanded %zu times in one cycle",
                         f.c_str(), got.size());
            if ((changed || force) && got.empty())
                mc::fail("fan %s was not sent %ld%s", f.c_str(),
                         static_cast<long>(raw),
                         force ? " when automatic mode was restored" : "");
            if (!changed && !force && !opt && !got.empty())
                mc::fail("fan %s was sent the same duty %ld again", f.c_str(),
                         static_cast<long>(raw));
            if (!got.empty() && static_cast<int64_t>(got[0]) != raw)
                mc::fail("fan %s was sent %lu, expected %ld", f.c_str(),
                         static_cast<unsigned long>(got[0]),
                         static_cast<long>(raw));
            if (force)
                mc::cover(changed ? "restored, new duty" : "restored, same");
            sent[f] = raw;
            mc::outcome(mc::mix(raw, got.size() + 2 * force));
        }
        if (!man)
            force = opt = false;
    }
};

void histories()
{
    // (a file-backed fan makes executions slower, so histories are shorter)
    bool file = mc::choose(2, "with a file-backed fan");
    Scene s(file);
    int depth = (mc::thorough() ? 6 : 5) - file;
    for (int i = 0; i < depth; ++i)
    {
        mc::op();
        switch (mc::choose(13, "event"))
        {
            case 1: s.setManual(Scene::A, true); break;
            case 2: s.setManual(Scene::A, false); break;
            case 3: s.setManual(Scene::B, true); break;
            case 4: s.setManual(Scene::B, false); break;
            case 5: // set by hand
                s.wd.handSet("FanA1", 11);
                s.wd.handSet("FanB", 12);
                s.wd.handSet("FanB2", 12);
                if (s.manA && s.fileFan)
                    s.handFile("13");
                break;
            case 6: s.wd.value("TA", 44); break;
            case 7: s.wd.functional("TA", false); break;
            case 8: s.wd.functional("TA", true); break;
            case 9: s.wd.value("TS", 90); break;
            case 10: s.wd.functional("FanA1", false); break;
            case 11: // switched on and off between two cycles
                s.setManual(Scene::A, true);
                s.setManual(Scene::A, false);
                break;
            case 12: // and off and on
                s.setManual(Scene::A, false);
                s.setManual(Scene::A, true);
                break;
        }
        s.cycle();
    }
}
MC_SUITE("histories", histories, 1 << 20, 1 << 20, false,
         {"manual cycle", "restored, same", "restored, new duty"});

// manual requested before the loops start, and at every position of a longer
// run, for every length, with or without changes meanwhile
void lengths()
{
    Scene s(false, 3000);
    int at = mc::choose(7, "manual at cycle");
    int len = 1 + mc::choose(mc::thorough() ? 9 : 6, "for cycles");
    int what = mc::choose(4, "meanwhile");
    int second = mc::choose(4, "again after");
    for (int c = 0; c < at; ++c)
        s.cycle();
    for (int round = 0; round < 2; ++round)
    {
        mc::op();
        s.setManual(Scene::A, true);
        for (int c = 0; c < len; ++c)
        {
            if (c == 0 && what == 1)
                s.wd.value("TA", 47 + round);
            if (c == 0 && what == 2)
                s.wd.functional("TS", false);
            if (what == 3)
                s.wd.handSet("FanA2", 5 + c);
            s.cycle();
        }
        s.setManual(Scene::A, false);
        for (int c = 0; c < second + 1; ++c)
            s.cycle();
    }
}
MC_SUITE("lengths", lengths, 1 << 20, 1 << 20, false,
         {"manual cycle", "restored, same", "restored, new duty"});

// the request arrives at any moment around a fan cycle, also within the burst
// of events of one instant
void moments()
{
    Scene s(false);
    for (int i = 0; i < 3; ++i)
        s.cycle();
    static const std::vector<int64_t> off{-1000,          0,
                                          1000,           vt::sec / 2,
                                          vt::sec - 1000, vt::sec};
    int64_t t1 = s.t + vt::sec + mc::pick(off, "on at");
    int64_t t2 = t1 + mc::choose(3, "length") * vt::sec + mc::pick(off, "off");
    if (t2 < t1)
        t2 = t1;
    mc::op(2);
    std::vector<Write> during;
    bool on = false;
    size_t m = 0;
    vt::at(t1, [&] {
        s.wd.manual(Scene::A, true);
        on = true;
        m = bk().sets.size();
    });
    s.wd.value("TA", 55); // a change is due while manual
    vt::at(t2, [&] {
        during = fanWrites(m);
        s.wd.manual(Scene::A, false);
        on = false;
        m = bk().sets.size();
    });
    s.wd.runUntil(t2 + 3 * vt::sec);
    mc::compare(2);
    for (auto& x : during)
        if (x.fan != "FanB" && x.fan != "FanB2")
            mc::fail("fan %s commanded at %ld ns, in manual mode from %ld to "
                     "%ld",
                     x.fan.c_str(), static_cast<long>(x.t),
                     static_cast<long>(t1), static_cast<long>(t2));
    std::map<std::string, int> n;
    for (auto& x : fanWrites(m))
        ++n[x.fan];
    if (!n["FanA1"] || !n["FanA2"])
        mc::fail("fans were not sent their duty after automatic mode was "
                 "restored");
    mc::cover("manual cycle");
    mc::outcome(mc::mix(n["FanA1"], n["FanA2"]));
    mc::state(mc::mix(t1, t2));
}
MC_SUITE("moments", moments, 1 << 20, 1 << 20, false, {"manual cycle"});
} // namespace

//@technique exhaustive enumeration of fan speed, target and fault histories of real fan loops against a reference feedback and command
//@level model_checking
//@budget 90 600
//@assume speeds up to 1e6, loop output within 0..100 %, no failed sensor raising the duty
#include "world.hpp"

using namespace w;

namespace
{
// percent = target + (target - speed) / 1000: reveals set point and feedback
ec::pidinfo reveal(double p = 0.001)
{
    ec::pidinfo i;
    i.ts = 0.1;
    i.proportionalCoeff = p;
    i.feedFwdGain = 1;
    i.outLim = {-1e6, 1e6};
    return i;
}
struct FanLoop
{
    std::string name;
    std::vector<std::string> fans;
    double p;
};
struct Scene
{
    World wd;
    std::vector<FanLoop> loops;
    std::map<std::string, double> rpm;  // current speed
    std::map<std::string, bool> noWrite; // cannot be delivered at present
    std::map<std::string, int64_t> hw;  // reference content of the control
    double target = 40;
    int64_t t = 0;
    static constexpr int64_t zid = 3;
    void make(double minThermal = 0)
    {
        wd.zone(zid, minThermal, 0, 1000, 1000);
        for (auto& l : loops)
        {
            for (auto& f : l.fans)
            {
                wd.fan(f, 1000);
                rpm[f] = 1000;
                hw[f] = static_cast<int64_t>(World::sentinel);
            }
            wd.loop(zid, l.name, "fan", l.fans, reveal(l.p));
        }
        wd.ext("T", "temp");
        wd.loop(zid, "a_therm", "temp", {"T"}, directThermal());
        bk().fault = [this](const simbus::CallInfo& c) {
            if (c.member == "Set" && c.dest == PWMSVC)
                return noWrite[c.path.substr(c.path.rfind('/') + 1)] ? ETIMEDOUT
                                                                     : 0;
            return 0;
        };
    }
    void go()
    {
        wd.build();
        wd.value("T", target);
        wd.start();
    }
    double feedback(const FanLoop& l)
    {
        double m = 0;
        for (auto& f : l.fans)
        {
            double v = rpm[f];
            if (std::isfinite(v) && v > 0 && (m == 0 || v < m))
                m = v;
        }
        return m;
    }
    std::string show(const FanLoop& l)
    {
        std::string o;
        for (auto& f : l.fans)
            o += S(" %s=%g", f.c_str(), rpm[f]);
        return o;
    }
    void cycle(const char* where)
    {
        wd.runUntil(t += vt::sec);
        for (auto& l : loops)
        {
            double fb = feedback(l);
            double pct = target + l.p * (target - fb);
            int64_t raw = rawOf(pct);
            for (auto& f : l.fans)
            {
                mc::compare();
                auto got = static_cast<int64_t>(wd.target(f));
                if (noWrite[f])
                    continue;
                hw[f] = raw;
                if (got < raw - 1 || got > raw + 1)
                    mc::fail("%s: fan %s of loop '%s' is commanded %ld, "
                             "expected %ld (target %g, feedback %g;%s)",
                             where, f.c_str(), l.name.c_str(),
                             static_cast<long>(got), static_cast<long>(raw),
                             target, fb, show(l).c_str());
                if (got != static_cast<int64_t>(wd.target(l.fans[0])) &&
                    !noWrite[l.fans[0]])
                    mc::fail("%s: fans of loop '%s' are commanded differently",
                             where, l.name.c_str());
            }
            mc::cover(fb > 0 ? "some speed" : "no speed");
            mc::outcome(mc::hashD(pct, 7));
        }
        uint64_t h = mc::hashD(target, 2);
        for (auto& [n, v] : rpm)
            h = mc::hashD(v, h);
        mc::state(h);
    }
};
const std::vector<double> speeds{1000, NaN, 0, 700, 1, -50, 8000, INF, 0.5};

// every combination of speeds of the fans of one loop
void speedsOf()
{
    Scene s;
    int n = 1 + mc::choose(4, "fans");
    static const std::vector<std::string> names{"Fan1", "Fan10", "Fan2", "Fa"};
    s.loops.push_back({"F", {names.begin(), names.begin() + n}, -0.001});
    s.make();
    s.go();
    int k = n <= 3 ? 9 : mc::thorough() ? 7 : 5;
    for (auto& f : s.loops[0].fans)
    {
        double v = speeds[mc::choose(k, "speed")];
        s.rpm[f] = v;
        s.wd.value(f, v);
        // a non-finite report keeps the last finite speed as reading
        if (!std::isfinite(v))
            s.rpm[f] = 1000;
    }
    mc::op();
    s.cycle("first cycle");
    // the next cycle uses new speeds and the then target
    s.target = 63;
    s.wd.value("T", s.target);
    for (auto& f : s.loops[0].fans)
        s.wd.value(f, s.rpm[f] = mc::choose(2, "speed") ? 0 : 450);
    s.wd.runUntil(s.t += vt::sec); // evaluates the target
    s.cycle("later cycle");
}
MC_SUITE("speeds", speedsOf, 1 << 20, 1 << 20, false,
         {"some speed", "no speed"});

// unavailable fans have no speed; histories over two loops
void histories()
{
    Scene s;
    s.loops = {{"F1", {"Fan1", "Fan2", "Fan3"}, -0.001},
               {"F2", {"Fan4", "Fan"}, -0.002}};
    s.make();
    s.go();
    // reach a cycle after the first repeated thermal evaluation
    s.wd.runUntil(s.t += vt::sec);
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        mc::op();
        auto sp = [&](const char* f, double v) { s.wd.value(f, s.rpm[f] = v); };
        bool resend = false;
        switch (mc::choose(13, "event"))
        {
            case 1: sp("Fan1", 0); break;
            case 2: sp("Fan1", 600); break;
            case 3: sp("Fan2", 300); break;
            case 4: sp("Fan3", -1); break;
            case 5:
                s.wd.available("Fan2", false);
                s.rpm["Fan2"] = NaN;
                break;
            case 6:
                // after an absence there is no reading until the next report
                s.wd.available("Fan2", true);
                break;
            case 7: sp("Fan4", 5000); break;
            case 8: sp("Fan", 0); break;
            case 9:
                s.wd.functional("Fan4", false); // failed, still the last value
                break;
            case 10: s.noWrite["Fan1"] = true; break;
            case 11:
                s.noWrite["Fan1"] = false;
                // manual and back forces every fan to be sent again
                resend = true;
                break;
            case 12:
                s.target = s.target == 40 ? 21 : 40;
                s.wd.value("T", s.target);
                break;
        }
        if (resend)
        {
            s.wd.manual(Scene::zid, true);
            s.wd.manual(Scene::zid, false);
        }
        s.cycle("cycle");
    }
}
MC_SUITE("histories", histories, 1 << 20, 1 << 20, false,
         {"some speed", "no speed"});

// speeds count in RPM even when the sensor declares a range
void scaled()
{
    Scene s;
    s.loops.push_back({"F", {"Fan1", "Fan2", "Fan3"}, -0.001});
    s.make();
    for (auto f : {"Fan1", "Fan2", "Fan3"})
        if (int m = mc::choose(3, "declared range"))
        {
            auto& o = bk().services[SVC][s.wd.objPath(f)][iValue];
            o["MinValue"] = toVal(0.0);
            o["MaxValue"] = toVal(m == 1 ? 10000.0 : 500.0);
        }
    s.go();
    static const std::vector<double> v{1200, 900, 3000, 0, 250};
    for (int i = 0; i < (mc::thorough() ? 2 : 1); ++i)
    {
        for (auto f : {"Fan1", "Fan2", "Fan3"})
            s.wd.value(f, s.rpm[f] = mc::pick(v, "speed"));
        mc::op();
        s.cycle("cycle");
    }
}
MC_SUITE("scaled", scaled, 1 << 20, 1 << 20, false, {"some speed", "no speed"});

// fans that can only be written (no readPath), alone or among others, and
// fans that can only be read
void writeOnly()
{
    Scene s;
    s.loops.push_back({"F", {"Fan1", "Fan2", "Fan3"}, -0.001});
    s.make();
    std::set<std::string> ro;
    for (auto f : {"Fan1", "Fan2", "Fan3"})
    {
        switch (mc::choose(4, "kind"))
        {
            case 1:
                s.wd.sensors[f].readPath = "";
                s.rpm[f] = NaN;
                break;
            case 2:
                s.wd.sensors[f].readPath = "None";
                s.rpm[f] = NaN;
                break;
            case 3:
                s.wd.sensors[f].writePath = "None";
                s.noWrite[f] = true;
                break;
        }
    }
    s.go();
    static const std::vector<double> v{1200, 0, 900};
    for (int i = 0; i < 2; ++i)
    {
        for (auto f : {"Fan1", "Fan2", "Fan3"})
            if (!std::isnan(s.rpm[f]))
                s.wd.value(f, s.rpm[f] = mc::pick(v, "speed"));
        mc::op();
        s.cycle("cycle");
    }
    mc::compare();
    if (s.wd.failsafeProp(Scene::zid))
        mc::fail("a fan without readings put the zone in failsafe");
}
MC_SUITE("writeOnly", writeOnly, 1 << 20, 1 << 20, false,
         {"some speed", "no speed"});
} // namespace

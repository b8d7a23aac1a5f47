//@technique explicit enumeration of sensor fail/recover histories against the real loops and a reference model
//@level model_checking
//@variant base
//@variant strict STRICT_FAILSAFE_PWM=1
//@budget 60 500
//@assume the bus, clock and hwmon files are simulated; control code is the real one
//@assume histories are bounded to the stated number of thermal evaluations
#include "world.hpp"

using namespace w;

namespace
{
constexpr bool strict = STRICT_FAILSAFE_PWM;

struct Ref
{
    std::map<std::string, bool> failed; // zone input -> failed
    std::map<std::string, double> pct;  // largest loop percentage
    double zonePct = 0;
    bool any() const
    {
        for (auto& [n, f] : failed)
            if (f)
                return true;
        return false;
    }
    double floor() const
    {
        double m = 0;
        for (auto& [n, f] : failed)
            if (f)
            {
                auto it = pct.find(n);
                double p = it == pct.end() || it->second == 0 ? zonePct
                                                              : it->second;
                m = std::max(m, p);
            }
        return m == 0 ? zonePct : m;
    }
    double duty(double computed, bool tuning) const
    {
        if (tuning || !any())
            return computed;
        if (strict)
            return floor();
        return std::max(computed, floor());
    }
};

void expectFan(World& wd, const char* fan, double pct, const Ref& r,
               double computed)
{
    mc::compare();
    int64_t want = rawOf(pct);
    int64_t got = static_cast<int64_t>(wd.target(fan));
    if (std::llabs(want - got) > 1)
        mc::fail("t=%.3fs fan %s is commanded raw %ld (%.3f%%), expected %ld "
                 "(%.3f%%): computed %.3f%%, failed=%d, failsafe duty %.3f%%",
                 vt::now() / 1e9, fan, (long)got, got / 1000.0, (long)want, pct,
                 computed, (int)r.any(), r.floor());
}

// Two temperatures (T1 used by two loops), two fans in two fan loops.
void histories()
{
    World wd;
    static const std::vector<double> zp{40, 62.5, 0};
    static const std::vector<std::array<double, 3>> sp{
        {0, 0, 0},        // nobody configures one: zone percentage
        {30, 80, 55},     // T1: max(30,80); T2: 55
        {80, 30, 0},      // order of the two loops swapped; T2 zone
        {50.5, 50.25, 70.75} // fractional
    };
    Ref ref;
    ref.zonePct = mc::pick(zp, "zone percent");
    int si = mc::choose(sp.size(), "sensor percents");
    auto s = sp[si];
    bool tuning = mc::choose(2, "tuning");
    wd.dbus("T1", "temp", 20);
    wd.dbus("T2", "temp", 0);
    wd.fan("F1", 1000);
    wd.fan("F2", 2000);
    wd.zone(0, 0, ref.zonePct);
    wd.loop(0, "a_loop", "temp", {"T1"}, directThermal(), 0, s[0]);
    wd.loop(0, "b_loop", "temp", {"T1", "T2"}, directThermal(), 0, s[2]);
    wd.stepwise(0, "c_loop", {"T1"}, {0, 1000}, {0, 0}).failSafePercent = s[1];
    double fanPct = si == 3 ? 70.25 : 0;
    wd.loop(0, "d_fan", "fan", {"F1"}, directFan(), 0, fanPct);
    wd.loop(0, "e_fan", "fan", {"F2"}, directFan());
    ref.pct["T1"] = std::max({s[0], s[1], s[2]});
    ref.pct["T2"] = s[2];
    ref.pct["F1"] = fanPct;
    wd.build();
    tuningEnabled = tuning;
    wd.start();
    // start: every fan input is counted until its first good reading
    std::map<std::string, bool> env{
        {"T1", false}, {"T2", false}, {"F1", false}, {"F2", false}};
    double target = 20;
    int64_t t = 0;
    wd.runUntil(t += 150 * vt::ms);
    for (auto& [n, f] : env)
        ref.failed[n] = f;
    for (auto f : {"F1", "F2"})
        expectFan(wd, f, ref.duty(target, tuning), ref, target);
    int depth = mc::thorough() ? 5 : 4;
    for (int step = 0; step < depth; ++step)
    {
        int e = mc::choose(9, "event");
        mc::op();
        static const char* nm[] = {"T1", "T2", "F1", "F2"};
        double t1 = 20;
        if (e >= 1 && e <= 4)
        {
            auto& f = env[nm[e - 1]];
            f = !f;
            wd.functional(nm[e - 1], !f);
        }
        else if (e == 5)
            t1 = ref.zonePct + 5; // just above the zone's failsafe duty
        else if (e == 6)
            t1 = 95;
        else if (e == 7)
            t1 = 0; // nothing asks for any duty
        else if (e == 8)
        {
            // set by hand for a while: the floor is back at once
            wd.manual(0, true);
            for (auto f : {"F1", "F2"})
                wd.handSet(f, 3000);
            wd.runUntil(t += 100 * vt::ms);
            wd.manual(0, false);
            wd.runUntil(t += 100 * vt::ms);
            for (auto f : {"F1", "F2"})
                expectFan(wd, f, ref.duty(target, tuning), ref, target);
            mc::cover(ref.any() ? "back from manual in failsafe" : "normal");
        }
        wd.value("T1", t1);
        target = t1;
        // the next fan cycle sees fans at once, thermals at the next evaluation
        int64_t nextTherm = 1150 * vt::ms;
        wd.runUntil(t += 100 * vt::ms);
        ref.failed["F1"] = env["F1"];
        ref.failed["F2"] = env["F2"];
        wd.runUntil(t += nextTherm);
        for (auto& [n, f] : env)
            ref.failed[n] = f;
        if (ref.any())
            mc::cover("failsafe");
        else
            mc::cover("normal");
        if (ref.any() && target > ref.floor())
            mc::cover("computed above floor");
        for (auto f : {"F1", "F2"})
            expectFan(wd, f, ref.duty(target, tuning), ref, target);
        uint64_t h = mc::hashD(target, si);
        for (auto& [n, f] : env)
            h = mc::mix(h, f);
        mc::state(mc::mix(h, (uint64_t)(ref.zonePct * 8) * 2 + tuning));
        mc::outcome(mc::mix(wd.target("F1"), wd.target("F2")));
    }
}
MC_SUITE("histories", histories, 1 << 20, 1 << 20, false,
         {"failsafe", "normal", "computed above floor",
          "back from manual in failsafe"});

// Before any good reading every zone with a fan or a sensor is in failsafe: a
// fan that never reports a good state keeps the floor from the first cycle on.
void startup()
{
    World wd;
    Ref ref;
    ref.zonePct = 45;
    bool bad[3];
    static const char* nm[] = {"T1", "F1", "F2"};
    for (int i = 0; i < 3; ++i)
        bad[i] = mc::choose(2, nm[i]);
    double t1 = mc::pick(std::vector<double>{10, 90, 0}, "hot");
    wd.dbus("T1", "temp", t1);
    wd.fan("F1");
    wd.fan("F2");
    for (int i = 0; i < 3; ++i)
        if (bad[i])
            bk().services[SVC][wd.objPath(nm[i])][iCrit]["CriticalAlarmHigh"] =
                toVal(true);
    wd.zone(7, 0, ref.zonePct);
    wd.loop(7, "t", "temp", {"T1"}, directThermal(), 0, 60);
    wd.loop(7, "f", "fan", {"F1", "F2"}, directFan(), 0, 0);
    ref.pct["T1"] = 60;
    wd.build();
    wd.start();
    for (int i = 0; i < 3; ++i)
        ref.failed[nm[i]] = bad[i];
    for (int c = 1; c <= 25; ++c)
    {
        mc::op();
        wd.runUntil((c * 100 + 50) * vt::ms);
        for (auto f : {"F1", "F2"})
            expectFan(wd, f, ref.duty(t1, false), ref, t1);
    }
    mc::cover(ref.any() ? "failsafe" : "normal");
    mc::state(bad[0] + 2 * bad[1] + 4 * bad[2] + 8 * (t1 > 50));
    mc::outcome(wd.target("F1"));
}
MC_SUITE("startup", startup, 1 << 20, 1 << 20, false, {"failsafe", "normal"});
} // namespace

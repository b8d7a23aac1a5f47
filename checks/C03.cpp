//@technique exhaustive enumeration of bus signal sequences on real D-Bus sensors against a health model
//@level model_checking
//@variant base
//@variant warn UNC_FAILSAFE=1
//@variant missing HANDLE_MISSING_OBJECT_PATHS=1
//@budget 150 600
//@assume the bus is simulated; signals are delivered in the order they are emitted
#include "world.hpp"

using namespace w;

namespace
{
constexpr bool warnOpt = UNC_FAILSAFE;
using TP = std::chrono::high_resolution_clock::time_point;
TP clk()
{
    return std::chrono::high_resolution_clock::now();
}

struct Ref
{
    bool fan = false, margin = false, uaf = true, redundant = false;
    bool bad = false, avail = true, func = true, low = false, high = false,
         warn = false, hot = false;
    bool reading = true; // a reading exists
    double last = 0;
    double min = 0, max = 0;
    TP when;
    bool failed() const
    {
        if (fan && redundant)
            return true;
        if (!fan && !uaf && !avail)
            return false;
        return bad || hot || low || high || (warnOpt && warn) || !avail ||
               !func;
    }
    double scaled() const
    {
        if (max <= 0 || max <= min)
            return last;
        return (last - min) / (max - min);
    }
    void value(double v)
    {
        bad = !std::isfinite(v);
        if (bad)
            return;
        last = v;
        when = clk();
        reading = true;
        hot = margin && v <= 0;
    }
    void available(bool a)
    {
        avail = a;
        if (!a)
        {
            reading = false;
            bad = true;
            hot = false;
        }
    }
    uint64_t hash() const
    {
        return mc::hashD(reading ? last : -99,
                         bad + 2 * avail + 4 * func + 8 * low + 16 * high +
                             32 * warn + 64 * hot + 128 * fan + 256 * margin +
                             512 * uaf + 1024 * redundant);
    }
};

void check(World& wd, const std::string& n, const Ref& r, const char* what)
{
    auto* s = wd.mgr->getSensor(n);
    mc::compare(2);
    bool f = s->getFailed();
    if (f != r.failed())
        mc::fail("after %s: sensor %s failed=%d, expected %d (bad=%d avail=%d "
                 "func=%d low=%d high=%d warn=%d hot=%d fan=%d uaf=%d "
                 "redundant=%d)",
                 what, n.c_str(), f, r.failed(), r.bad, r.avail, r.func, r.low,
                 r.high, r.warn, r.hot, r.fan, r.uaf, r.redundant);
    auto v = s->read();
    if (!r.reading)
    {
        if (std::isfinite(v.value) || std::isfinite(v.unscaled))
            mc::fail("after %s: sensor %s reads %g although it has no reading",
                     what, n.c_str(), v.value);
    }
    else
    {
        if (!mc::near(v.value, r.scaled()) || !mc::near(v.unscaled, r.last))
            mc::fail("after %s: sensor %s reads %.9g (raw %.9g), expected %.9g "
                     "(raw %.9g)",
                     what, n.c_str(), v.value, v.unscaled, r.scaled(), r.last);
        if (v.updated != r.when)
            mc::fail("after %s: sensor %s reading is dated %ld ns off", what,
                     n.c_str(), (long)(v.updated - r.when).count());
    }
    mc::cover(f ? "failed" : "good");
}

struct Kind
{
    const char* type;
    bool uaf;
};
const std::vector<Kind> kinds{{"temp", true},    {"temp", false},
                              {"fan", true},     {"fan", false},
                              {"margin", true},  {"margin", false},
                              {"power", true},   {"powersum", false}};

// names with a common prefix: the neighbour must never be affected
constexpr auto A = "Sens";
constexpr auto B = "Sens1";

struct Scene
{
    World wd;
    Ref a, b;
    bool milli = false; // the bus gives thousandths
    void make(const Kind& k, double v0, double min = 0, double max = 0)
    {
        for (auto n : {A, B})
        {
            auto& c = wd.dbus(n, k.type, n == A ? v0 : 77);
            c.unavailableAsFailed = k.uaf;
        }
        a.fan = b.fan = std::string(k.type) == "fan";
        a.margin = b.margin = std::string(k.type) == "margin";
        a.uaf = b.uaf = k.uaf;
        a.min = min;
        a.max = max;
        if (milli)
        {
            auto& o = bk().services[SVC][wd.objPath(A)][iValue];
            o["Scale"] = toVal<int64_t>(-3);
            o["Value"] = toVal(v0 * 1000);
            wd.busUnit[A] = 1000;
            min *= 1000;
            max *= 1000;
        }
        if (min != 0 || max != 0)
        {
            auto& o = bk().services[SVC][wd.objPath(A)][iValue];
            o["MinValue"] = toVal(min);
            o["MaxValue"] = toVal(max);
        }
        a.bad = !std::isfinite(v0);
        a.last = v0;
        a.reading = std::isfinite(v0);
        a.hot = a.margin && v0 <= 0;
        b.last = 77;
    }
    void build()
    {
        vt::set(3 * vt::sec);
        wd.build();
        a.when = b.when = clk();
    }
    void step()
    {
        vt::advance(137 * vt::ms);
    }
    void warnInit(bool v)
    {
        bk().services[SVC][wd.objPath(A)][iWarn]["WarningAlarmHigh"] =
            toVal(v);
        a.warn = v;
    }
};

const char* alarm2(World& wd, Ref& a, int lo, int hi)
{
    std::map<std::string, simbus::Val> p;
    if (lo >= 0)
    {
        p["CriticalAlarmLow"] = toVal(lo == 1);
        a.low = lo == 1;
    }
    if (hi >= 0)
    {
        p["CriticalAlarmHigh"] = toVal(hi == 1);
        a.high = hi == 1;
    }
    if (wd.company)
    {
        p["AFirst"] = toVal(true);
        p["Zlast"] = toVal(std::string("x"));
    }
    bk().propsChanged(SVC, wd.objPath(A), iCrit, p);
    return "critical alarm change";
}

// every signal, every kind of sensor
void signals()
{
    Scene s;
    auto& k = mc::pick(kinds, "kind");
    bool ranged = mc::choose(2, "declares a range");
    s.milli = mc::choose(2, "thousandths");
    s.wd.company = mc::choose(2, "signals with other properties");
    s.make(k, 40, ranged ? -10 : 0, ranged ? 240 : 0);
    s.build();
    check(s.wd, A, s.a, "start");
    int depth = mc::thorough() ? 4 : 3;
    std::string seq;
    for (int i = 0; i < depth; ++i)
    {
        s.step();
        mc::op();
        auto& a = s.a;
        const char* what = "";
        auto val = [&](double v) {
            a.value(v);
            s.wd.value(A, v);
        };
        switch (mc::choose(19, "signal"))
        {
            case 0: what = "Value=30.5"; val(30.5); break;
            case 1: what = "Value=0"; val(0); break;
            case 2: what = "Value=-5"; val(-5); break;
            case 3: what = "Value=NaN"; val(NaN); break;
            case 4: what = "Value=+inf"; val(INF); break;
            case 5: what = "Value=-inf"; val(-INF); break;
            case 6: what = "Available=false"; a.available(false);
                s.wd.available(A, false); break;
            case 7: what = "Available=true"; a.available(true);
                s.wd.available(A, true); break;
            case 8: what = "Functional=false"; a.func = false;
                s.wd.functional(A, false); break;
            case 9: what = "Functional=true"; a.func = true;
                s.wd.functional(A, true); break;
            case 10: what = alarm2(s.wd, a, -1, 1); break;
            case 11: what = alarm2(s.wd, a, -1, 0); break;
            case 12: what = alarm2(s.wd, a, 1, -1); break;
            case 13: what = alarm2(s.wd, a, 0, -1); break;
            case 14: what = "WarningAlarmHigh=true"; a.warn = true;
                s.wd.change(A, iWarn, "WarningAlarmHigh", toVal(true)); break;
            case 15: what = "WarningAlarmHigh=false"; a.warn = false;
                s.wd.change(A, iWarn, "WarningAlarmHigh", toVal(false)); break;
            case 16: what = "an unrelated property";
                s.wd.change(A, iWarn, "WarningAlarmLow", toVal(true));
                s.wd.change(A, iOper, "Other", toVal(false));
                s.wd.change(A, iAvail, "Other", toVal(false));
                s.wd.change(A, iValue, "Unit", toVal(std::string("x")));
                break;
            case 17: what = "another sensor";
                s.wd.functional(B, false);
                s.b.func = false;
                break;
            case 18: what = "another sensor";
                s.b.value(78 + i);
                s.wd.value(B, 78 + i);
                break;
        }
        s.step();
        check(s.wd, A, s.a, what);
        check(s.wd, B, s.b, what);
        mc::state(s.a.hash());
    }
    mc::outcome(s.a.hash());
}
MC_SUITE("signals", signals, 1 << 20, 1 << 20, false, {"failed", "good"});

// conditions only: longer sequences, from every initial alarm state
void conditions()
{
    Scene s;
    static const std::vector<Kind> ks{{"temp", true}, {"temp", false},
                                      {"fan", false}, {"margin", true}};
    auto& k = mc::pick(ks, "kind");
    s.make(k, 50);
    s.a.low = mc::choose(2, "initially low");
    s.a.high = mc::choose(2, "initially high");
    auto& o = bk().services[SVC][s.wd.objPath(A)];
    if (warnOpt)
        s.warnInit(mc::choose(2, "initially warning"));
    o[iCrit]["CriticalAlarmLow"] = toVal(s.a.low);
    o[iCrit]["CriticalAlarmHigh"] = toVal(s.a.high);
    s.build();
    check(s.wd, A, s.a, "start");
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        s.step();
        mc::op();
        const char* what = "";
        auto& a = s.a;
        int e = mc::choose(warnOpt ? 12 : 10, "signal");
        switch (e)
        {
            case 0: what = alarm2(s.wd, a, -1, 1); break;
            case 1: what = alarm2(s.wd, a, -1, 0); break;
            case 2: what = alarm2(s.wd, a, 1, -1); break;
            case 3: what = alarm2(s.wd, a, 0, -1); break;
            case 4: what = alarm2(s.wd, a, 0, 1); break;
            case 5: what = alarm2(s.wd, a, 1, 0); break;
            case 6: what = alarm2(s.wd, a, 0, 0); break;
            case 7: what = "Functional toggles"; a.func = !a.func;
                s.wd.functional(A, a.func); break;
            case 8: what = "Available toggles"; a.available(!a.avail);
                s.wd.available(A, a.avail); break;
            case 9: what = "a value"; a.value(i + 1);
                s.wd.value(A, i + 1); break;
            case 10: what = "warning on"; a.warn = true;
                s.wd.change(A, iWarn, "WarningAlarmHigh", toVal(true)); break;
            case 11: what = "warning off"; a.warn = false;
                s.wd.change(A, iWarn, "WarningAlarmHigh", toVal(false)); break;
        }
        check(s.wd, A, s.a, what);
        check(s.wd, B, s.b, what);
        mc::state(s.a.hash());
    }
    mc::outcome(s.a.hash());
}
MC_SUITE("conditions", conditions, 1 << 20, 1 << 20, false,
         {"failed", "good"});

// every initial state the bus can present
void initial()
{
    Scene s;
    auto& k = mc::pick(kinds, "kind");
    static const std::vector<double> vals{25.25, 0, -3, NaN, INF};
    double v = mc::pick(vals, "initial value");
    static const std::vector<std::pair<double, double>> ranges{
        {0, 0}, {0, 200}, {-50, 50}, {100, 100}, {20, 10}, {-20, -10},
        {1000, 11000}};
    auto rg = mc::pick(ranges, "range");
    s.make(k, v, rg.first, rg.second);
    auto& o = bk().services[SVC][s.wd.objPath(A)];
    if (mc::choose(2, "range ignored by configuration"))
    {
        s.wd.sensors[A].ignoreDbusMinMax = true;
        s.a.min = s.a.max = 0;
    }
    int av = mc::choose(3, "availability");
    if (av == 1)
        o.erase(iAvail);
    else if (av == 2)
    {
        o[iAvail]["Available"] = toVal(false);
        s.a.avail = false;
    }
    int al = mc::choose(4, "alarms");
    if (al == 1)
        o.erase(iCrit);
    else
    {
        s.a.low = al == 2;
        s.a.high = al == 3;
        o[iCrit]["CriticalAlarmLow"] = toVal(s.a.low);
        o[iCrit]["CriticalAlarmHigh"] = toVal(s.a.high);
    }
    if (mc::choose(2, "warning"))
        s.warnInit(true);
    s.build();
    check(s.wd, A, s.a, "start");
    check(s.wd, B, s.b, "start");
    mc::op();
    // and everything can get well
    s.a.value(60);
    s.wd.value(A, 60);
    s.a.available(true);
    s.wd.available(A, true);
    alarm2(s.wd, s.a, 0, 0);
    s.a.warn = false;
    s.wd.change(A, iWarn, "WarningAlarmHigh", toVal(false));
    check(s.wd, A, s.a, "recovery");
    mc::state(s.a.hash());
    mc::outcome(s.a.hash());
}
MC_SUITE("initial", initial, 1 << 20, 1 << 20, false, {"failed", "good"});

#if HANDLE_MISSING_OBJECT_PATHS
// a sensor that is not on the bus is built, as failed
void missing()
{
    Scene s;
    auto& k = mc::pick(kinds, "kind");
    s.make(k, 40);
    bk().services[SVC].erase(s.wd.objPath(A));
    s.build();
    for (int i = 0; i < 3; ++i)
    {
        mc::op();
        mc::compare();
        if (!s.wd.mgr->getSensor(A)->getFailed())
            mc::fail("a sensor absent from the bus is not failed");
        check(s.wd, B, s.b, "start");
        int e = mc::choose(2, "event");
        if (e == 1)
        {
            s.b.value(10 + i);
            s.wd.value(B, 10 + i);
        }
        mc::state(mc::mix(s.b.hash(), i));
    }
    mc::outcome(s.b.hash());
}
MC_SUITE("missing", missing);
#endif
} // namespace

//@technique explicit enumeration of sensor histories and instants on the real zone against a membership model
//@level model_checking
//@budget 60 500
//@assume the bus and clock are simulated; zones, loops and sensors are the real ones
//@assume sensors are bus-fed; the ways such a sensor can fail are decided by C03, C20 and C22
#include "world.hpp"

using namespace w;

namespace
{
struct In
{
    std::string name;
    bool fan;
    int64_t timeout = 0;
    bool acceptable = false;
    bool failed = false;     // reported by the sensor now
    int64_t updated = 0;     // time of the last good value
    double value = 0;
    bool counted = false;    // model: member of the failsafe set
    double used = 0;         // model: value the loops used last
};

struct Model
{
    std::vector<In> in;
    void startup()
    {
        for (auto& i : in)
            i.counted = !i.acceptable;
    }
    void evaluate(bool fans, int64_t t)
    {
        for (auto& i : in)
            if (i.fan == fans)
            {
                bool bad = i.failed || (i.timeout && t - i.updated >=
                                                         i.timeout * vt::sec);
                i.counted = bad && !i.acceptable;
                i.used = i.value;
            }
    }
    bool any() const
    {
        for (auto& i : in)
            if (i.counted)
                return true;
        return false;
    }
    In& at(const std::string& n)
    {
        for (auto& i : in)
            if (i.name == n)
                return i;
        abort();
    }
};

void expect(World& wd, Model& m, int64_t zid, const char* when)
{
    mc::compare(2);
    bool got = wd.failsafeProp(zid);
    if (got != m.any())
    {
        std::string s;
        for (auto& i : m.in)
            s += S(" %s(%s%s%s age=%.9fs timeout=%ld)", i.name.c_str(),
                   i.failed ? "failed" : "good", i.acceptable ? ",acceptable" : "",
                   i.counted ? ",counted" : "", (vt::now() - i.updated) / 1e9,
                   (long)i.timeout);
        mc::fail("t=%.9fs %s: FailSafe is %d, expected %d;%s", vt::now() / 1e9,
                 when, got, m.any(), s.c_str());
    }
    mc::cover(got ? "failsafe" : "normal");
}
void expectTarget(World& wd, Model& m, int64_t zid)
{
    double want = 0;
    for (auto& i : m.in)
        if (!i.fan)
            want = std::max(want, i.used);
    mc::compare();
    double got = wd.z(zid)->getMaxSetPointRequest();
    if (!mc::near(got, want))
        mc::fail("t=%.3fs target %.6f but the inputs' last values give %.6f",
                 vt::now() / 1e9, got, want);
}
uint64_t hash(const Model& m)
{
    uint64_t h = 7;
    for (auto& i : m.in)
        h = mc::mix(h, i.failed + 2 * i.counted + 4 * i.acceptable +
                           8 * (uint64_t)((vt::now() - i.updated) / 1000000));
    return h;
}

// Any input may go bad and recover at any step; several at once; any subset is
// acceptable when missing.  Fan cycle 1 s, thermal evaluation every 1 s.
void members()
{
    World wd;
    Model m;
    m.in = {{"Fan1", true}, {"Fan10", true}, {"T1", false}, {"T10", false}};
    for (auto& i : m.in)
        i.acceptable = mc::choose(2, "acceptable");
    static const int64_t zids[] = {0, 3};
    int64_t zid = zids[mc::choose(2, "zone id")];
    double v = 10;
    for (auto& i : m.in)
    {
        i.value = v += 10;
        if (i.fan)
            wd.fan(i.name, i.value);
        else
            wd.dbus(i.name, "temp", i.value);
    }
    wd.zone(zid, 0, 50, 1000, 1000);
    auto ins = [&](const char* l, const char* ty, std::vector<std::string> n) {
        auto& c = wd.loop(zid, l, ty, n,
                          std::string(ty) == "fan" ? directFan()
                                                   : directThermal());
        for (auto& si : c.inputs)
            si.missingIsAcceptable = m.at(si.name).acceptable;
    };
    ins("a", "temp", {"T1", "T10"});
    ins("b", "fan", {"Fan1", "Fan10"});
    wd.build();
    m.startup();
    wd.start();
    m.evaluate(false, 0);
    expect(wd, m, zid, "after start");
    int64_t t = 0;
    wd.runUntil(t += vt::sec);
    m.evaluate(true, t);
    expect(wd, m, zid, "first fan cycle");
    int depth = mc::thorough() ? 4 : 3;
    for (int k = 0; k < depth; ++k)
    {
        int e = mc::choose(8, "event");
        mc::op();
        auto toggle = [&](int x) {
            auto& i = m.in[x];
            i.failed = !i.failed;
            wd.functional(i.name, !i.failed);
        };
        if (e >= 1 && e <= 4)
            toggle(e - 1);
        else if (e == 5) // two change in the same cycle
        {
            toggle(0);
            toggle(2);
        }
        else if (e == 6)
        {
            toggle(2);
            toggle(3);
        }
        else if (e == 7)
        {
            auto& i = m.at("T1");
            i.value += 33;
            i.updated = vt::now();
            wd.value("T1", i.value);
        }
        wd.runUntil(t += vt::sec);
        m.evaluate(true, t);
        m.evaluate(false, t);
        expect(wd, m, zid, "cycle");
        expectTarget(wd, m, zid);
        mc::state(hash(m));
    }
    mc::outcome(hash(m));
}
MC_SUITE("members", members, 1 << 20, 1 << 20, false, {"failsafe", "normal"});

// Timeouts to the microsecond: values arrive 1 us before, at and 1 us after
// evaluation instants; timeouts 1 s and 2 s and none.  Fan cycle 0.5 s; thermal
// evaluations fall on every second fan cycle.
void timeouts()
{
    World wd;
    Model m;
    static const std::vector<std::array<int64_t, 2>> tos{
        {2, 1}, {1, 2}, {0, 2}, {2, 0}};
    auto to = mc::pick(tos, "timeouts");
    m.in = {{"Fan", true, to[0]}, {"Temp", false, to[1]}};
    wd.fan("Fan", 1000, 0, 100000, to[0]);
    wd.dbus("Temp", "temp", 30, to[1]);
    m.in[1].value = 30;
    wd.zone(1, 0, 50, 500, 1000);
    wd.loop(1, "t", "temp", {"Temp"}, directThermal());
    wd.loop(1, "f", "fan", {"Fan"}, directFan());
    wd.build();
    m.startup();
    wd.start();
    m.evaluate(false, 0);
    int who = mc::choose(2, "which input is updated");
    // thermal evaluations: tick k runs one when 500*(k-1-...) >= 1000
    int64_t cnt = 0;
    int steps = mc::thorough() ? 9 : 7;
    for (int k = 1; k <= steps; ++k)
    {
        int64_t tick = k * 500 * vt::ms;
        // what happens around this tick
        int e = mc::choose(4, "arrival");
        mc::op();
        auto upd = [&](int x) {
            auto& i = m.in[x];
            i.updated = vt::now();
            i.value = x ? 31 + k : 1000 + k;
            wd.value(i.name, i.value);
        };
        if (e == 1)
        {
            wd.runUntil(tick - 1000); // timers have microsecond resolution
            upd(who);
        }
        wd.runUntil(tick);
        m.evaluate(true, tick);
        if (cnt >= 1000)
        {
            cnt -= 1000;
            m.evaluate(false, tick);
        }
        cnt += 500;
        expect(wd, m, 1, "cycle");
        mc::state(hash(m));
        if (e == 2)
            upd(who); // exactly at the tick, after the evaluation
        if (e == 3)
        {
            wd.runUntil(tick + 1000);
            upd(who);
        }
    }
    mc::outcome(hash(m));
}
MC_SUITE("timeouts", timeouts, 1 << 20, 1 << 20, false, {"failsafe", "normal"});

// Failure and timeout of the same input overlap in every order; one sensor
// recovers from one cause while the other cause persists.
void overlap()
{
    World wd;
    Model m;
    m.in = {{"F", true, 0}, {"A", false, 1}, {"B", false, 3}};
    wd.fan("F");
    wd.dbus("A", "temp", 20, 1);
    wd.dbus("B", "temp", 25, 3);
    m.in[1].value = 20;
    m.in[2].value = 25;
    bool acc = mc::choose(2, "B acceptable");
    m.in[2].acceptable = acc;
    wd.zone(0, 0, 50, 1000, 1000);
    wd.loop(0, "t", "temp", {"A"}, directThermal());
    auto& c = wd.loop(0, "u", "temp", {"B"}, directThermal());
    c.inputs[0].missingIsAcceptable = acc;
    wd.stepwise(0, "v", {"A", "B"}, {0}, {0});
    wd.loop(0, "f", "fan", {"F"}, directFan());
    wd.build();
    m.startup();
    wd.start();
    m.evaluate(false, 0);
    expect(wd, m, 0, "after start");
    int64_t t = 0;
    wd.runUntil(t += vt::sec);
    m.evaluate(true, t);
    expect(wd, m, 0, "first fan cycle");
    int depth = mc::thorough() ? 6 : 5;
    for (int k = 0; k < depth; ++k)
    {
        int e = mc::choose(6, "event");
        mc::op();
        wd.runUntil(t + 300 * vt::ms);
        auto val = [&](int x) {
            m.in[x].updated = vt::now();
            m.in[x].value = 30 + k + x;
            wd.value(m.in[x].name, m.in[x].value);
        };
        auto tog = [&](int x) {
            m.in[x].failed = !m.in[x].failed;
            wd.functional(m.in[x].name, !m.in[x].failed);
        };
        switch (e)
        {
            case 1: val(1); break;
            case 2: val(2); break;
            case 3: tog(1); break;
            case 4: tog(2); break;
            case 5: val(1); val(2); break;
        }
        wd.runUntil(t += vt::sec);
        m.evaluate(true, t);
        m.evaluate(false, t);
        expect(wd, m, 0, "cycle");
        expectTarget(wd, m, 0);
        mc::state(hash(m));
    }
    mc::outcome(hash(m));
}
MC_SUITE("overlap", overlap, 1 << 20, 1 << 20, false, {"failsafe", "normal"});
} // namespace

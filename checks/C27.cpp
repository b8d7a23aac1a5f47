//@technique exhaustive enumeration of enable/disable histories interleaved with evaluations of two zones against a reference target and published loop state
//@level model_checking
//@budget 70 600
//@assume the switch is judged for set point requests; a stepwise ceiling is not a set point request
#include "world.hpp"

using namespace w;

namespace
{
struct Loop
{
    std::string name, kind;
    double setpoint;
    bool enabled = true;
    double in = 0, out = 0; // of the latest evaluation
    std::string leader;
    std::string profile() const
    {
        auto p = name.find('_');
        return p == std::string::npos ? name : name.substr(p + 1);
    }
};
const char* cls(const std::string& kind)
{
    return kind == "temp"     ? "Temperature"
           : kind == "margin" ? "Margin"
           : kind == "power"  ? "Power"
                              : "PowerSum";
}
const std::vector<double> stR{20, 40, 60}, stO{15, 35, 55};

struct Zone
{
    int64_t id;
    double minimum;
    bool acc;
    std::vector<Loop> loops; // in name order
    double target = 0;       // reference
    double lastTarget() const
    {
        return target;
    }
};

struct Scene
{
    World wd;
    std::map<std::string, double> v; // current readings
    std::vector<Zone> zs;
    bool host = false; // host-supplied sensors can read "not a number"
    void sensor(const std::string& n, const char* type, double x)
    {
        if (host)
            wd.ext(n, type);
        else
            wd.dbus(n, type, x);
        v[n] = x;
    }
    void set(const std::string& n, double x)
    {
        v[n] = x;
        wd.value(n, x);
    }
    void make(bool acc, bool two, uint64_t fanMs, uint64_t thermMs)
    {
        sensor("T1", "temp", 30);
        sensor("T2", "temp", 20);
        sensor("T3", "temp", 1);
        sensor("M1", "margin", 22);
        sensor("M2", "margin", 25);
        sensor("W1", "power", 10);
        sensor("W2", "power", 4);
        zs.push_back({1, 10, acc, {}});
        if (two)
            zs.push_back({10, 5, false, {}});
        for (auto& z : zs)
        {
            wd.fan("F" + std::to_string(z.id));
            wd.zone(z.id, z.minimum, 50, fanMs, thermMs).accumulateSetPoint =
                z.acc;
            wd.loop(z.id, "zz_fan", "fan", {"F" + std::to_string(z.id)},
                    directFan());
            auto add = [&](const char* n, const char* kind,
                           std::vector<std::string> in, double sp) {
                if (std::string(kind) == "stepwise")
                    wd.stepwise(z.id, n, in, stR, stO);
                else
                    wd.loop(z.id, n, kind, in, directThermal(), sp);
                z.loops.push_back({n, kind, sp});
            };
            add("P_a", "temp", {"T1", "T2"}, 3);
            if (z.id == 1)
                add("S_a", "stepwise", {"T1", "T3"}, 0);
            add("m", "margin", {"M1", "M2"}, 0);
            if (z.id == 1)
            {
                add("p", "power", {"W1", "W2"}, -1);
                add("w", "powersum", {"W1", "W2"}, 0);
            }
        }
        wd.build();
        if (host)
            for (auto& [n, x] : v)
                wd.value(n, x);
    }
    // what the published loop interface must show after an evaluation
    void evaluateRef(Zone& z)
    {
        std::map<std::string, double> sum;
        double best = 0;
        for (auto& l : z.loops)
        {
            std::vector<std::string> ins;
            if (l.kind == "temp")
                ins = {"T1", "T2"};
            else if (l.kind == "margin")
                ins = {"M1", "M2"};
            else if (l.kind == "stepwise")
                ins = {"T1", "T3"};
            else
                ins = {"W1", "W2"};
            double x = l.kind == "margin" ? INF : -INF;
            bool any = false;
            if (l.kind == "powersum")
                x = 0;
            l.leader = "";
            for (auto& i : ins)
            {
                double r = v[i];
                if (!std::isfinite(r))
                    continue;
                any = true;
                if (l.kind == "powersum")
                    x += r;
                else if (l.kind == "margin" ? r < x : r > x)
                {
                    x = r;
                    l.leader = i;
                }
            }
            if (!any)
                x = l.setpoint;
            l.in = x;
            if (l.kind == "stepwise")
            {
                l.out = stO[0];
                for (size_t i = 0; i < stR.size(); ++i)
                    if (stR[i] <= x)
                        l.out = stO[i];
            }
            else
                l.out = x - l.setpoint;
            if (!l.enabled)
                continue;
            double& s = sum[z.acc ? l.profile() : l.name];
            s += l.out;
            best = std::max(best, s);
        }
        z.target = std::max(best, z.minimum);
    }
    template <class T>
    T prop(Zone& z, Loop& l, const char* iface, const char* p)
    {
        return bk().clientGetT<T>(FANCTRL, zonePath(z.id) + "/" + l.name, iface,
                                  p);
    }
    void check(const char* when)
    {
        for (auto& z : zs)
        {
            std::string st;
            for (auto& l : z.loops)
                st += S(" %s%s:%g", l.name.c_str(), l.enabled ? "" : "(off)",
                        l.out);
            mc::compare(1);
            double got = wd.z(z.id)->getMaxSetPointRequest();
            if (!mc::near(got, z.target))
                mc::fail("%s: target of zone %d is %g, expected %g (accumulate "
                         "%d;%s)",
                         when, (int)z.id, got, z.target, z.acc, st.c_str());
            for (auto& l : z.loops)
            {
                mc::compare(6);
                bool en = prop<bool>(z, l, iEnable, "Enabled");
                if (en != l.enabled)
                    mc::fail("%s: zone %d loop %s reads back Enabled=%d, last "
                             "set to %d",
                             when, (int)z.id, l.name.c_str(), en, l.enabled);
                if (l.kind == "stepwise")
                    continue;
                double sp = prop<double>(z, l, iThermal, "Setpoint");
                double in = prop<double>(z, l, iThermal, "Input");
                double out = prop<double>(z, l, iThermal, "Output");
                auto ld = prop<std::string>(z, l, iThermal, "Leader");
                auto c = prop<std::string>(z, l, iThermal, "ClassType");
                if (sp != l.setpoint || c != cls(l.kind) ||
                    !mc::near(in, l.in) || !mc::near(out, l.out) ||
                    (!l.leader.empty() && ld != l.leader))
                    mc::fail("%s: zone %d loop %s publishes Setpoint=%g "
                             "ClassType=%s Input=%g Output=%g Leader=%s, "
                             "expected %g %s %g %g %s",
                             when, (int)z.id, l.name.c_str(), sp, c.c_str(), in,
                             out, ld.c_str(), l.setpoint, cls(l.kind), l.in,
                             l.out, l.leader.c_str());
            }
        }
    }
    uint64_t hash()
    {
        uint64_t h = 5;
        for (auto& z : zs)
            for (auto& l : z.loops)
                h = mc::hashD(z.target, mc::hashD(l.out, h * 3 + l.enabled));
        return h;
    }
    void toggle(Zone& z, const std::string& n)
    {
        for (auto& l : z.loops)
            if (l.name == n)
            {
                l.enabled = !l.enabled;
                wd.enable(z.id, n, l.enabled);
                mc::cover(l.enabled ? "enabled" : "disabled");
            }
    }
};

// every sequence of switches and readings, one event before each evaluation
void histories()
{
    Scene s;
    s.make(mc::choose(2, "accumulate"), true, 1000, 1000);
    s.wd.start();
    s.wd.runUntil(vt::sec);
    for (auto& z : s.zs)
        s.evaluateRef(z);
    s.check("after start");
    auto& z = s.zs[0];
    int depth = mc::thorough() ? 5 : 4;
    int64_t t = vt::sec;
    for (int i = 0; i < depth; ++i)
    {
        mc::op();
        switch (mc::choose(13, "event"))
        {
            case 0: break;
            case 1: s.toggle(z, "P_a"); break;
            case 2: s.toggle(z, "S_a"); break;
            case 3: s.toggle(z, "m"); break;
            case 4: s.toggle(z, "w"); break;
            case 5: s.toggle(z, "p"); break;
            case 6: s.toggle(s.zs[1], "P_a"); break;
            case 7: s.toggle(s.zs[1], "m"); break;
            case 8: s.set("T1", s.v["T1"] == 30 ? 61 : 30); break;
            case 9: s.set("M2", s.v["M2"] == 25 ? 0 : 25); break;
            case 10: s.set("W2", s.v["W2"] == 4 ? 44 : 4); break;
            case 11: // off and on again before the evaluation
                s.toggle(z, "m");
                s.toggle(z, "m");
                break;
            case 12: // the same request again
                s.wd.enable(1, "P_a", z.loops[0].enabled);
                s.wd.enable(1, "w", z.loops[4].enabled);
                break;
        }
        s.wd.runUntil(t += vt::sec);
        for (auto& q : s.zs)
            s.evaluateRef(q);
        s.check("after an evaluation");
        mc::state(s.hash());
    }
    mc::outcome(s.hash());
}
MC_SUITE("histories", histories, 1 << 20, 1 << 20, false,
         {"enabled", "disabled"});

// all subsets of disabled loops, with readings that are not numbers
void subsets()
{
    Scene s;
    s.host = true;
    s.make(mc::choose(2, "accumulate"), true, 1000, 1000);
    s.wd.start();
    s.wd.runUntil(vt::sec);
    auto& z = s.zs[0];
    static const std::vector<double> vals{30, NaN, 61, -4}, few{NaN, 61};
    for (int round = 0; round < 2; ++round)
    {
        for (auto& l : z.loops)
            if ((!round || mc::thorough() || l.kind[0] != 'p') &&
                mc::choose(2, "switch"))
                s.toggle(z, l.name);
        s.set("T1", mc::pick(round && !mc::thorough() ? few : vals, "T1"));
        if (mc::choose(2, "T2"))
            s.set("T2", std::isnan(s.v["T2"]) ? 50 : NaN);
        if (round)
            s.set("M1", mc::pick(mc::thorough() ? vals : few, "M1"));
        mc::op();
        s.wd.runUntil((round + 2) * vt::sec);
        for (auto& q : s.zs)
            s.evaluateRef(q);
        if (std::isnan(s.v["T1"]) && std::isnan(s.v["T2"]))
            mc::cover("not a number");
        s.check(round ? "second evaluation" : "first evaluation");
        mc::state(s.hash());
    }
    mc::outcome(s.hash());
}
MC_SUITE("subsets", subsets, 1 << 20, 1 << 20, false,
         {"enabled", "disabled", "not a number"});

// a switch thrown at any fan cycle takes effect at the next evaluation of the
// loops and not before; manual mode postpones evaluations
void schedule()
{
    Scene s;
    s.make(mc::choose(2, "accumulate"), false, 100, 300);
    s.wd.start();
    s.wd.runUntil(50 * vt::ms);
    auto& z = s.zs[0];
    s.evaluateRef(z);
    s.check("after start");
    int events = mc::thorough() ? 3 : 2;
    bool manual = false;
    double beacon = 100;
    int evaluations = 0;
    for (int i = 1; i <= 12; ++i)
    {
        if (events && i < 10)
        {
            int e = mc::choose(6, "event");
            if (e)
                --events;
            switch (e)
            {
                case 1: s.toggle(z, "P_a"); break;
                case 2: s.toggle(z, "S_a"); break;
                case 3: s.toggle(z, "m"); break;
                case 4:
                    s.toggle(z, "P_a");
                    s.toggle(z, "w");
                    break;
                case 5: s.wd.manual(1, manual = !manual); break;
            }
        }
        // readings of the margin inputs tell whether the loops were evaluated
        double before = z.loops[2].in;
        beacon += 1;
        s.set("M1", -beacon);
        s.set("M2", -beacon + 0.5);
        mc::op();
        s.wd.runUntil((50 + 100 * i) * vt::ms);
        double in = s.prop<double>(z, z.loops[2], iThermal, "Input");
        if (in != before)
        {
            ++evaluations;
            if (manual)
                mc::fail("loops are evaluated in manual mode");
            s.evaluateRef(z);
            mc::cover("evaluated");
        }
        else
            mc::cover("not evaluated");
        s.check(in != before ? "cycle with an evaluation"
                             : "cycle without an evaluation");
        mc::state(mc::hashD(s.hash(), i));
    }
    mc::outcome(mc::hashD(z.target, evaluations));
}
MC_SUITE("schedule", schedule, 1 << 20, 1 << 20, false,
         {"enabled", "disabled", "evaluated", "not evaluated"});

// one loop switched off: the others, and the next start, are not affected
void restart()
{
    Scene* s = new Scene;
    std::unique_ptr<Scene> hold(s);
    s->make(mc::choose(2, "accumulate"), true, 1000, 1000);
    s->wd.start();
    s->wd.runUntil(vt::sec);
    for (auto& l : s->zs[0].loops)
        if (mc::choose(2, "switch"))
            s->toggle(s->zs[0], l.name);
    for (int i = 0; i < 3; ++i)
    {
        mc::op();
        s->wd.runUntil((2 + i) * vt::sec);
        for (auto& q : s->zs)
            s->evaluateRef(q);
        s->check("evaluation");
        if (i == 1)
            for (auto& l : s->zs[0].loops)
                if (!l.enabled)
                    s->toggle(s->zs[0], l.name);
    }
    mc::state(s->hash());
    mc::outcome(s->hash());
}
MC_SUITE("restart", restart, 1 << 20, 1 << 20, false, {"enabled", "disabled"});
} // namespace

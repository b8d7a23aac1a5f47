//@technique exhaustive enumeration of input readings over consecutive evaluations of real thermal loops against a reference input choice
//@level model_checking
//@budget 60 500
//@assume all readings are finite or NaN/infinite; the leader of a sum is not specified
#include "world.hpp"

using namespace w;

namespace
{
struct In
{
    std::string sensor;
    bool conv = false;
    double zero = 0;
};
struct Lp
{
    std::string name, type;
    double setpoint;
    std::vector<In> in;
};
// A loop whose output is its input + 1000, whatever its set point.
ec::pidinfo reveal()
{
    ec::pidinfo p;
    p.ts = 1;
    p.proportionalCoeff = -1;
    p.feedFwdGain = 1;
    p.feedFwdOffset = 1000;
    p.outLim = {-1e6, 1e6};
    return p;
}
struct Expect
{
    double input;
    std::set<std::string> leaders; // empty: unspecified
    bool any;
};
Expect reference(const Lp& l, const std::map<std::string, double>& now)
{
    Expect e{l.setpoint, {}, false};
    std::vector<std::pair<std::string, double>> ok;
    for (auto& i : l.in)
    {
        double v = now.at(i.sensor);
        if (!std::isfinite(v))
            continue;
        if (l.type == "margin" && i.conv)
            v = i.zero - v;
        ok.push_back({i.sensor, v});
    }
    if (ok.empty())
        return e;
    e.any = true;
    if (l.type == "powersum")
    {
        e.input = 0;
        for (auto& [n, v] : ok)
            e.input += v;
        return e;
    }
    e.input = ok[0].second;
    for (auto& [n, v] : ok)
        e.input = l.type == "margin" ? std::min(e.input, v)
                                     : std::max(e.input, v);
    for (auto& [n, v] : ok)
        if (v == e.input)
            e.leaders.insert(n);
    return e;
}
struct Scene
{
    World wd;
    std::vector<Lp> loops;
    std::map<std::string, double> now;
    int64_t t = 0;
    const int64_t zid = 4;
    void make(const std::vector<std::string>& sensors)
    {
        wd.fan("Fan");
        wd.zone(zid, 0, 50, 1000, 1000);
        for (auto& s : sensors)
        {
            wd.ext(s, "temp");
            now[s] = 0;
        }
        for (auto& l : loops)
        {
            std::vector<std::string> names;
            for (auto& i : l.in)
                names.push_back(i.sensor);
            auto& c = wd.loop(zid, l.name, l.type, names, reveal(), l.setpoint);
            for (size_t k = 0; k < l.in.size(); ++k)
                if (l.in[k].conv)
                {
                    c.inputs[k].convertTempToMargin = true;
                    c.inputs[k].convertMarginZero = l.in[k].zero;
                }
        }
        wd.loop(zid, "zz_fan", "fan", {"Fan"}, directFan());
        wd.build();
        wd.start();
        wd.runUntil(t = vt::sec);
    }
    void set(const std::string& s, double v)
    {
        now[s] = v;
        wd.value(s, v);
    }
    std::string show(const Lp& l)
    {
        std::string o;
        for (auto& i : l.in)
            o += S(" %s=%g%s", i.sensor.c_str(), now[i.sensor],
                   i.conv ? S("(limit %g)", i.zero).c_str() : "");
        return o;
    }
    void evaluate(const char* where)
    {
        wd.runUntil(t += vt::sec);
        double most = 0;
        for (auto& l : loops)
        {
            Expect e = reference(l, now);
            auto path = zonePath(zid) + "/" + l.name;
            double out =
                bk().clientGetT<double>(FANCTRL, path, iThermal, "Output");
            mc::compare(2);
            if (!mc::near(out, e.input + 1000))
                mc::fail("%s: %s loop '%s' (set point %g) used input %g, "
                         "expected %g;%s",
                         where, l.type.c_str(), l.name.c_str(), l.setpoint,
                         out - 1000, e.input, show(l).c_str());
            most = std::max(most, e.input + 1000);
            auto sp =
                bk().clientGetT<double>(FANCTRL, path, iThermal, "Setpoint");
            if (sp != l.setpoint)
                mc::fail("%s: loop '%s' publishes set point %g, configured %g",
                         where, l.name.c_str(), sp, l.setpoint);
            auto lead =
                bk().clientGetT<std::string>(FANCTRL, path, iThermal, "Leader");
            if (!e.leaders.empty() && !e.leaders.count(lead))
                mc::fail("%s: %s loop '%s' publishes leader '%s', expected "
                         "'%s';%s",
                         where, l.type.c_str(), l.name.c_str(), lead.c_str(),
                         e.leaders.begin()->c_str(), show(l).c_str());
            mc::cover(!e.any ? "no number" : l.type.c_str());
            mc::outcome(mc::hashD(e.input, mc::hashS(lead, 3)));
        }
        // and that input is what counts for the zone
        double tgt = wd.z(zid)->getMaxSetPointRequest();
        if (!mc::near(tgt, most))
            mc::fail("%s: the zone's target is %g, expected %g", where, tgt,
                     most);
        uint64_t h = 1;
        for (auto& [n, v] : now)
            h = mc::hashD(v, h);
        mc::state(h);
    }
};

const std::vector<double> vals{45, NaN, 30.2, -12, 0, INF, 45.3, -INF};

// one loop, 1..4 inputs, every combination of readings in two evaluations
void inputs()
{
    Scene s;
    static const std::vector<std::string> types{"temp", "margin", "power",
                                                "powersum"};
    Lp l;
    l.name = "loop";
    l.type = mc::pick(types, "type");
    l.setpoint = mc::choose(2, "set point") ? -7 : 33;
    int n = 1 + mc::choose(4, "inputs");
    static const std::vector<std::string> names{"cpu1", "cpu10", "cpu", "a"};
    std::vector<std::string> used(names.begin(), names.begin() + n);
    for (auto& u : used)
        l.in.push_back({u});
    s.loops.push_back(l);
    s.make(used);
    int k = n <= 2 ? 8 : n == 3 ? 6 : 4;
    if (mc::thorough())
        k = n <= 3 ? 8 : 6;
    for (auto& u : used)
        s.set(u, vals[mc::choose(k, "reading")]);
    mc::op();
    s.evaluate("first evaluation");
    // then every combination of a smaller set: nothing may be remembered
    for (auto& u : used)
        s.set(u, vals[mc::choose(n <= 2 ? 5 : 2, "reading")]);
    mc::op();
    s.evaluate("second evaluation");
}
MC_SUITE("inputs", inputs, 1 << 20, 1 << 20, false,
         {"temp", "margin", "power", "powersum", "no number"});

// margins derived from temperatures, each with its own limit or none
void margins()
{
    Scene s;
    Lp l;
    l.name = "m";
    l.type = "margin";
    l.setpoint = 10;
    int n = 1 + mc::choose(3, "inputs");
    static const std::vector<std::string> names{"t2", "t", "t20"};
    for (int i = 0; i < n; ++i)
    {
        int c = mc::choose(4, "limit");
        l.in.push_back({names[i], c != 0, c == 1 ? 90. : c == 2 ? 60.5 : 0.});
    }
    s.loops.push_back(l);
    // another loop looks at the same sensors without conversion
    Lp h{"h", "temp", 5, {}};
    for (auto& i : l.in)
        h.in.push_back({i.sensor});
    s.loops.push_back(h);
    s.make({names.begin(), names.begin() + n});
    static const std::vector<double> v{30.3, 59.1, NaN, 95, -5};
    int depth = mc::thorough() ? 2 : 1;
    for (int d = 0; d <= depth; ++d)
    {
        for (int i = 0; i < n; ++i)
            s.set(names[i], d < depth ? mc::pick(v, "reading")
                                      : (mc::choose(2, "reading") ? 20 : 88));
        mc::op();
        s.evaluate("evaluation");
    }
}
MC_SUITE("margins", margins, 1 << 20, 1 << 20, false,
         {"margin", "temp", "no number"});

// several loops of different types over overlapping sensors, histories of
// single changes; loops never see each other's conversion, limit or set point
void shared()
{
    Scene s;
    s.loops = {{"A", "temp", 40, {{"x"}, {"y"}}},
               {"B", "margin", 12, {{"x", true, 80}, {"z"}}},
               {"C", "margin", 3, {{"y", true, 0}, {"x", true, 70}}},
               {"D", "powersum", 100, {{"z"}, {"y"}, {"x"}}},
               {"E", "power", -2, {{"z"}}}};
    s.make({"x", "y", "z"});
    static const std::vector<double> v{20.2, NaN, 64, -3};
    int depth = mc::thorough() ? 6 : 4;
    for (int d = 0; d < depth; ++d)
    {
        int k = mc::choose(13, "change");
        mc::op();
        if (k)
            s.set(k <= 4 ? "x" : k <= 8 ? "y" : "z", v[(k - 1) % 4]);
        s.evaluate("evaluation");
    }
}
MC_SUITE("shared", shared, 1 << 20, 1 << 20, false,
         {"margin", "temp", "powersum", "no number"});
} // namespace

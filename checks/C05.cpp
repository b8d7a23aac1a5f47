//@technique exhaustive enumeration of thermal requests over consecutive evaluations against a reference target
//@level model_checking
//@budget 60 500
//@assume accumulated requests are non-negative
#include "world.hpp"

using namespace w;

namespace
{
struct L
{
    std::string name;
    bool ceiling;
    double v;      // request of the coming evaluation
    bool enabled = true;
};
std::string profileOf(const std::string& n)
{
    auto p = n.find('_');
    return p == std::string::npos ? n : n.substr(p + 1);
}

struct Result
{
    double target = 0;
    std::set<std::string> leaders; // acceptable names in the leader string
    std::string kind;              // "loop", "Ceiling", "Minimum"
};
// loops in the order the zone evaluates them (by name)
Result reference(const std::vector<L>& loops, double minimum, bool acc)
{
    std::map<std::string, double> sum;
    double best = 0;
    std::string lead;
    for (auto& l : loops)
    {
        if (l.ceiling || !l.enabled)
            continue;
        auto key = acc ? profileOf(l.name) : l.name;
        double& s = sum[key];
        s = acc ? s + l.v : std::max(s, l.v);
        if (s > best)
        {
            best = s;
            lead = key;
        }
    }
    Result r;
    r.kind = "loop";
    double ceil = INF;
    for (auto& l : loops)
        if (l.ceiling)
            ceil = std::min(ceil, l.v);
    if (ceil < best)
    {
        best = ceil;
        r.kind = "Ceiling";
    }
    if (minimum >= best)
    {
        best = minimum;
        r.kind = "Minimum";
    }
    r.target = best;
    if (r.kind == "loop")
        for (auto& l : loops)
            if (acc ? profileOf(l.name) == lead : l.name == lead)
                r.leaders.insert(l.name);
    return r;
}
void compareAll(World& wd, int64_t zid, const std::vector<L>& loops,
                double minimum, bool acc, const char* where)
{
    Result r = reference(loops, minimum, acc);
    mc::compare(2);
    std::string in;
    for (auto& l : loops)
        in += S(" %s%s%s=%g", l.name.c_str(), l.ceiling ? "(ceiling)" : "",
                l.enabled ? "" : "(disabled)", l.v);
    double got = wd.z(zid)->getMaxSetPointRequest();
    if (!mc::near(got, r.target))
        mc::fail("%s: target is %g, expected %g (minimum %g, acc %d;%s)", where,
                 got, r.target, minimum, acc, in.c_str());
    std::string lead = wd.leaderProp(zid);
    bool ok;
    if (r.kind != "loop")
        ok = lead == r.kind;
    else if (!acc)
        ok = lead == *r.leaders.begin();
    else
    {
        // every loop of the profile, and no other loop, is named; or the
        // profile is
        std::set<std::string> named;
        size_t p = 0;
        for (;;)
        {
            auto q = lead.find(" + ", p);
            named.insert(lead.substr(p, q == std::string::npos ? q : q - p));
            if (q == std::string::npos)
                break;
            p = q + 3;
        }
        std::set<std::string> en;
        for (auto& l : loops)
            if (r.leaders.count(l.name) && l.enabled && !l.ceiling)
                en.insert(l.name);
        ok = lead == profileOf(*r.leaders.begin()) || named == r.leaders ||
             named == en;
    }
    if (!ok)
        mc::fail("%s: leader is '%s', expected %s '%s' (minimum %g, acc %d;%s)",
                 where, lead.c_str(), r.kind.c_str(),
                 r.leaders.empty() ? "" : r.leaders.begin()->c_str(), minimum,
                 acc, in.c_str());
    mc::cover(r.kind.c_str());
}

// Each loop's request is dictated through its own sensor: a direct loop
// requests its reading, a ceiling table returns one of its points.
const std::vector<double> ceilR{0, 10, 20, 30, 40}, ceilO{40, 28, 0, -7, 90};
double ceilRaw(int i)
{
    return i * 10 + 5;
}

struct Scene
{
    World wd;
    std::vector<L> loops;
    int64_t zid = 2;
    double minimum = 0;
    bool acc = false;
    int64_t t = 0;
    void make(const std::vector<std::pair<std::string, char>>& names)
    {
        wd.fan("Fan");
        wd.zone(zid, minimum, 50, 1000, 1000).accumulateSetPoint = acc;
        for (auto& [n, k] : names)
        {
            loops.push_back({n, k == 'c', 0});
            wd.dbus("S_" + n, k == 'p' ? "power" : "temp", 0);
            if (k == 'c')
                wd.stepwise(zid, n, {"S_" + n}, ceilR, ceilO, true);
            else if (k == 's')
                wd.stepwise(zid, n, {"S_" + n}, {-100, 0.5, 15, 25, 35, 50},
                            {-5, 0, 20, 30, 45, 62});
            else
                wd.loop(zid, n, k == 'p' ? "power" : "temp", {"S_" + n},
                        directThermal());
        }
        std::sort(loops.begin(), loops.end(),
                  [](auto& a, auto& b) { return a.name < b.name; });
        wd.loop(zid, "zz_fan", "fan", {"Fan"}, directFan());
        wd.build();
    }
    void request(const std::string& n, char kind, double v)
    {
        for (auto& l : loops)
            if (l.name == n)
                l.v = v;
        double raw = v;
        if (kind == 's')
            raw = v == -5 ? -50 : v == 0 ? 1 : v == 20 ? 16 : v == 30 ? 26
                  : v == 45 ? 36 : 55;
        if (kind == 'c')
            for (size_t i = 0; i < ceilO.size(); ++i)
                if (ceilO[i] == v)
                    raw = ceilRaw(i);
        wd.value("S_" + n, raw);
    }
    // let one thermal evaluation happen
    void evaluate(const char* where)
    {
        wd.runUntil(t += vt::sec);
        compareAll(wd, zid, loops, minimum, acc, where);
    }
};

const std::vector<double> reqs{30, 20, 45, 0, -5, 62};

void requests()
{
    Scene s;
    static const std::vector<double> mins{0, 25, 30, 62};
    s.minimum = mc::pick(mins, "minimum");
    std::vector<std::pair<std::string, char>> names{
        {"a", 't'}, {"b", 's'}, {"c", 'p'}};
    int nc = mc::choose(3, "ceilings");
    if (nc > 0)
        names.push_back({"aa_ceil", 'c'});
    if (nc > 1)
        names.push_back({"zceil", 'c'});
    s.make(names);
    s.wd.start();
    s.t = 0;
    s.wd.runUntil(s.t += 1 * vt::sec); // first thermal repeat at 2 s
    int depth = 2;
    for (int i = 0; i < depth; ++i)
    {
        for (auto& [n, k] : names)
        {
            if (k == 'c')
                s.request(n, k, mc::pick(ceilO, "ceiling"));
            else if (i == 0 || mc::thorough())
                s.request(n, k, mc::pick(reqs, "request"));
            else // second evaluation: stale requests must not survive
                s.request(n, k, mc::choose(2, "request") ? 20 : -5);
        }
        mc::op();
        s.evaluate(i ? "second evaluation" : "first evaluation");
        mc::state(mc::hashD(s.wd.z(s.zid)->getMaxSetPointRequest(),
                            mc::hashS(s.wd.leaderProp(s.zid), i)));
        if (nc == 2 && !mc::thorough())
            break;
    }
    mc::outcome(mc::hashD(s.wd.z(s.zid)->getMaxSetPointRequest(), 1));
}
MC_SUITE("requests", requests, 1 << 20, 1 << 20, false,
         {"loop", "Ceiling", "Minimum"});

void accumulate()
{
    Scene s;
    s.acc = true;
    static const std::vector<double> mins{0, 50, 75};
    s.minimum = mc::pick(mins, "minimum");
    // profiles CPU, Ax_CPU and an unprefixed one
    std::vector<std::pair<std::string, char>> names{{"Linear_CPU", 't'},
                                                    {"Step_CPU", 's'},
                                                    {"Linear_Ax_CPU", 't'},
                                                    {"DIMM", 'p'}};
    if (mc::choose(2, "ceiling"))
        names.push_back({"X_ceil", 'c'});
    s.make(names);
    s.wd.start();
    s.wd.runUntil(s.t += vt::sec);
    static const std::vector<double> rq{30, 20, 45, 0};
    for (int i = 0; i < (mc::thorough() ? 3 : 2); ++i)
    {
        for (auto& [n, k] : names)
        {
            if (k == 'c')
                s.request(n, k, mc::choose(2, "ceiling") ? 90 : 28);
            else if (i == 0)
                s.request(n, k, mc::pick(rq, "request"));
            else
                s.request(n, k, mc::choose(2, "request") ? 20 : 0);
        }
        mc::op();
        s.evaluate(i ? "later evaluation" : "first evaluation");
        mc::state(mc::hashD(s.wd.z(s.zid)->getMaxSetPointRequest(),
                            mc::hashS(s.wd.leaderProp(s.zid), i)));
    }
    mc::outcome(mc::hashD(s.wd.z(s.zid)->getMaxSetPointRequest(), 1));
}
MC_SUITE("accumulate", accumulate, 1 << 20, 1 << 20, false,
         {"loop", "Ceiling", "Minimum"});

// loops disabled and enabled while requests change, over longer histories
void histories()
{
    Scene s;
    s.acc = mc::choose(2, "accumulate");
    s.minimum = 10;
    std::vector<std::pair<std::string, char>> names{
        {"p_x", 't'}, {"q_x", 't'}, {"r_y", 's'}, {"t_ceil", 'c'}};
    s.make(names);
    s.wd.start();
    s.wd.runUntil(s.t += vt::sec);
    for (auto& [n, k] : names)
        s.request(n, k, k == 'c' ? 90 : 20);
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        mc::op();
        auto tog = [&](int k) {
            for (auto& l : s.loops)
                if (l.name == names[k].first)
                {
                    l.enabled = !l.enabled;
                    s.wd.enable(s.zid, l.name, l.enabled);
                }
        };
        switch (mc::choose(9, "event"))
        {
            case 1: tog(0); break;
            case 2: tog(1); break;
            case 3: tog(2); break;
            case 4: s.request("p_x", 't', 45); break;
            case 5: s.request("p_x", 't', 0); break;
            case 6: s.request("q_x", 't', 33); break;
            case 7: s.request("r_y", 's', 62); break;
            case 8: s.request("t_ceil", 'c', 28); break;
        }
        s.evaluate("evaluation");
        uint64_t h = mc::hashD(s.wd.z(s.zid)->getMaxSetPointRequest(), s.acc);
        for (auto& l : s.loops)
            h = mc::hashD(l.v, h + l.enabled);
        mc::state(h);
        mc::outcome(mc::hashD(s.wd.z(s.zid)->getMaxSetPointRequest(), 1));
    }
}
MC_SUITE("histories", histories, 1 << 20, 1 << 20, false,
         {"loop", "Ceiling", "Minimum"});
} // namespace

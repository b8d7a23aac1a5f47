//@technique exhaustive enumeration of failure-message histories of several zones against a reference logger, and of sensor failure histories of running zones
//@level model_checking
//@budget 75 600
//@assume locations and reasons hold no line break
#include "world.hpp"

#include <sstream>

using namespace w;

namespace
{
// everything the program prints while it lives
struct Capture
{
    std::ostringstream o;
    std::streambuf* old;
    Capture() : old(std::cerr.rdbuf(o.rdbuf())) {}
    ~Capture()
    {
        std::cerr.rdbuf(old);
    }
    struct Line
    {
        int64_t zone;
        bool leaves;
        std::string rest; // where and why
    };
    std::vector<Line> take()
    {
        std::vector<Line> out;
        std::istringstream in(o.str());
        o.str("");
        std::string l;
        while (std::getline(in, l))
        {
            bool lv = l.find("leaves failsafe mode") != std::string::npos;
            bool is = l.find("is in failsafe mode") != std::string::npos;
            auto q = l.find('`');
            if ((!lv && !is) || q == std::string::npos)
                continue;
            auto at = l.find("update at");
            if (at == std::string::npos)
                mc::fail("unexpected message: %s", l.c_str());
            out.push_back({atol(l.c_str() + q + 1), lv, l.substr(at)});
        }
        return out;
    }
};

struct Ref
{
    size_t budget;
    bool state = false;
    std::set<std::string> known;
    std::deque<int64_t> times;
    // 0 nothing is printed, 1 "is in", 2 "leaves"
    int submit(int64_t ms, bool s, const std::string& what)
    {
        std::erase_if(times, [&](int64_t t) { return ms - t >= 1000; });
        bool was = state;
        if (s != state)
        {
            known.clear();
            state = s;
        }
        if (times.size() >= budget || known.count(what))
            return 0;
        known.insert(what);
        times.push_back(ms);
        return s ? 1 : was ? 2 : 0;
    }
    uint64_t hash(int64_t now) const
    {
        uint64_t h = state + budget * 2;
        for (auto& k : known)
            h = mc::hashS(k, h);
        for (auto t : times)
            h = mc::mix(h, now - t);
        return h;
    }
};
struct Text
{
    std::string where, why;
};
const std::vector<Text>& texts()
{
    static const std::vector<Text> t{
        {"temp1", "broken"}, {"temp1", "late"}, {"temp10", "broken"}};
    return t;
}

struct Bench
{
    Capture cap;
    std::map<int64_t, Ref> ref;
    Bench(std::vector<std::pair<int64_t, size_t>> zs)
    {
        bk().nowNs = [] { return vt::now(); };
        vt::set(5 * vt::sec);
        zoneIdToFailsafeLogger.clear();
        sensorNameToZoneId.clear();
        for (auto& [z, n] : zs)
        {
            zoneIdToFailsafeLogger[z] = std::make_shared<FailsafeLogger>(n);
            ref[z].budget = n;
        }
    }
    int64_t ms()
    {
        return vt::now() / vt::ms;
    }
    void expect(std::map<int64_t, int> want, const Text& t)
    {
        auto got = cap.take();
        mc::compare(1 + got.size());
        for (auto& g : got)
        {
            auto it = want.find(g.zone);
            if (it == want.end() || it->second == 0)
                mc::fail("zone %ld: '%s' was printed", (long)g.zone,
                         g.rest.c_str());
            if ((it->second == 2) != g.leaves)
                mc::fail("zone %ld: '%s' printed as %s failsafe", (long)g.zone,
                         g.rest.c_str(), g.leaves ? "leaving" : "being in");
            auto p = g.rest.find(t.where), q = g.rest.find(t.why);
            if (p == std::string::npos || q == std::string::npos ||
                isdigit(g.rest[p + t.where.size()]))
                mc::fail("zone %ld: printed '%s' for %s, %s", (long)g.zone,
                         g.rest.c_str(), t.where.c_str(), t.why.c_str());
            mc::cover(g.leaves ? "leaves" : "is in");
            it->second = 0;
        }
        for (auto& [z, w] : want)
            if (w)
                mc::fail("zone %ld: %s, %s was not printed", (long)z,
                         t.where.c_str(), t.why.c_str());
    }
    void zone(int64_t z, bool s, const Text& t)
    {
        mc::op();
        std::map<int64_t, int> want;
        auto known = ref[z].known.count(t.where + "|" + t.why);
        want[z] = ref[z].submit(ms(), s, t.where + "|" + t.why);
        if (known && !want[z])
            mc::cover("known");
        else if (s && !want[z])
            mc::cover("too many");
        outputFailsafeLogWithZone(z, s, t.where, t.why);
        expect(want, t);
    }
    void sensor(const std::string& id, const std::vector<int64_t>& zs,
                const Text& t)
    {
        mc::op();
        std::map<int64_t, int> want;
        for (auto z : zs)
            want[z] = ref[z].submit(ms(), ref[z].state, t.where + "|" + t.why);
        outputFailsafeLogWithSensor(id, true, t.where, t.why);
        expect(want, t);
    }
    uint64_t hash()
    {
        uint64_t h = 1;
        for (auto& [z, r] : ref)
            h = mc::mix(h, r.hash(ms()));
        return h;
    }
};

void history()
{
    size_t n = 1 + mc::choose(3, "budget");
    Bench b({{1, n}, {10, n}});
    static const std::vector<int> gaps{0, 400, 600, 1000};
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        vt::advance(mc::pick(gaps, "gap") * vt::ms);
        int64_t z = mc::choose(2, "zone") ? 10 : 1;
        bool s = !mc::choose(2, "state");
        b.zone(z, s, texts()[mc::choose(2, "text")]);
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("history", history, 1 << 20, 1 << 20, false,
         {"leaves", "is in", "known", "too many"});

void instants()
{
    size_t n = mc::choose(5, "budget");
    Bench b({{-3, n}});
    static const std::vector<int> gaps{0, 1, 998, 999, 1000, 1001, 3600000};
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        vt::advance(mc::pick(gaps, "gap") * vt::ms);
        b.zone(-3, i < 2 || !mc::choose(2, "state"),
               texts()[mc::choose(3, "text")]);
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("instants", instants, 1 << 20, 1 << 20, false,
         {"is in", "known", "too many"});

// many messages: the configured number and no more
void flood()
{
    size_t n = std::vector<size_t>{1, 5, 20}[mc::choose(3, "budget")];
    Bench b({{1, n}, {2, n}});
    int count = 60;
    static const std::vector<int> gaps{10, 45, 100};
    int gap = mc::pick(gaps, "gap");
    for (int i = 0; i < count; ++i)
    {
        vt::advance(gap * vt::ms);
        int odd = mc::chooseDev(4, "what");
        Text t{S("sensor%d", odd == 3 ? 0 : i), "broken"};
        b.zone(odd == 1 ? 2 : 1, odd != 2, t);
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("flood", flood, 2, 3, false, {"is in", "too many"});

// sensors of several zones
void sensors()
{
    World wd;
    struct Z
    {
        int64_t id;
        std::vector<std::string> in;
    };
    static const std::vector<std::vector<Z>> tops{
        {{0, {"A", "B"}}, {1, {"B", "C"}}, {2, {"D"}}},
        {{3, {"A", "B", "C"}}, {30, {"A", "B", "C"}}, {300, {"A"}}},
    };
    auto& top = mc::pick(tops, "zones");
    for (auto n : {"A", "B", "C", "D"})
        wd.ext(n, "temp");
    Bench b({});
    for (auto& z : top)
    {
        wd.zone(z.id, 0, 0);
        wd.loop(z.id, "L1", "temp", z.in, directThermal());
        wd.loop(z.id, "L2", "temp", {z.in[0]}, directThermal());
    }
    size_t n = 1 + mc::choose(3, "budget");
    wd.build();
    buildFailsafeLoggers(wd.zones, n);
    for (auto& z : top)
        b.ref[z.id].budget = n;
    b.cap.take();
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        vt::advance(mc::choose(2, "gap") * 700 * vt::ms);
        int o = mc::choose(9, "report");
        if (o < 3) // a zone enters
            b.zone(top[o].id, true, texts()[i & 1]);
        else if (o == 3)
            b.zone(top[0].id, false, texts()[0]);
        else
        {
            std::string id{"ABCDB"[o - 4]};
            std::vector<int64_t> users;
            for (auto& z : top)
                if (std::count(z.in.begin(), z.in.end(), id))
                    users.push_back(z.id);
            b.sensor(id, users, {id + id + "x", o == 8 ? "late" : "gone"});
            mc::cover(users.size() > 1 ? "shared" : "single");
        }
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("sensors", sensors, 1 << 20, 1 << 20, false,
         {"is in", "shared", "single"});

// running zones: messages tell the state the zone is in, once
void running()
{
    World wd;
    int shape = mc::choose(3, "shape");
    uint64_t therm = shape == 1 ? 300 : 2000;
    wd.dbus("T1", "temp", 30);
    wd.dbus("T2", "temp", 30);
    wd.dbus("M", "temp", 30);
    wd.ext("H", "temp");
    wd.fan("F1");
    std::vector<int64_t> ids{1};
    if (shape != 1)
        ids.push_back(12);
    for (auto id : ids)
    {
        wd.zone(id, 0, 50, shape == 1 ? 100 : 1000, therm);
        auto& c = wd.loop(id, "L", "temp", {"T1", "T2", "M"}, directThermal());
        c.inputs[2].missingIsAcceptable = true;
        if (id == 1)
            wd.loop(id, "H", "temp", {"H"}, directThermal());
    }
    if (shape != 2)
        wd.loop(1, "F", "fan", {"F1"}, directFan());
    Capture cap;
    wd.build();
    wd.value("H", 30);
    wd.start();
    std::map<int64_t, std::set<std::string>> seen;
    std::map<int64_t, bool> in;
    std::map<int64_t, std::deque<int64_t>> when;
    for (auto z : ids)
        in[z] = true; // until everything has been read once
    std::map<std::string, bool> bad;
    int steps = mc::thorough() ? 5 : 4;
    int64_t step = (shape == 1 ? 100 : 1000) * vt::ms;
    int per = static_cast<int>(therm * vt::ms / step);
    int64_t t = 0;
    // first everything comes up
    for (int k = 0; k < steps + 1; ++k)
    {
        std::string failing;
        if (k)
        {
            static const std::vector<std::string> all{"",  "T1", "T2",
                                                      "M", "H",  "F1"};
            auto& n = all[mc::choose(shape == 2 ? 5 : 6, "sensor")];
            if (!n.empty())
            {
                if (n == "H")
                    wd.value(n, bad[n] ? 30 : NaN);
                else if (n == "T2")
                    wd.available(n, bad[n]);
                else
                    wd.functional(n, bad[n]);
                if (n == "T2" && bad[n])
                    wd.value(n, 30);
                bad[n] = !bad[n];
                if (bad[n])
                    failing = n;
            }
        }
        // several evaluations pass between events
        for (int c = 0; c < 2 * per + (shape == 1 ? 14 : 0); ++c)
        {
            t += step;
            mc::op();
            wd.runUntil(t + vt::ms);
            auto lines = cap.take();
            for (auto z : ids)
            {
                bool now = wd.failsafeProp(z);
                std::set<std::string> fresh;
                size_t mine = 0, named = 0, leaving = 0;
                for (auto& l : lines)
                {
                    if (l.zone != z)
                        continue;
                    ++mine;
                    if (l.leaves ? !in[z] || now : !in[z] && !now)
                        mc::fail("zone %ld, %s before and %s after, says it "
                                 "%s: %s",
                                 (long)z, in[z] ? "failsafe" : "normal",
                                 now ? "failsafe" : "normal",
                                 l.leaves ? "leaves failsafe"
                                          : "is in failsafe",
                                 l.rest.c_str());
                    auto key = (l.leaves ? "-" : "+") + l.rest;
                    if (!fresh.insert(key).second ||
                        (now == in[z] && seen[z].count(key)))
                        mc::fail("zone %ld repeats: %s", (long)z,
                                 l.rest.c_str());
                    leaving += l.leaves;
                    if (!failing.empty() &&
                        l.rest.find(failing) != std::string::npos)
                        ++named;
                    mc::cover(l.leaves ? "leaves" : "is in");
                }
                mc::compare(1 + mine);
                if (now && !in[z] && !named)
                    mc::fail("zone %ld entered failsafe because of %s without "
                             "a message naming it",
                             (long)z, failing.c_str());
                if (!now && in[z] && k && !leaving)
                    mc::fail("zone %ld left failsafe without a message",
                             (long)z);
                auto& w = when[z];
                for (size_t i = 0; i < mine; ++i)
                    w.push_back(t);
                while (!w.empty() && t - w.front() >= vt::sec)
                    w.pop_front();
                if (w.size() > 20)
                    mc::fail("zone %ld: %zu messages within a second", (long)z,
                             w.size());
                if (now != in[z])
                    seen[z].clear();
                seen[z].insert(fresh.begin(), fresh.end());
                in[z] = now;
            }
            for (auto& l : lines)
                if (!in.count(l.zone))
                    mc::fail("a message for zone %ld", (long)l.zone);
        }
        if (k == 0)
            for (auto z : ids)
                if (in[z])
                    mc::fail("zone %ld did not come up: %s", (long)z, wd.z(z)->getFailSafeSensors().begin()->first.c_str());
        uint64_t h = shape;
        for (auto& [n, x] : bad)
            h = mc::hashS(n, h * 2 + x);
        mc::state(mc::mix(h, k));
        mc::outcome(h);
    }
}
MC_SUITE("running", running, 1 << 20, 1 << 20, false, {"leaves", "is in"});
} // namespace

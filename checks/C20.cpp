//@technique exhaustive enumeration of write/read/time histories on real host sensors published on the simulated bus, against a last-write reference; timeouts judged in a real zone
//@level model_checking
//@budget 60 500
//@assume the host writes one value at a time
#include "world.hpp"

using namespace w;

namespace
{
const std::vector<double> values{25.5,  0,    -3.25, NaN,  1e9, INF,
                                 -INF, 0.001, 100,   1e-12};
struct Ref
{
    double value = 0;
    int64_t at = 0;
    bool written = false;
};
struct Bench
{
    World wd;
    std::map<std::string, Ref> ref;
    std::map<std::string, std::string> type;
    void add(const std::string& n, const std::string& ty, int64_t timeout = 0)
    {
        wd.ext(n, ty, timeout);
        type[n] = ty;
        ref[n];
    }
    void make()
    {
        wd.build();
        for (auto& [n, r] : ref)
            r.at = vt::now();
    }
    void write(const std::string& n, double v)
    {
        wd.value(n, v);
        ref[n] = {v, vt::now(), true};
        mc::op();
    }
    static int64_t ns(std::chrono::high_resolution_clock::time_point t)
    {
        return std::chrono::duration_cast<std::chrono::nanoseconds>(
                   t.time_since_epoch())
            .count();
    }
    int64_t nowStamp()
    {
        return ns(std::chrono::high_resolution_clock::now());
    }
    void look()
    {
        int64_t off = nowStamp() - vt::now();
        for (auto& [n, r] : ref)
        {
            auto* s = wd.mgr->getSensor(n);
            auto got = s->read();
            mc::compare(4);
            if (!mc::near(got.value, r.value, 0))
                mc::fail("%s reads %g, the host wrote %g", n.c_str(),
                         got.value, r.value);
            if (ns(got.updated) != r.at + off)
                mc::fail("%s: the value is stamped %+.9f s from when it was "
                         "written",
                         n.c_str(), (ns(got.updated) - r.at - off) / 1e9);
            if (s->getFailed() != !std::isfinite(r.value))
                mc::fail("%s: failed=%d with the last value %g", n.c_str(),
                         s->getFailed(), r.value);
            if (s->getName() != n)
                mc::fail("sensor %s is called %s", n.c_str(),
                         s->getName().c_str());
            double pub = bk().clientGetT<double>(EXTSVC, wd.objPath(n), iValue,
                                                 "Value");
            if (!mc::near(pub, r.value, 0))
                mc::fail("%s is published as %g, the host wrote %g",
                         n.c_str(), pub, r.value);
        }
    }
    uint64_t hash()
    {
        uint64_t h = 7;
        for (auto& [n, r] : ref)
            h = mc::mix(mc::hashD(r.value, h),
                        (vt::now() - r.at) / vt::ms + r.written);
        return h;
    }
};
const std::vector<std::vector<std::pair<const char*, const char*>>> sets{
    {{"cpu0", "temp"}, {"cpu00", "temp"}, {"cpu0_x", "margin"}},
    {{"sluggish0", "margin"}, {"sluggish1", "margin"}, {"a", "power"}},
    {{"T", "powersum"}, {"t", "temp"}, {"T T", "temp"}}};

void history()
{
    Bench b;
    auto& set = mc::pick(sets, "names");
    std::vector<std::string> names;
    for (auto& [n, ty] : set)
    {
        b.add(n, ty);
        names.push_back(n);
        if (std::string(n).find(' ') != std::string::npos)
            b.wd.sensors[n].readPath =
                "/xyz/openbmc_project/extsensors/temp/T_T";
    }
    b.make();
    b.look();
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        static const std::vector<int64_t> steps{
            1, vt::ms, vt::sec - 1, 7 * vt::sec};
        // (the other values follow in "values")
        int o = mc::choose(3 * 4 + 4, "step");
        if (o < 12)
            b.write(names[o / 4], values[o % 4]);
        else
        {
            vt::advance(steps[o - 12]);
            mc::op();
        }
        b.look();
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("history", history);

// every pair of values on one sensor, the others untouched
void allValues()
{
    Bench b;
    auto& set = mc::pick(sets, "names");
    std::vector<std::string> names;
    for (auto& [n, ty] : set)
        if (std::string(n).find(' ') == std::string::npos)
            b.add(n, ty), names.push_back(n);
    b.make();
    auto& n = mc::pick(names, "sensor");
    for (int i = 0; i < 3; ++i)
    {
        vt::advance(vt::ms * 300);
        b.write(n, mc::pick(values, "value"));
        b.look();
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("values", allValues);

// In a zone: failed exactly while the last value is not a finite number or is
// as old as the timeout.
void timeouts()
{
    Bench b;
    static const std::vector<int64_t> tos{0, 1, 2, 3, 61};
    int64_t to[2] = {mc::pick(tos, "timeout"),
                     tos[mc::thorough() ? mc::choose(5, "timeout2")
                                        : 2 * mc::choose(2, "timeout2")]};
    b.add("cpu0", "temp", to[0]);
    b.add("cpu01", mc::choose(2, "type") ? "temp" : "margin", to[1]);
    b.wd.fan("F", 1000);
    b.wd.zone(3, 0, 50);
    b.wd.loop(3, "a", "temp", {"cpu0"}, directThermal());
    b.wd.loop(3, "b", b.type["cpu01"], {"cpu01"}, directThermal());
    b.wd.loop(3, "f", "fan", {"F"}, directFan());
    b.make();
    // some time passes between creation and the start of the loops
    static const std::vector<int64_t> gaps{0, vt::ms * 1500, vt::sec * 2};
    vt::advance(mc::pick(gaps, "gap"));
    b.wd.start();
    auto judge = [&](int64_t evalAt) {
        std::string want, got;
        int i = 0;
        for (auto& [n, r] : b.ref)
        {
            bool stale = to[i] && evalAt - r.at >= to[i] * vt::sec;
            if (!std::isfinite(r.value) || stale)
                want += n + " ";
            mc::cover(!std::isfinite(r.value) ? "bad value"
                      : stale                 ? "stale"
                                              : "good");
            ++i;
        }
        for (auto& [n, why] : b.wd.z(3)->getFailSafeSensors())
            if (n != "F")
                got += n + " ";
        mc::compare();
        if (got != want)
            mc::fail("%.3f s after start: failed are '%s', expected '%s' "
                     "(timeouts %ld/%ld)",
                     (evalAt - b.wd.started) / 1e9, got.c_str(), want.c_str(),
                     static_cast<long>(to[0]), static_cast<long>(to[1]));
    };
    int64_t t0 = b.wd.started;
    judge(t0);
    int64_t evalAt = t0;
    int depth = mc::thorough() ? 5 : 4;
    for (int k = 0; k < depth; ++k)
    {
        // the next evaluation is at the fan cycle when a second has passed
        // (the very first counts from the first fan cycle)
        int64_t next = evalAt + vt::sec + (evalAt == t0 ? vt::ms * 100 : 0);
        // what the host does before it, and when
        static const std::vector<int64_t> whens{vt::ms * 1, vt::ms * 500,
                                                vt::ms * 999};
        int what = mc::choose(5, "host");
        if (what)
        {
            b.wd.runUntil(next - vt::sec + whens[mc::choose(
                                               mc::thorough() ? 3 : 2, "at")]);
            static const std::vector<double> vs{30, NaN};
            b.write((what - 1) / 2 ? "cpu01" : "cpu0", vs[(what - 1) % 2]);
        }
        b.wd.runUntil(next + vt::ms * 1);
        evalAt = next;
        judge(evalAt);
        // the timeout instant itself is at whole seconds after a write only
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("timeouts", timeouts, 1 << 20, 1 << 20, false,
         {"bad value", "stale", "good"});

// published once each while configured, gone afterwards; a rebuilt
// configuration starts afresh
void lifecycle()
{
    Bench b;
    auto& set = sets[mc::choose(2, "names")];
    int mask = 1 + mc::choose(7, "configured");
    auto conf = [&](int m) {
        b.ref.clear();
        b.wd.sensors.clear();
        int i = 0;
        for (auto& [n, ty] : set)
            if (m >> i++ & 1)
                b.add(n, ty);
        b.make();
    };
    auto published = [&] {
        for (auto& [n, ty] : set)
        {
            std::string p =
                std::string("/xyz/openbmc_project/extsensors/") + ty + "/" + n;
            bool there = true;
            try
            {
                bk().clientGet(EXTSVC, p, iValue, "Value");
            }
            catch (const mc::Violation&)
            {
                throw;
            }
            catch (...)
            {
                there = false;
            }
            mc::compare();
            if (there != static_cast<bool>(b.ref.count(n)))
                mc::fail("host sensor %s is %s", n,
                         there ? "published but not configured"
                               : "configured but not published");
        }
    };
    conf(mask);
    published();
    b.look();
    for (auto& [n, r] : b.ref)
    {
        vt::advance(vt::ms * 10);
        b.write(n, mc::choose(2, "value") ? 44 : NaN);
    }
    b.look();
    vt::advance(vt::sec);
    b.wd.stop();
    b.ref.clear();
    published();
    conf(1 + mc::choose(7, "reconfigured"));
    published();
    b.look();
    mc::outcome(b.hash());
}
MC_SUITE("lifecycle", lifecycle);
} // namespace

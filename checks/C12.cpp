//@technique exhaustive enumeration of intervals, evaluation durations and manual periods; every fan cycle and thermal evaluation is compared with the nominal schedule
//@level model_checking
//@budget 90 700
//@assume intervals of at least 1 ms; an evaluation may lag by at most one fan cycle; with a thermal interval below the fan interval there is one evaluation per fan cycle
#include "world.hpp"

#include "pid/buildjson.hpp"
#include "pid/controller.hpp"

#include <nlohmann/json.hpp>

using namespace w;

namespace
{
struct Event
{
    int64_t begin, end;
    int64_t zone;
    char kind; // 't'hermal or 'f'an
};
struct Log
{
    std::vector<Event> ev;
    std::function<int64_t(int64_t zone, char kind)> duration;
};
// A loop that only records when it runs and takes some time to do so.
class Probe : public Controller
{
  public:
    Probe(ZoneInterface* z, Log& l, char k) : zone(z), log(l), kind(k) {}
    void process() override
    {
        Event e{vt::now(), 0, zone->getZoneID(), kind};
        if (log.duration)
            vt::advance(log.duration(e.zone, kind));
        e.end = vt::now();
        log.ev.push_back(e);
    }
    double inputProc() override
    {
        return 0;
    }
    void outputProc(double) override {}
    std::string getID() override
    {
        return "probe";
    }

  private:
    ZoneInterface* zone;
    Log& log;
    char kind;
};

struct Plan
{
    int64_t id;
    uint64_t fanMs, thermMs;
    // manual periods: [first,last] in virtual ns
    std::vector<std::pair<int64_t, int64_t>> manual;
};
struct Scene
{
    World wd;
    Log log;
    void probes()
    {
        for (auto& [id, z] : wd.zones)
        {
            wd.z(id)->addThermalPID(
                std::make_unique<Probe>(z.get(), log, 't'));
            wd.z(id)->addFanPID(std::make_unique<Probe>(z.get(), log, 'f'));
        }
    }
    void make(const std::vector<Plan>& plans)
    {
        wd.ext("T", "temp");
        for (auto& p : plans)
        {
            auto f = S("Fan%ld", static_cast<long>(p.id));
            wd.fan(f);
            wd.zone(p.id, 5, 50, p.fanMs, p.thermMs);
            wd.loop(p.id, "F", "fan", {f}, directFan());
            wd.loop(p.id, "T", "temp", {"T"}, directThermal());
        }
        wd.build();
        probes();
    }
    // judge everything recorded up to `end` (a moment without activity)
    void judge(const std::vector<Plan>& plans, int64_t start, int64_t end)
    {
        for (auto& p : plans)
        {
            int64_t f = p.fanMs * vt::ms, th = p.thermMs * vt::ms;
            auto isManual = [&](int64_t t) {
                for (auto& [a, b] : p.manual)
                    if (t >= a && t < b)
                        return true;
                return false;
            };
            // nominal cycles
            std::vector<int64_t> nominal;
            for (int64_t k = 1; start + k * f <= end; ++k)
                if (!isManual(start + k * f))
                    nominal.push_back(start + k * f);
            size_t cyc = 0, therms = 0;
            bool inCycle = false; // thermal part of the current cycle seen
            bool first = true;
            for (size_t i = 0; i < log.ev.size(); ++i)
            {
                auto& e = log.ev[i];
                if (e.zone != p.id)
                    continue;
                int64_t prevEnd = i ? log.ev[i - 1].end : start;
                mc::compare();
                if (first)
                {
                    if (e.kind != 't' || e.begin > std::max(start, prevEnd))
                        mc::fail("zone %ld: the first action is a %c at %ld "
                                 "us, expected a thermal evaluation at the "
                                 "start",
                                 static_cast<long>(p.id), e.kind,
                                 static_cast<long>(e.begin / 1000));
                    first = false;
                    continue;
                }
                if (cyc >= nominal.size())
                    mc::fail("zone %ld: extra %s at %ld us (fan interval %lu, "
                             "%zu cycles due)",
                             static_cast<long>(p.id),
                             e.kind == 't' ? "thermal evaluation" : "fan cycle",
                             static_cast<long>(e.begin / 1000),
                             static_cast<unsigned long>(p.fanMs),
                             nominal.size());
                int64_t due = nominal[cyc];
                if (e.begin < due || (e.begin > due && e.begin > prevEnd))
                    mc::fail("zone %ld: %s of cycle %zu at %ld us, due at "
                             "%ld us (intervals %lu/%lu ms)",
                             static_cast<long>(p.id),
                             e.kind == 't' ? "thermal evaluation" : "fan cycle",
                             cyc + 1, static_cast<long>(e.begin / 1000),
                             static_cast<long>(due / 1000),
                             static_cast<unsigned long>(p.fanMs),
                             static_cast<unsigned long>(p.thermMs));
                if (e.kind == 't')
                {
                    if (inCycle)
                        mc::fail("zone %ld: two thermal evaluations in one "
                                 "fan cycle",
                                 static_cast<long>(p.id));
                    inCycle = true;
                    ++therms;
                    continue;
                }
                ++cyc;
                inCycle = false;
                // ratio: floor of elapsed over interval, up to one cycle late
                int64_t lo, hi;
                if (th >= f)
                {
                    lo = static_cast<int64_t>(cyc - 1) * f / th;
                    hi = static_cast<int64_t>(cyc) * f / th;
                }
                else
                {
                    lo = cyc - 1;
                    hi = cyc;
                }
                auto n = static_cast<int64_t>(therms);
                if (n < lo || n > hi)
                    mc::fail("zone %ld: %ld thermal evaluations after %zu fan "
                             "cycles, expected %ld..%ld (intervals %lu/%lu ms)",
                             static_cast<long>(p.id), static_cast<long>(n), cyc,
                             static_cast<long>(lo), static_cast<long>(hi),
                             static_cast<unsigned long>(p.fanMs),
                             static_cast<unsigned long>(p.thermMs));
                if (e.begin > due)
                    mc::cover("late cycle");
                mc::cover("fan cycle");
                if (!p.manual.empty())
                    mc::cover("manual zone");
                mc::state(mc::mix(mc::mix(cyc, therms),
                                  mc::mix(p.fanMs, p.thermMs)));
            }
            if (cyc != nominal.size())
                mc::fail("zone %ld: %zu fan cycles up to %ld ms, expected %zu "
                         "(interval %lu ms)",
                         static_cast<long>(p.id), cyc,
                         static_cast<long>(end / vt::ms), nominal.size(),
                         static_cast<unsigned long>(p.fanMs));
            mc::outcome(mc::mix(mc::mix(cyc, therms), p.fanMs));
        }
    }
};
const std::vector<uint64_t> fanI{100, 1000, 30, 7, 250, 1},
    thermI{1000, 100, 50, 333, 250, 7, 30};

// every pair of intervals, undisturbed, over thousands of cycles
void intervals()
{
    Scene s;
    Plan p{2, mc::pick(fanI, "fan interval"), mc::pick(thermI, "thermal"), {}};
    s.make({p});
    s.wd.start();
    int64_t end = static_cast<int64_t>(p.fanMs) * vt::ms *
                  (mc::thorough() ? 3000 : 700);
    mc::op();
    s.wd.runUntil(end + 1000);
    s.judge({p}, 0, end + 1000);
}
MC_SUITE("intervals", intervals, 1 << 20, 1 << 20, false, {"fan cycle"});

// evaluations take time: every pattern of durations of the first ones
void durations()
{
    Scene s;
    static const std::vector<std::pair<uint64_t, uint64_t>> iv{
        {100, 1000}, {100, 250}, {100, 100}, {30, 70}};
    auto& i = mc::pick(iv, "intervals");
    Plan p{2, i.first, i.second, {}};
    s.make({p});
    int64_t f = static_cast<int64_t>(p.fanMs) * vt::ms;
    int n = 0;
    bool ticking = false;
    s.log.duration = [&](int64_t, char) -> int64_t {
        int limit = mc::thorough() ? 9 : 7;
        if (!ticking || n >= limit)
            return 0;
        ++n;
        mc::op();
        switch (mc::choose(4, "duration"))
        {
            case 1: return f / 4;
            case 2: return f + f / 2;
            case 3: return 3 * f;
        }
        return 0;
    };
    s.wd.start();
    ticking = true;
    int64_t end = 60 * f + 1000;
    s.wd.runUntil(end);
    s.judge({p}, 0, end);
}
MC_SUITE("durations", durations, 1 << 20, 1 << 20, false,
         {"fan cycle", "late cycle"});

// two or three zones with their own intervals and slow evaluations
void zones()
{
    Scene s;
    static const std::vector<std::pair<uint64_t, uint64_t>> iv{
        {100, 1000}, {30, 100}, {250, 250}, {1000, 100}};
    std::vector<Plan> ps;
    static const std::vector<int64_t> ids{0, 1, 10};
    int k = 2 + mc::choose(2, "zones");
    for (int z = 0; z < k; ++z)
    {
        auto& i = mc::pick(iv, "intervals");
        ps.push_back({ids[z], i.first, i.second, {}});
    }
    int slow = mc::choose(4, "slow zone");
    s.make(ps);
    bool ticking = false;
    int n = 0;
    s.log.duration = [&](int64_t z, char kind) -> int64_t {
        if (!ticking || slow == 3 || z != ids[slow] || n > 5)
            return 0;
        ++n;
        return kind == 't' ? 70 * vt::ms : 15 * vt::ms;
    };
    s.wd.start(mc::choose(2, "start order"));
    ticking = true;
    mc::op();
    int64_t end = 6 * vt::sec + 1000;
    s.wd.runUntil(end);
    s.judge(ps, 0, end);
}
MC_SUITE("zones", zones, 1 << 20, 1 << 20, false, {"fan cycle"});

// manual periods of one zone, any start and length, twice
void manual()
{
    Scene s;
    static const std::vector<std::pair<uint64_t, uint64_t>> iv{
        {100, 1000}, {100, 250}, {100, 100}, {100, 130}};
    auto& i = mc::pick(iv, "intervals");
    Plan a{3, i.first, i.second, {}}, b{4, 100, 330, {}};
    static const std::vector<int64_t> at{0, 50, 250, 950, 1050, 1300},
        len{10, 100, 250, 900, 1000, 2500, 0};
    int64_t t = 0;
    for (int k = 0; k < 2; ++k)
    {
        t += mc::pick(at, "manual after") * vt::ms + vt::ms / 2;
        int64_t l = mc::pick(len, "manual for") * vt::ms;
        if (l)
            a.manual.push_back({t, t + l});
        t += l;
    }
    s.make({a, b});
    s.wd.start();
    for (auto& [from, to] : a.manual)
    {
        mc::op(2);
        vt::at(from, [&] { s.wd.manual(3, true); });
        vt::at(to, [&] { s.wd.manual(3, false); });
    }
    int64_t end = t + 3 * vt::sec + 1000;
    s.wd.runUntil(end);
    s.judge({a, b}, 0, end);
}
MC_SUITE("manual", manual, 1 << 20, 1 << 20, false,
         {"fan cycle", "manual zone"});

// configured or omitted intervals in the configuration file
void configured()
{
    Scene s;
    nlohmann::json zs = nlohmann::json::array();
    std::vector<Plan> ps;
    static const std::vector<int> fi{0, 50, 200}, ti{0, 500, 1500};
    for (int z = 0; z < 2; ++z)
    {
        int f = mc::pick(fi, "fan interval"), t = mc::pick(ti, "thermal");
        nlohmann::json zone = {{"id", z}, {"minThermalOutput", 5},
                               {"failsafePercent", 50}};
        if (f)
            zone["cycleIntervalTimeMS"] = f;
        if (t)
            zone["updateThermalsTimeMS"] = t;
        nlohmann::json pid = {{"samplePeriod", 0.1},
                              {"proportionalCoeff", 0.0},
                              {"integralCoeff", 0.0},
                              {"feedFwdOffsetCoeff", 0.0},
                              {"feedFwdGainCoeff", 1.0},
                              {"integralLimit_min", 0.0},
                              {"integralLimit_max", 0.0},
                              {"outLim_min", 0.0},
                              {"outLim_max", 100.0},
                              {"slewNeg", 0.0},
                              {"slewPos", 0.0}};
        auto fan = "Fan" + std::to_string(z);
        zone["pids"] = {{{"name", "F"},
                         {"type", "fan"},
                         {"inputs", {fan}},
                         {"setpoint", 0.0},
                         {"pid", pid}},
                        {{"name", "T"},
                         {"type", "temp"},
                         {"inputs", {"T"}},
                         {"setpoint", 0.0},
                         {"pid", pid}}};
        zs.push_back(zone);
        s.wd.fan(fan);
        ps.push_back({z, f ? static_cast<uint64_t>(f) : 100,
                      t ? static_cast<uint64_t>(t) : 1000, {}});
    }
    s.wd.ext("T", "temp");
    auto [pids, zcfg] = buildPIDsFromJson({{"zones", zs}});
    s.wd.pids = pids;
    s.wd.zcfg = zcfg;
    s.wd.build();
    s.probes();
    s.wd.start();
    mc::op();
    int64_t end = 12 * vt::sec + 1000;
    s.wd.runUntil(end);
    s.judge(ps, 0, end);
}
MC_SUITE("configured", configured, 1 << 20, 1 << 20, false, {"fan cycle"});
} // namespace

//@technique exhaustive enumeration of zone shapes and reading/failure/manual/delivery histories of real control loops, comparing every log row with what was observed on the bus
//@level model_checking
//@budget 90 600
//@assume sensor names hold no comma; a fan belongs to one loop of a zone; fan controls on the bus
#include "world.hpp"

#include <sstream>

using namespace w;

namespace
{
struct Row
{
    int64_t ms;
    double target;
    std::string leader;
    std::map<std::string, std::pair<double, double>> fans, temps;
    std::map<std::string, std::optional<uint64_t>> sent;
    bool failsafe;
    bool oneSource = true;
};
struct ZoneRef
{
    int64_t id;
    std::vector<std::string> fans, temps;
    uint64_t cycleMs, thermMs;
    uint64_t count = 0; // time since the last thermal evaluation
    std::map<std::string, std::pair<double, double>> evaluated;
    std::vector<Row> rows;
};

std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> out{""};
    for (char c : s)
        if (c == ',')
            out.emplace_back();
        else
            out.back() += c;
    return out;
}
// printed with at least six significant digits
bool shows(const std::string& text, double v)
{
    if (std::isnan(v))
        return text.find("nan") != std::string::npos;
    char* end = nullptr;
    double g = strtod(text.c_str(), &end);
    if (text.empty() || *end)
        return false;
    return std::fabs(g - v) <= 1e-5 * std::fabs(v) + 1e-12;
}

struct Scene
{
    World wd;
    std::vector<ZoneRef> zs;
    std::map<std::string, double> val; // what each sensor reports
    std::map<std::string, bool> failed, lost;
    std::map<std::string, std::pair<double, double>> range;
    std::map<std::string, std::optional<uint64_t>> sent;
    std::map<int64_t, bool> manual;
    std::string dir = mc::scratch() + "/zlog";
    size_t seen = 0;
    int64_t t = 0;

    Scene()
    {
        mkdir(dir.c_str(), 0755);
        loggingEnabled = true;
        loggingPath = dir;
    }
    ~Scene()
    {
        for (auto& z : zs)
            unlink(file(z.id).c_str());
    }
    std::string file(int64_t id)
    {
        return dir + "/zone_" + std::to_string(id) + ".log";
    }
    void fan(const std::string& n, double rpm, double top = 0)
    {
        wd.fan(n, rpm);
        val[n] = rpm;
        if (top)
            limits(n, top);
    }
    void limits(const std::string& n, double top)
    {
        auto& o = bk().services[SVC][wd.objPath(n)][iValue];
        o["MaxValue"] = toVal(top);
        o["MinValue"] = toVal(0.0);
        range[n] = {0, top};
    }
    void temp(const std::string& n, double v, bool ext, double top = 0)
    {
        if (ext)
            wd.ext(n, "temp");
        else
            wd.dbus(n, "temp", v);
        val[n] = v;
        if (top)
            limits(n, top);
    }
    ZoneRef& zone(int64_t id, const std::vector<std::string>& fans,
                  const std::vector<std::string>& temps, uint64_t fanMs = 1000,
                  uint64_t thermMs = 1000)
    {
        wd.zone(id, 10, 66, fanMs, thermMs);
        return zs.emplace_back(ZoneRef{id, fans, temps, fanMs, thermMs});
    }
    std::pair<double, double> reading(const std::string& n)
    {
        // a bus sensor keeps its last number
        bool ext =
            wd.objPath(n).find("/extsensors/") != std::string::npos;
        double v = lost[n] && ext ? NaN : val[n];
        auto it = range.find(n);
        if (it == range.end())
            return {v, v};
        return {(v - it->second.first) /
                    (it->second.second - it->second.first),
                v};
    }
    void build()
    {
        wd.build();
        bk().fault = [this](const simbus::CallInfo& c) {
            auto n = c.path.substr(c.path.rfind('/') + 1);
            return c.member == "Set" && noWay[n] ? EIO : 0;
        };
        for (auto& [n, c] : wd.sensors)
            if (c.readPath.find("/extsensors/") != std::string::npos)
                wd.value(n, val[n]);
        wd.start();
        for (auto& z : zs)
            for (auto& n : z.temps)
                z.evaluated[n] = reading(n);
        seen = bk().sets.size();
    }
    std::map<std::string, bool> noWay;
    // run the fan cycle that is due at time t for the zones in it
    void cycle(int64_t at)
    {
        t = at;
        wd.runUntil(t - vt::ms);
        std::map<int64_t, Row> due;
        for (auto& z : zs)
        {
            if (t % (z.cycleMs * vt::ms) || manual[z.id])
                continue;
            Row r;
            r.target = wd.z(z.id)->getMaxSetPointRequest();
            r.leader = wd.leaderProp(z.id);
            for (auto& n : z.fans)
            {
                r.fans[n] = reading(n);
                r.sent[n] = sent[n];
            }
            r.temps = z.evaluated;
            due[z.id] = r;
        }
        wd.runUntil(t + vt::ms);
        for (auto& z : zs)
        {
            if (!due.count(z.id))
                continue;
            auto& r = due[z.id];
            r.ms = epoch(t);
            r.failsafe = wd.failsafeProp(z.id);
            z.rows.push_back(r);
            if (z.count >= z.thermMs)
            {
                z.count -= z.thermMs;
                for (auto& n : z.temps)
                    z.evaluated[n] = reading(n);
            }
            z.count += z.cycleMs;
        }
        auto ws = fanWrites(seen);
        seen = bk().sets.size();
        for (auto& w : ws)
            sent[w.fan] = w.raw;
    }
    int64_t epoch(int64_t at)
    {
        // the wall clock and virtual time advance together
        return vt::epochMs() + (at - vt::now()) / vt::ms;
    }

    void verify() // (rows may be buffered until the zone is gone)
    {
        wd.stop();
        for (auto& z : zs)
            verify(z);
    }
    void verify(const ZoneRef& z)
    {
        std::ifstream f(file(z.id));
        std::string line;
        std::vector<std::vector<std::string>> lines;
        while (std::getline(f, line))
            lines.push_back(split(line));
        mc::compare();
        if (lines.empty())
            mc::fail("zone %ld has no log", static_cast<long>(z.id));
        auto& h = lines[0];
        std::map<std::string, size_t> col;
        for (size_t i = 0; i < h.size(); ++i)
            if (!col.emplace(h[i], i).second)
                mc::fail("column %s appears twice", h[i].c_str());
        size_t width = 3 + 4 * z.fans.size() + 2 * z.temps.size() + 1;
        if (h.size() != width || h[0] != "epoch_ms" || h[1] != "setpt" ||
            h[2] != "requester" || h.back() != "failsafe")
            mc::fail("zone %ld: unexpected header of %zu columns: %s",
                     static_cast<long>(z.id), h.size(), line.c_str());
        size_t lastFan = 2;
        for (auto& n : z.fans)
        {
            if (!col.count(n) || !col.count(n + "_raw") ||
                !col.count(n + "_pwm") || !col.count(n + "_pwm_raw"))
                mc::fail("no columns for fan %s", n.c_str());
            for (auto x : {"", "_raw", "_pwm", "_pwm_raw"})
                lastFan = std::max(lastFan, col[n + x]);
        }
        for (auto& n : z.temps)
            if (!col.count(n) || !col.count(n + "_raw") || col[n] <= lastFan)
                mc::fail("no columns for temperature %s behind the fans",
                         n.c_str());
        if (lines.size() != z.rows.size() + 1)
            mc::fail("zone %ld: %zu rows for %zu cycles",
                     static_cast<long>(z.id), lines.size() - 1,
                     z.rows.size());
        for (size_t i = 0; i < z.rows.size(); ++i)
        {
            auto& l = lines[i + 1];
            auto& r = z.rows[i];
            mc::compare(width);
            if (l.size() != width)
                mc::fail("zone %ld: row %zu has %zu columns, the header %zu",
                         static_cast<long>(z.id), i, l.size(), width);
            auto need = [&](const std::string& c, bool ok, double v) {
                if (!ok)
                    mc::fail("zone %ld, row %zu: %s is '%s' instead of %g",
                             static_cast<long>(z.id), i, c.c_str(),
                             l[col[c]].c_str(), v);
            };
            auto num = [&](const std::string& c, double v) {
                need(c, shows(l[col[c]], v), v);
            };
            // the millisecond itself, not a rounded number
            need("epoch_ms", l[0] == std::to_string(r.ms),
                 static_cast<double>(r.ms));
            num("setpt", r.target);
            if (l[2] != r.leader)
                mc::fail("zone %ld, row %zu: requester is '%s' instead of "
                         "'%s'",
                         static_cast<long>(z.id), i, l[2].c_str(),
                         r.leader.c_str());
            for (auto& [n, v] : r.fans)
            {
                num(n, v.first);
                num(n + "_raw", v.second);
                auto& s = r.sent.at(n);
                if (!s)
                {
                    num(n + "_pwm", NaN);
                    num(n + "_pwm_raw", NaN);
                    continue;
                }
                num(n + "_pwm_raw", *s);
                // raw = duty * 100000, truncated
                double d = strtod(l[col[n + "_pwm"]].c_str(), nullptr) * 1e5;
                need(n + "_pwm", std::fabs(d - *s) <= 1 + 1e-5 * *s,
                     *s / 1e5);
                mc::cover("command logged");
            }
            for (auto& [n, v] : r.temps)
            {
                num(n, v.first);
                num(n + "_raw", v.second);
            }
            need("failsafe", l.back() == (r.failsafe ? "1" : "0"), r.failsafe);
            if (r.failsafe)
                mc::cover("failsafe logged");
        }
    }
    uint64_t hash()
    {
        uint64_t h = 1;
        for (auto& z : zs)
            if (!z.rows.empty())
            {
                auto& r = z.rows.back();
                h = mc::hashD(r.target, mc::hashS(r.leader, h + r.failsafe));
                for (auto& [n, v] : r.fans)
                    h = mc::hashD(v.second, h + r.sent[n].value_or(3));
                for (auto& [n, v] : r.temps)
                    h = mc::hashD(v.second, h);
            }
        return h;
    }
};

void event(Scene& s, int e, int cycle)
{
    auto& wd = s.wd;
    auto& z = s.zs[0];
    auto some = [&](const std::vector<std::string>& v) -> const std::string& {
        return v[cycle % v.size()];
    };
    switch (e)
    {
        case 0: break;
        case 1: // another temperature
        {
            if (z.temps.empty())
                return;
            auto& n = some(z.temps);
            wd.value(n, s.val[n] = 30.123456 + 7 * cycle);
            s.lost[n] = false;
            break;
        }
        case 2: // another speed
        {
            if (z.fans.empty())
                return;
            auto& n = some(z.fans);
            wd.value(n, s.val[n] = 5000.5 + 1234 * cycle);
            break;
        }
        case 3: // manual mode
            s.manual[z.id] = !s.manual[z.id];
            wd.manual(z.id, s.manual[z.id]);
            mc::cover("manual");
            break;
        case 4: // a bus sensor fails or recovers
        {
            auto& n = z.fans.empty() ? z.temps[0] : some(z.fans);
            if (wd.objPath(n).find("/extsensors/") != std::string::npos)
                return;
            wd.functional(n, s.failed[n]);
            s.failed[n] = !s.failed[n];
            break;
        }
        case 5: // a command cannot be delivered
            if (z.fans.empty())
                return;
            s.noWay[z.fans[0]] = !s.noWay[z.fans[0]];
            break;
        case 6: // a temperature is lost, or found
        {
            if (z.temps.empty())
                return;
            auto& n = z.temps.back();
            if (s.lost[n])
                wd.value(n, s.val[n] = 44);
            else
                wd.value(n, NaN);
            s.lost[n] = !s.lost[n];
            break;
        }
        case 7: // everything moves
            for (auto& n : z.temps)
                wd.value(n, s.val[n] = 55 + cycle + n.size()),
                    s.lost[n] = false;
            for (auto& n : z.fans)
                wd.value(n, s.val[n] = 0.25 * cycle);
            break;
    }
}

void shapes()
{
    Scene s;
    int shape = mc::choose(7, "shape");
    auto& wd = s.wd;
    switch (shape)
    {
        case 0:
            s.fan("fan1", 1000);
            s.temp("T", 30, true);
            s.zone(1, {"fan1"}, {"T"});
            wd.loop(1, "L", "temp", {"T"}, directThermal());
            wd.loop(1, "F", "fan", {"fan1"}, directFan());
            break;
        case 1: // fans of different loops, loops not in the order of the names
            s.fan("fanB", 1000);
            s.fan("fanA", 2000, 8000);
            s.fan("fan", 3000);
            s.temp("T_raw2", 30, true);
            s.temp("A", 31, false, 125);
            s.zone(0, {"fanB", "fanA", "fan"}, {"T_raw2", "A"});
            wd.loop(0, "L", "temp", {"T_raw2", "A"}, directThermal())
                .inputs[0]
                .missingIsAcceptable = true;
            wd.loop(0, "F1", "fan", {"fanB", "fanA"}, directFan());
            wd.loop(0, "F0", "fan", {"fan"}, directFan());
            break;
        case 2: // several loops sharing temperatures; slow thermal evaluation
            s.fan("fan1", 1000);
            s.temp("T", 30, true);
            s.temp("U", 31, true);
            s.temp("V", 32, false, 200);
            s.zone(255, {"fan1"}, {"T", "U", "V"}, 500, 1200);
            wd.loop(255, "L2", "temp", {"T", "U"}, directThermal());
            wd.loop(255, "L1", "temp", {"U", "V"}, directThermal());
            wd.stepwise(255, "L3", {"T"}, {20, 40}, {33, 44});
            wd.loop(255, "F", "fan", {"fan1"}, directFan());
            break;
        case 3: // no fans
            s.temp("T", 30, false);
            s.temp("U", 31, true);
            s.zone(7, {}, {"T", "U"});
            wd.loop(7, "L", "temp", {"T", "U"}, directThermal())
                .inputs[1]
                .missingIsAcceptable = true;
            break;
        case 4: // no temperatures
            s.fan("fan1", 1000, 100);
            s.fan("fan2", 1000);
            s.zone(7, {"fan1", "fan2"}, {});
            wd.loop(7, "F", "fan", {"fan1", "fan2"}, directFan());
            break;
        case 5: // two zones, one number a prefix of the other
        case 6:
            s.fan("fan1", 1000);
            s.fan("fan2", 2000);
            s.temp("T", 30, true);
            s.zone(shape == 5 ? 1 : 10, {"fan1"}, {"T"});
            s.zone(shape == 5 ? 10 : 1, {"fan2"}, {"T"}, 1000, 500);
            wd.loop(1, "L", "temp", {"T"}, directThermal());
            wd.loop(10, "L", "temp", {"T"}, directThermal());
            wd.loop(s.zs[0].id, "F", "fan", {"fan1"}, directFan());
            wd.loop(s.zs[1].id, "F", "fan", {"fan2"}, directFan());
            break;
    }
    s.build();
    int depth = mc::thorough() ? 6 : 5;
    int64_t step = s.zs[0].cycleMs * vt::ms;
    for (int c = 1; c <= depth; ++c)
    {
        event(s, mc::choose(c > 3 ? 4 : 8, "event"), c);
        mc::op();
        s.cycle(c * step);
        mc::state(s.hash());
    }
    s.verify();
    mc::outcome(s.hash());
}
MC_SUITE("shapes", shapes, 1 << 20, 1 << 20, false,
         {"manual", "failsafe logged", "command logged"});

// long runs: the columns stay in place however many rows were written
void longRun()
{
    Scene s;
    s.fan("fan1", 1000);
    s.fan("fan2", 3000, 9000);
    s.temp("T", 30, true);
    s.temp("U", 30, false);
    s.zone(2, {"fan1", "fan2"}, {"T", "U"}, 100, 300);
    s.wd.loop(2, "L", "temp", {"T", "U"}, directThermal());
    s.wd.loop(2, "F", "fan", {"fan1", "fan2"}, directFan());
    s.build();
    for (int c = 1; c <= 30; ++c)
    {
        event(s, mc::chooseDev(8, "event"), c);
        mc::op();
        s.cycle(c * 100 * vt::ms);
        mc::state(s.hash());
    }
    s.verify();
    mc::outcome(s.hash());
}
MC_SUITE("long", longRun, 2, 3, false, {"failsafe logged", "command logged"});
} // namespace

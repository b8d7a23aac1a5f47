//@technique exhaustive enumeration of request/force/delivery-failure histories of the real writers behind the simulated bus and real files, against a reference of what each control must receive
//@level model_checking
//@budget 60 600
//@assume duties within 0..1; ranges from 0 upwards
#include "world.hpp"

using namespace w;

namespace
{
struct Range
{
    int64_t min, max;
};
const std::vector<Range> ranges{{0, 255}, {0, 100},  {20, 80},  {100, 255},
                                {0, 1},   {255, 10}, {0, 0},    {30, 0},
                                {0, -1},  {0, 65535}, {7, 4000000000}};
// what a request means in hardware units, before truncation
double exact(const Range& r, double v)
{
    return r.max > 0 ? r.min + (r.max - r.min) * v : v;
}
bool isRaw(int64_t raw, double x)
{
    double tol = 1e-9 * (1 + std::fabs(x));
    return raw == static_cast<int64_t>(x - tol) ||
           raw == static_cast<int64_t>(x + tol) ||
           raw == static_cast<int64_t>(x);
}
const std::vector<double>& duties(const Range& r)
{
    static const std::vector<double> pct{0.5, 0, 1, 0.5004, 0.999, 0.3337};
    static const std::vector<double> raw{77.9, 0, 255, 77.2, 78, 1.5};
    return r.max > 0 ? pct : raw;
}

// one control as the reference sees it
struct Ref
{
    std::optional<int64_t> delivered; // known to be in effect
};
struct Bench
{
    World wd;
    std::map<std::string, Range> r;
    std::map<std::string, Ref> ref;
    std::map<std::string, int> err;
    void fan(const std::string& n, Range x)
    {
        wd.fan(n, 1000, x.min, x.max);
        r[n] = x;
    }
    void make()
    {
        wd.build();
        bk().fault = [this](const simbus::CallInfo& c) {
            if (c.member == "Set")
                return err[c.path.substr(c.path.rfind('/') + 1)];
            return 0;
        };
    }
    // how: 0 plain, 1 not forced, 2 forced, 3 forced/nobody wants to know
    void request(const std::string& n, double v, int how, int error)
    {
        err[n] = error;
        size_t from = bk().sets.size();
        int64_t w = -77;
        auto* s = wd.mgr->getSensor(n);
        mc::op();
        switch (how)
        {
            case 0: s->write(v); break;
            case 1: s->write(v, false, &w); break;
            case 2: s->write(v, true, &w); break;
            case 3: s->write(v, true, nullptr); break;
            case 4: s->write(v, false, nullptr); break;
        }
        err[n] = 0;
        expect(n, v, how == 2 || how == 3, error, from);
    }
    void expect(const std::string& n, double v, bool force, int error,
                size_t from)
    {
        double x = exact(r.at(n), v);
        auto& f = ref[n];
        mc::compare();
        for (size_t i = from; i < bk().sets.size(); ++i)
        {
            auto& s = bk().sets[i];
            if (s.path != World::pwmPath(n) || s.service != PWMSVC ||
                s.iface != iPwm || s.prop != "Target")
                mc::fail("a request for %s was sent to %s %s", n.c_str(),
                         s.path.c_str(), s.prop.c_str());
        }
        auto ws = fanWrites(from);
        bool same = f.delivered && isRaw(*f.delivered, x);
        if (same && !force)
        {
            mc::cover("suppressed");
            // (values on the edge of truncation may be either)
            if (!ws.empty() &&
                *f.delivered == static_cast<int64_t>(ws[0].raw))
                mc::fail("%s: %g sent again although %ld was delivered last",
                         n.c_str(), v, static_cast<long>(*f.delivered));
            if (ws.empty())
                return;
        }
        if (ws.size() != 1)
            mc::fail("%s: a request of %g (%s, last delivered %s) was sent "
                     "%zu times",
                     n.c_str(), v, force ? "forced" : "not forced",
                     f.delivered ? std::to_string(*f.delivered).c_str()
                                 : "nothing",
                     ws.size());
        if (!isRaw(static_cast<int64_t>(ws[0].raw), x))
            mc::fail("%s: a request of %g was sent as %lu instead of %.6f",
                     n.c_str(), v, ws[0].raw, x);
        if (same)
            mc::cover("forced again");
        if (error)
        {
            f.delivered.reset();
            mc::cover("failed");
        }
        else
        {
            f.delivered = static_cast<int64_t>(ws[0].raw);
            mc::cover("sent");
            mc::compare();
            if (wd.target(n) != ws[0].raw)
                mc::fail("%s: the control holds %lu after %lu was sent",
                         n.c_str(), wd.target(n), ws[0].raw);
        }
    }
    uint64_t hash()
    {
        uint64_t h = 1;
        for (auto& [n, f] : ref)
            h = mc::mix(h, f.delivered ? *f.delivered + 5 : 1);
        return h;
    }
};

// one fan, every history
void history()
{
    Bench b;
    auto& r = mc::pick(ranges, "range");
    b.fan("fan1", r);
    b.make();
    uint64_t h = mc::mix(r.min, r.max);
    int depth = mc::thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        auto& ds = duties(r);
        double v = ds[mc::choose(mc::thorough() ? 6 : 5, "duty")];
        int how = mc::choose(4, "how");
        int e = mc::choose(2, "failure") ? ETIMEDOUT : 0;
        b.request("fan1", v, how, e);
        mc::state(mc::mix(h, b.hash()));
    }
    mc::outcome(mc::mix(h, b.hash()));
}
MC_SUITE("history", history, 1 << 20, 1 << 20, false,
         {"suppressed", "failed", "sent", "forced again"});

// a long run of few distinct requests: nothing depends on how many there were
void longRun()
{
    Bench b;
    auto& r = ranges[mc::choose(2, "range") * 6];
    b.fan("fan1", r);
    b.make();
    int depth = mc::thorough() ? 8 : 6;
    for (int i = 0; i < depth; ++i)
    {
        int o = mc::choose(6, "request");
        static const std::vector<int> errs{EIO, ENOENT, ETIMEDOUT, EACCES};
        b.request("fan1", duties(r)[o & 1], o == 5 ? 3 : 4,
                  o >= 2 && o < 4 ? errs[i % 4] : 0);
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("long", longRun, 1 << 20, 1 << 20, false,
         {"suppressed", "failed", "sent", "forced again"});

// several fans: what one receives has no effect on another
void several()
{
    Bench b;
    static const std::vector<std::vector<Range>> sets{
        {{0, 255}, {0, 255}, {0, 255}},
        {{0, 255}, {20, 80}, {0, 0}},
        {{0, 0}, {0, 0}, {0, 100}}};
    auto& rs = mc::pick(sets, "ranges");
    static const std::vector<std::string> names{"fan1", "fan10", "fan_1"};
    for (int i = 0; i < 3; ++i)
        b.fan(names[i], rs[i]);
    b.make();
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        int f = mc::choose(3, "fan");
        int d = mc::choose(2, "duty");
        int how = mc::choose(2, "how") ? 2 : 1;
        int e = how == 1 && mc::choose(2, "failure") ? EIO : 0;
        b.request(names[f], duties(rs[f])[d], how, e);
        mc::state(b.hash());
    }
    mc::outcome(b.hash());
}
MC_SUITE("several", several, 1 << 20, 1 << 20, false,
         {"suppressed", "failed", "sent", "forced again"});

// every duty of a fine grid, every range
void grid()
{
    Bench b;
    auto& r = mc::pick(ranges, "range");
    b.fan("fan1", r);
    b.make();
    int n = mc::choose(mc::thorough() ? 1001 : 401, "duty");
    double v = n / (mc::thorough() ? 1000.0 : 400.0);
    if (r.max <= 0)
        v = n * 0.75;
    b.request("fan1", v, 1, 0);
    mc::state(mc::mix(r.max, n));
    mc::outcome(mc::mix(r.max, b.hash()));
}
MC_SUITE("grid", grid, 1 << 20, 1 << 20, false, {"sent"});

// file-backed controls
std::string slurp(const std::string& p)
{
    std::ifstream f(p);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    return s;
}
void file()
{
    static const std::string dir = [] {
        auto d = mc::scratch() + "/sys";
        mkdir(d.c_str(), 0755);
        return d;
    }();
    World wd;
    auto& r = mc::pick(ranges, "range");
    std::vector<std::string> names{"fan1", "fan10"}, paths;
    std::vector<std::string> want{"untouched", "untouched"};
    std::vector<double> ex{0, 0};
    for (int i = 0; i < 2; ++i)
    {
        auto& c = wd.sensor(names[i], "fan");
        paths.push_back(dir + "/pwm" + std::to_string(i));
        c.writePath = paths[i];
        c.readPath = paths[i] + "_input";
        c.min = r.min;
        c.max = r.max;
        std::ofstream(paths[i]) << want[i];
    }
    wd.build();
    int depth = mc::thorough() || &r == &ranges[0] || &r == &ranges[6] ? 3 : 2;
    auto& ds = duties(r);
    for (int k = 0; k < depth; ++k)
    {
        int f = mc::choose(2, "fan");
        double v = ds[mc::choose(mc::thorough() ? 5 : 3, "duty")];
        int how = mc::choose(3, "how");
        bool hand = mc::choose(2, "changed by hand");
        if (hand) // something else wrote the control meanwhile
        {
            want[f] = "999999999999";
            std::ofstream(paths[f], std::ios::trunc) << want[f];
            mc::cover("by hand");
        }
        int64_t w = 0;
        auto* s = wd.mgr->getSensor(names[f]);
        mc::op();
        if (how == 0)
            s->write(v);
        else
            s->write(v, how == 2, k == 2 ? nullptr : &w);
        mc::compare(2);
        auto got = slurp(paths[f]);
        double x = exact(r, v);
        if (!isRaw(strtoll(got.c_str(), nullptr, 10), x) ||
            got.find_first_not_of("0123456789\n") != std::string::npos ||
            got.empty())
            mc::fail("%s: a duty of %g left '%s' in the file, not %.6f",
                     names[f].c_str(), v, got.c_str(), x);
        want[f] = got;
        if (slurp(paths[!f]) != want[!f])
            mc::fail("a duty for %s changed the file of %s", names[f].c_str(),
                     names[!f].c_str());
        mc::cover("written");
        mc::state(mc::hashS(want[0] + "," + want[1], r.max));
    }
    mc::outcome(mc::hashS(want[0] + want[1], 1));
    for (auto& p : paths)
        unlink(p.c_str());
}
MC_SUITE("file", file, 1 << 20, 1 << 20, false, {"by hand", "written"});

// the same through running control loops
void loops()
{
    Bench b;
    static const std::vector<std::pair<Range, Range>> rs{
        {{0, 255}, {0, 255}}, {{20, 80}, {0, 100000}}};
    auto& [r1, r2] = mc::pick(rs, "ranges");
    b.fan("fan1", r1);
    b.fan("fan2", r2);
    b.wd.zone(1, 0, 0, 1000, 1000);
    b.wd.ext("T", "temp");
    b.wd.loop(1, "therm", "temp", {"T"}, directThermal());
    b.wd.loop(1, "fans", "fan", {"fan1", "fan2"}, directFan(0, 100));
    b.make();
    static const std::vector<double> targets{40, 80, 40.01};
    // the zone starts without any delivery problem
    double target = targets[0];
    b.wd.value("T", target);
    b.wd.start();
    // the thermal evaluation of cycle n sets the target for its fan cycle
    size_t from = bk().sets.size();
    int depth = mc::thorough() ? 6 : 4;
    for (int c = 1; c <= depth; ++c)
    {
        target = targets[mc::choose(3, "target")];
        int fails = mc::choose(4, "failures");
        b.wd.value("T", target);
        b.err["fan1"] = fails & 1 ? ETIMEDOUT : 0;
        b.err["fan2"] = fails & 2 ? EIO : 0;
        mc::op();
        b.wd.runUntil(c * vt::sec + 500 * vt::ms);
        auto cmds = fanWrites(from);
        // the target used is the one of the evaluation before the fan cycle
        // of this period or of the previous one: read the zone's own target
        double used = b.wd.z(1)->getMaxSetPointRequest();
        for (auto& n : {"fan1", "fan2"})
        {
            std::vector<Write> mine;
            for (auto& w : cmds)
                if (w.fan == n)
                    mine.push_back(w);
            auto& f = b.ref[n];
            double x = exact(b.r[n], used / 100);
            mc::compare();
            bool same = f.delivered && isRaw(*f.delivered, x);
            if (same ? !mine.empty() : mine.size() != 1)
                mc::fail("cycle %d: %s received %zu commands for %g %% when "
                         "%s was delivered last",
                         c, n, mine.size(), used,
                         f.delivered ? std::to_string(*f.delivered).c_str()
                                     : "nothing");
            if (mine.empty())
            {
                mc::cover("suppressed");
                continue;
            }
            if (!isRaw(static_cast<int64_t>(mine[0].raw), x))
                mc::fail("cycle %d: %s received %lu for %g %%", c, n,
                         mine[0].raw, used);
            if (mine[0].ok)
                f.delivered = static_cast<int64_t>(mine[0].raw);
            else
            {
                f.delivered.reset();
                mc::cover("failed");
            }
        }
        from = bk().sets.size();
        mc::state(mc::mix(b.hash(), c));
    }
    mc::outcome(b.hash());
}
MC_SUITE("loops", loops, 1 << 20, 1 << 20, false, {"suppressed", "failed"});
} // namespace

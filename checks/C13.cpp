//@technique exhaustive enumeration of reload/termination request sequences and their timing against the daemon's real main() under virtual time
//@level model_checking
//@sources +main
//@budget 200 800
//@assume a reload settles within 25 s of the last request; the configuration file does not change between the last request and its reload
#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
#include "daemon.hpp"

extern boost::asio::io_context io;

using namespace dm;

namespace
{
// Fans whose duty grows by a fixed amount on every cycle of one control loop:
// two loops, a stale loop, a wrong interval or a loop not started anew show.
struct ZoneDef
{
    int64_t id;
    std::vector<std::string> fans;
    double delta; // percent per cycle
    int ms;
    bool ext;
};
struct Config
{
    std::vector<ZoneDef> zones;
};
const Config& config(int k)
{
    static const std::vector<Config> c{
        {{{0, {"FanA"}, 0.3, 1000, false}, {1, {"FanB", "FanC"}, 0.2, 500, false}}},
        {{{1, {"FanC"}, 0.5, 1000, false}, {2, {"FanA"}, 0.7, 2000, false}}},
        {{{1, {"FanB"}, 0.4, 1000, true}, {12, {"FanA"}, 0.1, 500, false}}}};
    return c[k];
}
std::string text(int k)
{
    World w;
    w.dbus("T", "temp", 20);
    for (auto& z : config(k).zones)
    {
        w.zone(z.id, 0, 0, z.ms, 2000);
        for (auto& f : z.fans)
            w.fan(f, 0);
        ec::pidinfo p;
        p.ts = 1;
        p.integralCoeff = z.delta / 20;
        p.integralLimit = {0, 1e6};
        p.outLim = {0, 1e6};
        auto zs = S("L%ld", static_cast<long>(z.id));
        std::vector<std::string> in{"T"};
        if (z.ext)
        {
            w.ext("X", "temp");
            in.push_back("X");
        }
        w.loop(z.id, "T" + zs, "temp", in, directThermal());
        w.loop(z.id, "F" + zs, "fan", z.fans, p);
    }
    return fileOf(w).dump();
}
const std::vector<std::string>& texts()
{
    static const std::vector<std::string> t{text(0), text(1), text(2)};
    return t;
}
// everything any configuration needs is on the bus
struct Env
{
    World wd;
    Env()
    {
        fresh();
        wd.dbus("T", "temp", 20);
        for (auto f : {"FanA", "FanB", "FanC"})
            wd.fan(f, 0);
        // the loops of before are gone when the new ones are built
        bk().onClash = [](const char* path) {
            mc::fail("%s is claimed again while it is still held", path);
        };
    }
};

// In [from, to] exactly the loops of this configuration run, one each.
void judge(int k, int64_t from, int64_t to)
{
    std::map<std::string, std::vector<Write>> w;
    for (auto& x : fanWrites())
        if (x.t > from && x.t <= to)
            w[x.fan].push_back(x);
    std::set<std::string> objects;
    for (auto& z : config(k).zones)
    {
        auto zs = S("L%ld", static_cast<long>(z.id));
        objects.insert(zonePath(z.id));
        objects.insert(zonePath(z.id) + "/T" + zs);
        if (z.ext)
            objects.insert("/xyz/openbmc_project/extsensors/temp/X");
        for (auto& f : z.fans)
        {
            auto v = std::move(w[f]);
            w.erase(f);
            mc::compare(v.size() + 1);
            auto due = static_cast<size_t>((to - from) / (z.ms * vt::ms));
            if (v.size() + 1 < due || v.size() > due + 1)
                mc::fail("zone %ld: %zu commands to %s in %ld s, expected %zu "
                         "(one per %d ms)",
                         static_cast<long>(z.id), v.size(), f.c_str(),
                         static_cast<long>((to - from) / vt::sec), due, z.ms);
            for (size_t i = 1; i < v.size(); ++i)
            {
                auto dt = (v[i].t - v[i - 1].t) / vt::ms;
                auto dv = static_cast<double>(v[i].raw) -
                          static_cast<double>(v[i - 1].raw);
                if (dt != z.ms || std::abs(dv - 1000 * z.delta) > 1.5)
                    mc::fail("zone %ld: %s steps by %g after %ld ms, expected "
                             "%g every %d ms",
                             static_cast<long>(z.id), f.c_str(), dv,
                             static_cast<long>(dt), 1000 * z.delta, z.ms);
            }
        }
    }
    for (auto& [f, v] : w)
        mc::fail("%s, which the current configuration does not use, was "
                 "commanded %zu times",
                 f.c_str(), v.size());
    std::set<std::string> pub;
    for (auto& s : bk().servers)
        pub.insert(s.path);
    if (pub != objects)
    {
        std::string a, b;
        for (auto& p : pub)
            a += " " + p;
        for (auto& p : objects)
            b += " " + p;
        mc::fail("published objects:%s; expected:%s", a.c_str(), b.c_str());
    }
    mc::outcome(k);
}


// Where the run ends well after everything settled.
constexpr int64_t settle = 25 * vt::sec, window = 8 * vt::sec;

void requests()
{
    texts(); // (building a text resets the bus)
    Env e;
    static const std::vector<int64_t> gaps{
        0,
        vt::sec / 2,
        vt::sec - 1000,
        vt::sec + 1000,
        5 * vt::sec,
        10 * vt::sec + vt::sec / 2,
        11 * vt::sec - 1000,
        11 * vt::sec + 1000,
        12 * vt::sec,
        22 * vt::sec};
    int current = mc::choose(3, "first configuration");
    writeFile(configPath(), texts()[current]);
    int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "requests");
    int64_t t = mc::choose(2, "first at") ? 3 * vt::sec : -1;
    bool term = false;
    int64_t termAt = 0;
    int reloads = 0;
    for (int i = 0; i < n && !term; ++i)
    {
        if (i)
            t = std::max<int64_t>(t, 0) +
                gaps[mc::choose(i < 3 ? 10 : 4, "gap")];
        int what = mc::choose(4, "request");
        mc::op();
        auto act = [what] {
            if (what < 3)
                writeFile(configPath(), texts()[what]);
            raise(what < 3 ? SIGHUP : SIGTERM);
        };
        if (t < 0) // before the daemon starts
            act();
        else
            vt::at(t, act);
        if (what < 3)
            current = what, ++reloads;
        else
            term = true, termAt = std::max<int64_t>(t, 0);
    }
    t = std::max<int64_t>(t, 0);
    int64_t end = t + settle + window;
    auto o = run({"-c", configPath()}, end,
                 [](int rc) { mc::fail("the program exited with %d", rc); });
    mc::compare(2);
    mc::state(mc::mix(mc::mix(t, n), current * 2 + term));
    if (term)
    {
        mc::cover("termination");
        if (o.kind != Outcome::returned)
            mc::fail("still running %ld s after the termination request",
                     static_cast<long>((end - termAt) / vt::sec));
        if (o.rc != 0)
            mc::fail("main returned %d after a termination request", o.rc);
        if (o.at > termAt + 5 * vt::sec)
            mc::fail("termination took %ld ms",
                     static_cast<long>((o.at - termAt) / vt::ms));
        return;
    }
    if (o.kind != Outcome::running)
        mc::fail("main returned %d without a termination request", o.rc);
    mc::cover(reloads > 1 ? "several reloads" : "reload");
    judge(current, t + settle, end);
}
MC_SUITE("requests", requests, 1 << 20, 1 << 20, true,
         {"termination", "reload", "several reloads"});

// a configuration file that cannot be used ends the program with a failure,
// at the start or on a reload
void broken()
{
    texts();
    Env e;
    auto good = json::parse(texts()[0]);
    static const int kinds = 12;
    int k = mc::choose(kinds, "defect");
    json j = good;
    std::string text;
    switch (k)
    {
        case 0: text = ""; break;
        case 1: text = texts()[0].substr(0, texts()[0].size() / 2); break;
        case 2: text = "{}"; break;
        case 3: j.erase("sensors"); break;
        case 4: j["sensors"] = json::array(); break;
        case 5: j.erase("zones"); break;
        case 6: j["zones"][0].erase("pids"); break;
        case 7: j["zones"][1]["pids"] = json::array(); break;
        case 8: j["zones"] = json::array(); break;
        case 9: j["sensors"][0].erase("type"); break;
        case 10: j["zones"][0]["pids"][0].erase("pid"); break;
        case 11: j["zones"][0]["id"] = "first"; break;
    }
    if (k > 2)
        text = j.dump();
    int64_t at = 0;
    if (mc::choose(2, "when"))
    {
        static const std::vector<int64_t> when{vt::sec / 2, 4 * vt::sec};
        at = mc::pick(when, "reload at");
        writeFile(configPath(), texts()[0]);
        vt::at(at, [text] {
            writeFile(configPath(), text);
            raise(SIGHUP);
        });
    }
    else
        writeFile(configPath(), text);
    mc::op();
    size_t sets = 0;
    vt::at(at + settle - 1, [&] { sets = bk().sets.size(); });
    auto o = run({"-c", configPath()}, at + settle + window, [](int rc) {
        mc::compare();
        if (rc == 0)
            mc::fail("the program exited successfully on a broken "
                     "configuration");
        mc::cover("exit");
        mc::outcome(rc);
    });
    mc::fail("the program %s with a broken configuration (defect %d), %zu fan "
             "commands in 8 s",
             o.kind == Outcome::running ? "keeps running" : "returned", k,
             bk().sets.size() - sets);
}
MC_SUITE("broken", broken, 1 << 20, 1 << 20, true, {"exit"});

// sensors and fan controls that come late: the start (or reload) is retried
// and the loops run once everything is there
void late()
{
    texts();
    Env e;
    struct Part
    {
        std::string svc, path;
        simbus::IfaceMap ifs;
    };
    std::vector<Part> parts;
    auto take = [&](const std::string& svc, const std::string& path) {
        parts.push_back({svc, path, bk().services[svc][path]});
        bk().services[svc].erase(path);
        if (bk().services[svc].empty())
            bk().services.erase(svc);
    };
    int missing = 1 + mc::choose(7, "missing");
    if (missing & 1)
        take(SVC, e.wd.sensors["T"].readPath);
    if (missing & 2)
        take(SVC, e.wd.sensors["FanA"].readPath);
    if (missing & 4)
        take(PWMSVC, e.wd.sensors["FanA"].writePath);
    static const std::vector<int64_t> delays{vt::sec, 12 * vt::sec,
                                             35 * vt::sec};
    int64_t all = 0;
    for (size_t i = 0; i < parts.size(); ++i)
    {
        int64_t d = mc::pick(delays, "appears after");
        all = std::max(all, d);
        vt::at(d, [&, i] {
            bk().services[parts[i].svc][parts[i].path] = parts[i].ifs;
        });
    }
    int current = mc::choose(3, "configuration");
    writeFile(configPath(), texts()[current]);
    int req = mc::choose(4, "reload meanwhile");
    static const std::vector<int64_t> when{0, 2 * vt::sec, 9 * vt::sec,
                                           15 * vt::sec};
    if (req)
        vt::at(when[req], [] { raise(SIGHUP); });
    mc::op();
    int64_t from = std::max(all, when[req]) + settle;
    auto o = run({"-c", configPath()}, from + window,
                 [](int rc) { mc::fail("the program exited with %d", rc); });
    mc::compare();
    if (o.kind != Outcome::running)
        mc::fail("main returned %d", o.rc);
    mc::cover("late start");
    mc::state(mc::mix(mc::mix(missing, all), current * 8 + req));
    judge(current, from, from + window);
}
MC_SUITE("late", late, 1 << 20, 1 << 20, true, {"late start"});

// The daemon is held up (a bus call that takes long) while timers of its
// loops, of a retry and of a request expire: they are all handled at once
// afterwards, in any order the held-up time allows.
void busy()
{
    texts();
    Env e;
    int a = mc::choose(2, "first configuration");
    int b = mc::choose(mc::thorough() ? 3 : 1, "then");
    writeFile(configPath(), texts()[a]);
    // the retry of this one is left pending ...
    vt::at(3 * vt::sec, [] { raise(SIGHUP); });
    // ... while this one succeeds
    vt::at((5000 + 250 * mc::choose(4, "second")) * vt::ms,
           [] { raise(SIGHUP); });
    int64_t third = (12100 + 200 * mc::choose(9, "third")) * vt::ms;
    bool term = mc::choose(2, "termination");
    vt::at(third, [=] {
        writeFile(configPath(), texts()[b]);
        raise(term ? SIGTERM : SIGHUP);
    });
    int64_t block = (12910 + 100 * mc::choose(14, "held up from")) * vt::ms;
    int64_t len = (100 + 300 * mc::choose(6, "for")) * vt::ms;
    vt::at(block, [len] {
        boost::asio::post(io, [len] { vt::advance(len); });
    });
    auto o = run({"-c", configPath()}, 50 * vt::sec,
                 [](int rc) { mc::fail("the program exited with %d", rc); });
    mc::compare();
    mc::op(4);
    mc::state(mc::mix(mc::mix(third, block), len + term));
    if (term)
    {
        if (o.kind != Outcome::returned || o.rc != 0)
            mc::fail("not ended by the termination request");
        if (o.at > third + 5 * vt::sec)
            mc::fail("termination took %ld ms",
                     static_cast<long>((o.at - third) / vt::ms));
        return;
    }
    if (o.kind != Outcome::running)
        mc::fail("main returned %d without a termination request", o.rc);
    judge(b, 42 * vt::sec, 50 * vt::sec);
}
MC_SUITE("busy", busy, 1 << 20, 1 << 20, true, {});

// termination while a start or reload cannot complete
void terminate()
{
    texts();
    Env e;
    int mode = mc::choose(3, "obstacle");
    int current = mc::choose(3, "configuration");
    writeFile(configPath(), texts()[current]);
    if (mode == 1) // never complete
        bk().services[SVC].erase(e.wd.sensors["T"].readPath);
    static const std::vector<int64_t> when{-1,
                                           0,
                                           1000,
                                           vt::sec,
                                           2 * vt::sec + 1000,
                                           3 * vt::sec + 20 * vt::ms,
                                           3 * vt::sec - 20 * vt::ms,
                                           3 * vt::sec,
                                           10 * vt::sec,
                                           13 * vt::sec,
                                           13 * vt::sec - 20 * vt::ms};
    int64_t at = mc::pick(when, "at");
    if (mode == 2) // a reload is under way
        vt::at(2 * vt::sec, [] { raise(SIGHUP); });
    int more = mc::choose(3, "more requests");
    auto sig = [](int s) { return [s] { raise(s); }; };
    mc::op(1 + more);
    if (at < 0)
        raise(SIGTERM);
    else
        vt::at(at, sig(SIGTERM));
    if (more)
        vt::at(std::max<int64_t>(at, 0) + 10 * vt::ms,
               sig(more == 1 ? SIGTERM : SIGHUP));
    auto o = run({"-c", configPath()}, 40 * vt::sec,
                 [](int rc) { mc::fail("the program exited with %d", rc); });
    mc::compare(2);
    if (o.kind != Outcome::returned || o.rc != 0)
        mc::fail("termination requested at %ld ms: %s %d",
                 static_cast<long>(at / vt::ms),
                 o.kind == Outcome::running ? "still running"
                                            : "main returned",
                 o.rc);
    if (o.at > std::max<int64_t>(at, 0) + 5 * vt::sec)
        mc::fail("termination took %ld ms",
                 static_cast<long>((o.at - at) / vt::ms));
    mc::cover("termination");
    mc::outcome(o.at - at);
    mc::state(mc::mix(mode * 3 + more, at));
}
MC_SUITE("terminate", terminate, 1 << 20, 1 << 20, true, {"termination"});
} // namespace

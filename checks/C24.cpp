//@technique exhaustive enumeration of sensor/mode histories cut at every cycle by a tear-down of the loops (both build variants), and of reload/termination/exit of the real main()
//@level model_checking
//@sources +main
//@variant base
//@variant offline OFFLINE_FAILSAFE_PWM=1
//@budget 90 700
//@assume fans accept commands during the tear-down, except in the suite that makes one of them refuse
#include "config.h"
#define DAEMON_WORLD 1
#include "daemon.hpp"

using namespace dm;

namespace
{
constexpr bool offline = OFFLINE_FAILSAFE_PWM;

struct Scene
{
    World wd;
    std::string file;
    std::map<std::string, bool> bad;
    int64_t t = 0;
    static constexpr int64_t A = 3, B = 30;
    double pctA = 60, pctB = 75;

    Scene(double a, double b) : pctA(a), pctB(b)
    {
        wd.zone(A, 5, pctA, 1000, 1000);
        wd.zone(B, 5, pctB, 1000, 1000);
        wd.fan("F1");
        wd.fan("F2", 1000, 0, 255);
        wd.fan("F3", 1000, 20, 240);
        wd.fan("F4");
        wd.fan("G1");
        file = mc::scratch() + "/sys/pwm4";
        mkdir((mc::scratch() + "/sys").c_str(), 0755);
        std::ofstream(file) << "77";
        wd.sensors["F4"].writePath = file;
        wd.dbus("T1", "temp", 30);
        wd.dbus("T2", "temp", 20);
        wd.dbus("T3", "temp", 25);
        wd.loop(A, "L1", "temp", {"T1"}, directThermal(), 0, 35.5);
        wd.loop(A, "L2", "temp", {"T2"}, directThermal(), 0, 0);
        wd.stepwise(A, "L3", {"T3"}, {0, 30}, {10, 40}).failSafePercent = 80;
        wd.loop(B, "L1", "temp", {"T1"}, directThermal(), 0, 45);
        wd.loop(A, "FA", "fan", {"F1", "F2"}, directFan(), 0, 90);
        wd.loop(A, "FB", "fan", {"F3", "F4"}, directFan());
        wd.loop(B, "FG", "fan", {"G1"}, directFan());
    }
    // the duty the loops of a zone leave behind
    double duty(int64_t zone)
    {
        auto is = [&](const char* n) { return bad[n]; };
        double z = zone == A ? pctA : pctB, m = 0;
        bool any = false;
        auto in = [&](const char* n, double p) {
            if (is(n))
            {
                any = true;
                m = std::max(m, p ? p : z);
            }
        };
        if (zone == A)
        {
            in("T1", 35.5);
            in("T2", 0);
            in("T3", 80);
            in("F1", 90);
            in("F2", 90);
            in("F3", 0);
            in("F4", 0);
        }
        else
        {
            in("T1", 45);
            in("G1", 0);
        }
        return any ? m : z;
    }
    void fail(const std::string& n)
    {
        bad[n] = !bad[n];
        wd.functional(n, !bad[n]);
    }
    std::string fileText()
    {
        std::ifstream i(file);
        std::string s;
        i >> s;
        return s;
    }
    int64_t rawFor(const std::string& f, double pct)
    {
        return f == "F2"   ? rawOf(pct, 0, 255)
               : f == "F3" ? rawOf(pct, 20, 240)
                           : rawOf(pct);
    }
};

void judge(Scene& s, size_t mark, const char* when,
           const std::string& refuses = "", bool files = true)
{
    auto ws = fanWrites(mark);
    if (!offline)
    {
        mc::compare(2);
        if (!ws.empty())
            mc::fail("%s: stopping commanded %s to %lu although the option is "
                     "off",
                     when, ws[0].fan.c_str(), (unsigned long)ws[0].raw);
        return;
    }
    for (auto& [z, fans] : std::map<int64_t, std::vector<std::string>>{
             {Scene::A, {"F1", "F2", "F3"}}, {Scene::B, {"G1"}}})
        for (auto& f : fans)
        {
            mc::compare(1);
            double d = s.duty(z);
            int64_t want = s.rawFor(f, d);
            const Write* last = nullptr;
            for (auto& w : ws)
                if (w.fan == f)
                    last = &w;
            // a fan that holds the duty already need not get it again
            if (!last && f != refuses &&
                static_cast<int64_t>(s.wd.target(f)) == want)
                continue;
            if (!last)
                mc::fail("%s: fan %s of zone %d received nothing, holds %lu, "
                         "expected the failsafe duty %g%% (%ld)",
                         when, f.c_str(), (int)z,
                         (unsigned long)s.wd.target(f), d, (long)want);
            if (static_cast<int64_t>(last->raw) != want)
                mc::fail("%s: fan %s of zone %d was left at %lu, expected the "
                         "failsafe duty %g%% (%ld)",
                         when, f.c_str(), (int)z, (unsigned long)last->raw, d,
                         (long)want);
            if (f != refuses && static_cast<int64_t>(s.wd.target(f)) != want)
                mc::fail("%s: fan %s holds %lu", when, f.c_str(),
                         (unsigned long)s.wd.target(f));
            mc::cover("left at failsafe");
        }
    if (files)
    {
        mc::compare(1);
        double d = s.duty(Scene::A);
        if (s.fileText() != std::to_string(rawOf(d)))
            mc::fail("%s: file-backed fan left at '%s', expected %g%% (%ld)",
                     when, s.fileText().c_str(), d, (long)rawOf(d));
    }
}

// every history of failures, recoveries, modes and hand-set duties, cut by a
// tear-down after every number of cycles
void histories()
{
    w::noBuses = false;
    static const std::vector<double> pa{60, 0, 33.3};
    Scene s(mc::pick(pa, "zone percentage"), 75);
    s.wd.build();
    int cycles = mc::choose(mc::thorough() ? 5 : 4, "cycles");
    s.wd.start();
    s.wd.runUntil(s.t = vt::sec);
    bool manual = false;
    for (int i = 0; i < cycles; ++i)
    {
        mc::op();
        switch (mc::choose(11, "event"))
        {
            case 0: break;
            case 1: s.fail("T1"); break;
            case 2: s.fail("T2"); break;
            case 3: s.fail("T3"); break;
            case 4: s.fail("F1"); break;
            case 5: s.fail("F4"); break;
            case 6: s.fail("G1"); break;
            case 7: // the computed duty is the failsafe duty
                s.wd.value("T1", 75);
                break;
            case 8: s.wd.value("T2", s.pctA); break;
            case 9:
                s.wd.manual(Scene::A, manual = !manual);
                if (manual)
                    break;
                break;
            case 10: // somebody sets a duty by hand
                s.wd.handSet("F1", 4711);
                s.wd.handSet("G1", 815);
                std::ofstream(s.file) << "66";
                break;
        }
        // in manual mode nothing is evaluated: let the mode end before the
        // sensors change again
        s.wd.runUntil(s.t += vt::sec);
        if (manual)
        {
            mc::cover("manual");
            break;
        }
    }
    if (cycles > 0 && manual)
    {
        s.wd.handSet("F2", 12);
        s.wd.handSet("F1", 4711);
    }
    size_t mark = bk().sets.size();
    std::string before = s.fileText();
    s.wd.stop();
    if (!offline)
    {
        mc::compare(1);
        if (s.fileText() != before)
            mc::fail("stopping rewrote a fan's file");
    }
    judge(s, mark, "tear-down");
    mc::cover("torn down");
    mc::state(mc::hashD(s.duty(Scene::A), manual * 7 + cycles));
    mc::outcome(mc::hashD(s.duty(Scene::B), 1));
}
MC_SUITE("histories", histories, 1 << 20, 1 << 20, true,
         {"torn down", "manual"});

// one fan refuses its last command: all others still receive theirs
void refused()
{
    w::noBuses = false;
    Scene s(60, 75);
    s.wd.build();
    s.wd.start();
    s.wd.runUntil(s.t = vt::sec);
    if (mc::choose(2, "failure"))
        s.fail("T3");
    s.wd.runUntil(s.t += vt::sec);
    static const std::vector<std::string> fans{"F1", "F2", "F3", "G1"};
    auto who = mc::pick(fans, "fan");
    int err = mc::choose(2, "error") ? ETIMEDOUT : EIO;
    bk().fault = [&](const simbus::CallInfo& c) {
        return c.path == World::pwmPath(who) ? err : 0;
    };
    mc::op();
    size_t mark = bk().sets.size();
    s.wd.stop();
    bk().fault = nullptr;
    judge(s, mark, "tear-down with a refusing fan", who);
    mc::cover("refused");
    mc::state(mc::hashS(who, err));
    mc::outcome(1);
}
MC_SUITE("refused", refused, 1 << 20, 1 << 20, true, {"refused"});

// the real main(): reload, termination and a reload of an unusable file
void program()
{
    w::noBuses = true;
    std::string text2 = [] {
        Scene n(22, 23);
        return fileOf(n.wd).dump();
    }();
    Scene s(60, 75);
    writeFile(configPath(), fileOf(s.wd).dump());
    static const std::vector<int64_t> when{
        2 * vt::sec + 500 * vt::ms, 3 * vt::sec, 2 * vt::sec + 10 * vt::ms,
        3 * vt::sec - 20 * vt::ms,  4 * vt::sec + 970 * vt::ms};
    int64_t at = mc::pick(when, "at");
    int how = mc::choose(4, "how"); // 0 TERM 1 HUP 2 HUP broken 3 HUP, changed
    int pre = mc::choose(6, "history");
    if (pre)
        vt::at(vt::sec + 200 * vt::ms, [&] {
            if (pre == 1)
                s.fail("T3");
            else if (pre == 2)
                s.fail("T1");
            else if (pre == 3)
                s.wd.value("T1", 60); // as the failsafe duty
            else if (pre == 4)
            {
                s.wd.manual(Scene::A, true);
                s.wd.handSet("F1", 4711);
            }
            else
                s.fail("F1");
        });
    size_t mark = 0;
    std::map<std::string, uint64_t> held;
    vt::at(at, [&] {
        mark = bk().sets.size();
        for (auto f : {"F1", "F2", "F3", "G1"})
            held[f] = s.wd.target(f);
        if (how == 2)
            writeFile(configPath(), "{ \"sensors\": ");
        if (how == 3) // the new loops have other percentages
            writeFile(configPath(), text2);
        raise(how ? SIGHUP : SIGTERM);
    });
    mc::op();
    auto verdict = [&](const char* w) {
        // what the new loops send comes after the last command of the old ones
        auto ws = fanWrites(mark);
        if (!offline)
            return;
        for (auto& [z, fans] : std::map<int64_t, std::vector<std::string>>{
                 {Scene::A, {"F1", "F2", "F3"}}, {Scene::B, {"G1"}}})
            for (auto& f : fans)
            {
                mc::compare(1);
                int64_t want = s.rawFor(f, s.duty(z));
                bool got = static_cast<int64_t>(held[f]) == want;
                for (auto& x : ws)
                    got |= x.fan == f && static_cast<int64_t>(x.raw) == want;
                if (!got)
                    mc::fail("%s: fan %s never received the failsafe duty %g%%",
                             w, f.c_str(), s.duty(z));
            }
    };
    auto end = [&](const char* w) {
        verdict(w);
        mc::cover(w);
        mc::state(mc::mix(how * 8 + pre, at));
        mc::outcome(how * 8 + pre);
    };
    auto o = run({"-c", configPath()}, 40 * vt::sec, [&](int rc) {
        if (how != 2)
            mc::fail("the program exited with %d", rc);
        if (offline)
            judge(s, mark, "exit");
        end("exit");
    });
    if (how == 0)
    {
        if (o.kind != Outcome::returned)
            mc::fail("not terminated");
        if (offline)
            judge(s, mark, "termination");
        else
        {
            for (auto& w : fanWrites(mark))
                if (w.t > at)
                    mc::fail("termination commanded %s", w.fan.c_str());
        }
        end("termination");
    }
    else if (how == 2)
        mc::fail("an unusable file did not end the program");
    else
        end("reload");
}
MC_SUITE("program", program, 1 << 20, 1 << 20, true,
         {"termination", "reload", "exit"});
} // namespace

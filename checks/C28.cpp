//@technique exhaustive enumeration of input, set point, time-step and re-initialisation histories of real loops, every log row compared with an independent computation; differential runs of whole worlds and of the program with logging on, off and unusable
//@level model_checking
//@budget 80 600
//@sources +main
//@assume loops have distinct names; the wall clock does not step backwards
#define DAEMON_WORLD 1
#include "daemon.hpp"
#include "pidprobe.hpp"
#include "world.hpp"

#include <filesystem>
#include <sstream>

using namespace w;
using namespace dm;
namespace fs = std::filesystem;

namespace
{
using Row = std::map<std::string, double>;

// an independent computation of one evaluation, in the log's terms
struct Law
{
    ec::pidinfo p;
    double integral = 0, lastOutput = 0, lastError = 0;
    bool first = true;
    static double clip(double v, double lo, double hi)
    {
        return v < lo ? lo : v > hi ? hi : v;
    }
    double used = NaN;
    Row operator()(double sp, double in)
    {
        if (p.positiveHysteresis || p.negativeHysteresis)
        {
            if (std::isnan(used) || in - used > p.positiveHysteresis ||
                used - in > p.negativeHysteresis)
                used = in;
            in = used;
        }
        double e = sp - in, i1 = 0, i2 = 0;
        if (p.integralCoeff != 0)
        {
            i1 = integral + e * p.integralCoeff * p.ts;
            i2 = clip(i1, p.integralLimit.min, p.integralLimit.max);
        }
        double P = p.proportionalCoeff * e;
        double D = p.derivativeCoeff * ((e - lastError) / p.ts);
        double F = (sp + p.feedFwdOffset) * p.feedFwdGain;
        double o1 = P + i2 + D + F;
        double o2 = clip(o1, p.outLim.min, p.outLim.max), o3 = o2;
        double lo = 0, hi = 0, i3 = i2;
        if (!first && p.slewNeg != 0)
            o3 = std::max(o3, lo = lastOutput + p.slewNeg * p.ts);
        if (!first && p.slewPos != 0)
            o3 = std::min(o3, hi = lastOutput + p.slewPos * p.ts);
        if (!first && (p.slewNeg != 0 || p.slewPos != 0))
            i3 = o3 - P;
        integral = clip(i3, p.integralLimit.min, p.integralLimit.max);
        lastOutput = o3;
        lastError = e;
        first = false;
        return {{"input", in},        {"setpoint", sp},
                {"error", e},         {"proportionalTerm", P},
                {"integralTerm1", i1}, {"integralTerm2", i2},
                {"derivativeTerm", D}, {"feedFwdTerm", F},
                {"output1", o1},      {"output2", o2},
                {"minOut", lo},       {"maxOut", hi},
                {"integralTerm3", i3}, {"output3", o3},
                {"integralTerm", integral}, {"output", o3}};
    }
};

std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> out{""};
    for (char c : s)
        if (c == ',')
            out.emplace_back();
        else
            out.back() += c;
    return out;
}
bool shows(const std::string& text, double v)
{
    if (std::isnan(v))
        return text.find("nan") != std::string::npos;
    char* end = nullptr;
    double g = strtod(text.c_str(), &end);
    if (text.empty() || *end)
        return false;
    return std::fabs(g - v) <= 1e-5 * std::fabs(v) + 1e-12;
}
std::vector<std::string> lines(const std::string& path, size_t from = 0)
{
    std::ifstream f(path);
    f.seekg(static_cast<std::streamoff>(from));
    std::vector<std::string> out;
    for (std::string l; std::getline(f, l);)
    {
        if (f.eof())
            mc::fail("%s ends within a line", path.c_str());
        out.push_back(l);
    }
    return out;
}
size_t sizeOf(const std::string& path)
{
    std::error_code ec;
    auto n = fs::file_size(path, ec);
    return ec ? 0 : n;
}

struct Stamped
{
    int64_t at;
    Row row;
};
// compares the rows of a log with the expected ones
void judge(const std::vector<std::string>& header,
           const std::vector<std::string>& got,
           const std::vector<Stamped>& want, const char* what)
{
    for (size_t i = 0; i < got.size(); ++i)
    {
        auto c = split(got[i]);
        if (c.size() != header.size())
            mc::fail("%s: row of %zu columns under %zu headings: %s", what,
                     c.size(), header.size(), got[i].c_str());
        if (i >= want.size())
            mc::fail("%s: superfluous row (%zu instead of %zu): %s", what,
                     got.size(), want.size(), got[i].c_str());
        if (c[0] != std::to_string(want[i].at))
            mc::fail("%s: row %zu is of %s instead of %ld", what, i,
                     c[0].c_str(), static_cast<long>(want[i].at));
        for (size_t k = 1; k < c.size(); ++k)
        {
            auto it = want[i].row.find(header[k]);
            mc::compare();
            if (it != want[i].row.end() && !shows(c[k], it->second))
                mc::fail("%s: row %zu: %s is %s instead of %g", what, i,
                         header[k].c_str(), c[k].c_str(), it->second);
        }
    }
    if (got.size() < want.size())
        mc::fail("%s: %zu rows instead of %zu", what, got.size(),
                 want.size());
}
std::vector<std::string> headerOf(const std::string& line,
                                  const std::vector<const char*>& need,
                                  const char* what)
{
    auto h = split(line);
    if (h.empty() || h[0] != "epoch_ms")
        mc::fail("%s has no header: %s", what, line.c_str());
    for (auto* n : need)
        if (std::count(h.begin(), h.end(), n) != 1)
            mc::fail("%s: no single column %s in %s", what, n, line.c_str());
    return h;
}
const std::vector<const char*> coreColumns{
    "input",         "setpoint",     "error",          "proportionalTerm",
    "integralTerm1", "integralTerm2", "derivativeTerm", "feedFwdTerm",
    "output1",       "output2",      "minOut",         "maxOut",
    "integralTerm3", "output3",      "integralTerm",   "output"};
Row coeffRow(const ec::pidinfo& p)
{
    return {{"ts", p.ts},
            {"integral", 0},
            {"lastOutput", 0},
            {"proportionalCoeff", p.proportionalCoeff},
            {"integralCoeff", p.integralCoeff},
            {"derivativeCoeff", p.derivativeCoeff},
            {"feedFwdOffset", p.feedFwdOffset},
            {"feedFwdGain", p.feedFwdGain},
            {"integralLimit.min", p.integralLimit.min},
            {"integralLimit.max", p.integralLimit.max},
            {"outLim.min", p.outLim.min},
            {"outLim.max", p.outLim.max},
            {"slewNeg", p.slewNeg},
            {"slewPos", p.slewPos},
            {"positiveHysteresis", p.positiveHysteresis},
            {"negativeHysteresis", p.negativeHysteresis}};
}
const std::vector<const char*> coeffColumns{
    "ts", "proportionalCoeff", "integralCoeff", "derivativeCoeff",
    "feedFwdOffset", "feedFwdGain", "integralLimit.min", "integralLimit.max",
    "outLim.min", "outLim.max", "slewNeg", "slewPos", "positiveHysteresis",
    "negativeHysteresis"};

constexpr int64_t heartbeat = 60000;

// one logged loop beside its reference
struct Watched
{
    std::string name, dir;
    std::unique_ptr<pp::Loop> loop;
    Law law;
    std::vector<Stamped> core, coeffs;
    std::optional<Stamped> last;
    bool pending = false;
    size_t from = 0, fromC = 0;
    std::vector<std::string> hCore, hCoeff;

    std::string file(const char* kind)
    {
        return dir + "/" + kind + "." + name;
    }
    void init(const ec::pidinfo& p)
    {
        loop = std::make_unique<pp::Loop>(name, p);
        law = Law{p};
        pending = true;
    }
    void step(double sp, double in)
    {
        if (pending)
        {
            coeffs.push_back({vt::epochMs(), coeffRow(law.p)});
            pending = false;
            last.reset();
        }
        auto r = law(sp, in);
        double out = loop->step(sp, in);
        mc::op();
        if (!mc::near(out, r["output"]))
            mc::fail("%s: output %g instead of %g while logged", name.c_str(),
                     out, r["output"]);
        Stamped s{vt::epochMs(), r};
        if (!last || last->row != r || s.at - last->at >= heartbeat)
        {
            if (last && last->row == r)
                mc::cover("heartbeat");
            core.push_back(s);
            last = s;
        }
        else
            mc::cover("suppressed");
    }
    // rows since `from`; at the very first, with the header
    void look(bool fresh)
    {
        auto l = lines(file("pidcore"), from), c = lines(file("pidcoeffs"),
                                                         fromC);
        if (fresh)
        {
            if (l.empty() || c.empty())
                mc::fail("no header in the logs of %s", name.c_str());
            hCore = headerOf(l[0], coreColumns, "pidcore");
            hCoeff = headerOf(c[0], coeffColumns, "pidcoeffs");
            l.erase(l.begin());
            c.erase(c.begin());
        }
        judge(hCore, l, core, "pidcore");
        judge(hCoeff, c, coeffs, "pidcoeffs");
    }
};
uint64_t hash(const Watched& w)
{
    uint64_t h = mc::hashD(w.law.integral, 3);
    h = mc::hashD(w.law.lastOutput, h);
    h = mc::hashD(w.law.lastError, h);
    return mc::mix(h, w.last ? vt::epochMs() - w.last->at : -1);
}

const std::vector<ec::pidinfo>& infos()
{
    static const std::vector<ec::pidinfo> v = [] {
        std::vector<ec::pidinfo> v(4);
        v[0].ts = 1;
        v[0].proportionalCoeff = -1;
        v[0].outLim = {-100, 100};
        v[1].ts = 0.5;
        v[1].proportionalCoeff = 0.25;
        v[1].integralCoeff = 2;
        v[1].integralLimit = {-5, 8};
        v[1].outLim = {-50, 60};
        v[2].ts = 0.1;
        v[2].proportionalCoeff = -2;
        v[2].integralCoeff = -0.5;
        v[2].derivativeCoeff = 0.75;
        v[2].feedFwdOffset = 3;
        v[2].feedFwdGain = 1.5;
        v[2].integralLimit = {-20, 20};
        v[2].outLim = {10, 90};
        v[2].slewNeg = -5;
        v[2].slewPos = 15;
        v[3].ts = 2;
        v[3].feedFwdGain = 1;
        v[3].feedFwdOffset = -7;
        v[3].outLim = {0, 1e9};
        v[3].slewPos = 1e6;
        // (an input within 10 of the used one is not used)
        v[3].positiveHysteresis = v[3].negativeHysteresis = 10;
        v[3].proportionalCoeff = 0.5;
        return v;
    }();
    return v;
}

// every history of one loop
void rows()
{
    static bool first = true;
    std::string dir = mc::scratch() + "/core";
    Watched wt;
    wt.name = "loopZ9";
    wt.dir = dir;
    static std::vector<std::string> hc, hf;
    if (first)
    {
        fs::remove_all(dir);
        fs::create_directories(dir);
        coreLoggingEnabled = true;
        loggingPath = dir;
        wt.init(infos()[2]);
        wt.step(3, 4);
        wt.look(true);
        hc = wt.hCore;
        hf = wt.hCoeff;
        first = false;
    }
    wt.hCore = hc;
    wt.hCoeff = hf;
    wt.core.clear();
    wt.coeffs.clear();
    for (auto* k : {"pidcore", "pidcoeffs"})
        if (sizeOf(wt.file(k)) > 100000 && truncate(wt.file(k).c_str(), 0))
            mc::fail("truncate");
    // (the daemon's file position stays; what precedes becomes a hole)
    static size_t posCore = sizeOf(wt.file("pidcore")),
                  posCoeff = sizeOf(wt.file("pidcoeffs"));
    wt.from = posCore;
    wt.fromC = posCoeff;
    // an earlier history, whose log this one continues, is long over
    static int64_t later = 0;
    vt::advance(later += 1000 * vt::sec);
    int which = mc::choose(static_cast<int>(infos().size()), "loop");
    wt.init(infos()[which]);
    static const std::vector<double> ins{40, 40 + 1e-9, 55}, sps{50, 44};
    static const std::vector<int64_t> dts{100, 59999, 60000};
    double in = 40, sp = 50;
    wt.step(sp, in);
    int depth = mc::thorough() ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        int o = mc::choose(3 * 4 + 2, "step");
        if (o >= 12)
        {
            // as a reload does, with another configuration or the same
            auto p = infos()[which];
            if (o == 12)
                p.outLim.max += 11;
            wt.init(p);
            vt::advance(100 * vt::ms);
        }
        else
        {
            vt::advance(dts[o / 4] * vt::ms);
            if (o % 4 < 3)
                in = ins[o % 4];
            else
                sp = sp == sps[0] ? sps[1] : sps[0];
        }
        wt.step(sp, in);
        mc::state(hash(wt));
    }
    posCore = sizeOf(wt.file("pidcore"));
    posCoeff = sizeOf(wt.file("pidcoeffs"));
    wt.look(false);
    mc::outcome(mc::mix(wt.core.size(), mc::hashD(wt.law.lastOutput, 1)));
}
MC_SUITE("rows", rows, 1 << 20, 1 << 20, false, {"heartbeat", "suppressed"});

// several loops: each has its own logs; unusable names and places disable
// only the log concerned
struct Name
{
    std::string name, clean;
};
void loops()
{
    std::string dir = mc::scratch() + "/loops";
    fs::remove_all(dir);
    fs::create_directories(dir);
    coreLoggingEnabled = mc::choose(2, "core logging");
    bool on = coreLoggingEnabled;
    static const std::vector<Name> names{
        {"fan1", "fan1"},   {"fan 1", "fan1"}, {"f-a/n_1", "fan1"},
        {"../Die Temp.0", "DieTemp0"}, {"_/ .", ""}, {"", ""},
        {"Z", "Z"}};
    // what is in the way of the first loop's logs
    int trouble = on ? mc::choose(6, "trouble") : 0;
    loggingPath = trouble == 1 ? dir + "/missing" : dir;
    std::vector<Watched> ws(3);
    std::set<std::string> taken, used;
    std::vector<bool> logged;
    std::vector<int> chosen;
    for (auto& wt : ws)
    {
        int k = mc::choose(static_cast<int>(names.size()), "name");
        if (used.contains(names[k].name))
            return; // (assumed distinct)
        used.insert(names[k].name);
        chosen.push_back(k);
    }
    auto obstruct = [&](const std::string& f) {
        if (trouble == 4)
            fs::create_symlink("/dev/full", f);
        else
            fs::create_directories(f + "/x");
    };
    auto blockedName = names[chosen[0]].clean;
    if (trouble >= 2 && !blockedName.empty())
    {
        if (trouble == 2 || trouble == 4)
            obstruct(dir + "/pidcore." + blockedName);
        if (trouble == 3 || trouble == 4)
            obstruct(dir + "/pidcoeffs." + blockedName);
        if (trouble == 5)
        {
            // left over from an earlier run
            writeFile(dir + "/pidcore." + blockedName, "old\nstuff\n");
            writeFile(dir + "/pidcoeffs." + blockedName,
                      std::string(5000, 'x'));
        }
    }
    for (int i = 0; i < 3; ++i)
    {
        auto& nm = names[chosen[i]];
        ws[i].name = nm.name;
        ws[i].dir = dir;
        bool ok = on && !nm.clean.empty() && !taken.contains(nm.clean) &&
                  trouble != 1 &&
                  !(trouble >= 2 && trouble <= 4 && nm.clean == blockedName);
        logged.push_back(ok);
        if (ok)
            taken.insert(nm.clean);
        ws[i].init(infos()[i]);
    }
    static const std::vector<double> ins{40, 55};
    double in = 40;
    int depth = 3;
    for (int i = 0; i < depth; ++i)
    {
        for (auto& wt : ws)
            wt.step(50, in); // (checks the output)
        int o = mc::choose(3, "step");
        vt::advance(o == 2 ? vt::sec * 60 : vt::ms * 100);
        if (o == 1)
            in = ins[in == ins[0]];
        if (o == 2)
            ws[1].init(infos()[1]); // reload
    }
    for (int i = 0; i < 3; ++i)
    {
        mc::compare();
        if (!logged[i])
        {
            mc::cover("not logged");
            continue;
        }
        mc::cover("logged");
        auto& wt = ws[i];
        wt.name = names[chosen[i]].clean; // the file's name
        wt.look(true);
    }
    // and nothing else
    std::set<std::string> want, got;
    for (auto& n : taken)
        for (auto* k : {"pidcore.", "pidcoeffs."})
            want.insert(k + n);
    for (auto& e : fs::directory_iterator(dir))
    {
        auto f = e.path().filename().string();
        if (f.substr(f.find('.') + 1) != blockedName)
            got.insert(f);
    }
    for (auto* k : {"pidcore.", "pidcoeffs."})
        want.erase(k + blockedName);
    if (want != got)
        mc::fail("%zu log files instead of %zu", got.size(), want.size());
    mc::outcome(mc::mix(want.size(), trouble));
}
MC_SUITE("loops", loops, 1 << 20, 1 << 20, true, {"logged", "not logged"});

// the same history with and without logging
struct Seen
{
    std::vector<std::tuple<int64_t, std::string, uint64_t>> writes;
    std::vector<std::string> published;
    bool operator==(const Seen&) const = default;
};
Seen scene(const std::vector<int>& steps, bool zoneLog, bool coreLog,
           const std::string& path, bool debug = false)
{
    World wd;
    debugEnabled = debug;
    loggingEnabled = zoneLog;
    coreLoggingEnabled = coreLog;
    loggingPath = path;
    wd.dbus("T1", "temp", 40);
    wd.ext("M1", "margin");
    wd.dbus("T2", "temp", 30);
    wd.dbus("T3", "temp", 50, 30); // (stale after the long wait)
    wd.fan("F1", 1000);
    wd.fan("F2", 2000);
    wd.zone(1, 10, 75, 100, 200);
    wd.zone(2, 20, 60, 200, 400);
    auto p = infos()[2];
    wd.loop(1, "temp_loop", "temp", {"T1"}, p, 35);
    auto m = infos()[1];
    m.proportionalCoeff = 2;
    m.outLim = {0, 300};
    auto& margin =
        wd.loop(1, "margin_loop", "margin", {"M1", "T3"}, m, 30, 83);
    margin.inputs[1].convertTempToMargin = true;
    margin.inputs[1].convertMarginZero = 70;
    wd.loop(1, "fan1", "fan", {"F1"}, directFan());
    wd.stepwise(2, "step", {"T1", "T2"}, {20, 40, 60}, {15, 35, 80});
    wd.loop(2, "t2", "temp", {"T2"}, directThermal());
    auto f = directFan(5, 95);
    f.slewPos = 100;
    f.slewNeg = -50;
    wd.loop(2, "fan2", "fan", {"F2"}, f);
    wd.build();
    wd.value("M1", 5);
    wd.start();
    Seen out;
    int64_t t = vt::now();
    auto mark = bk().sets.size();
    for (int s : steps)
    {
        wd.runUntil(t += 400 * vt::ms);
        switch (s)
        {
            case 0:
                wd.value("T1", 63.7);
                break;
            case 1:
                wd.value("T1", 21);
                wd.value("T2", 77);
                break;
            case 2:
                wd.functional("T1", false);
                break;
            case 3:
                wd.value("M1", NaN);
                break;
            case 4:
                wd.manual(1, !wd.manualProp(1));
                break;
            case 5:
                wd.value("M1", 33);
                wd.value("T3", 61);
                break;
            case 6:
                wd.runUntil(t += 61 * vt::sec);
                break;
        }
        for (int z : {1, 2})
            out.published.push_back(
                std::to_string(wd.failsafeProp(z)) + wd.leaderProp(z));
    }
    wd.runUntil(t += 800 * vt::ms);
    for (auto& x : fanWrites(mark))
        out.writes.emplace_back(x.t - wd.started, x.fan, x.raw);
    return out;
}
void control()
{
    std::string dir = mc::scratch() + "/control";
    fs::remove_all(dir);
    fs::create_directories(dir + "/used/pidcore.fan1");
    fs::create_directories(dir + "/used/zone_1.log");
    fs::create_directories(dir + "/full");
    fs::create_directories(dir + "/fine");
    for (auto* n : {"pidcore.fan1", "pidcoeffs.fan1", "pidcore.temploop",
                    "zone_1.log", "zone_2.log"})
        fs::create_symlink("/dev/full", dir + "/full/" + n);
    std::vector<int> steps;
    int depth = mc::thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        int s = mc::choose(7, "event");
        // at most one long wait
        if (s == 6 && std::count(steps.begin(), steps.end(), 6))
            s = 0;
        steps.push_back(s);
    }
    auto base = scene(steps, false, false, "");
    mc::op(depth);
    auto same = [&](const Seen& s, const char* how) {
        mc::compare(base.writes.size() + 1);
        if (base.writes == s.writes && base.published == s.published)
            return;
        size_t i = 0;
        while (i < base.writes.size() && i < s.writes.size() &&
               base.writes[i] == s.writes[i])
            ++i;
        mc::fail("with %s the fan commands differ from the %zu-th on "
                 "(%zu and %zu in all)",
                 how, i, base.writes.size(), s.writes.size());
    };
    // (a process keeps the logs it has opened: one way of logging each)
    int way = mc::choose(8, "logging");
    static const char* ways[]{
        "zone logging",        "core logging",   "zone and core logging",
        "a missing directory", "unusable files", "a full disk",
        "debug messages",      "all of it"};
    static const char* dirs[]{"/fine", "/fine", "/fine", "/missing",
                              "/used", "/full", "/fine", "/fine"};
    bool debug = way >= 6;
    same(scene(steps, way != 1 && way != 6, way > 0 && way != 6,
               dir + dirs[way], debug),
         ways[way]);
    mc::cover(ways[way]);
    mc::outcome(mc::mix(base.writes.size(), way));
    if (way != 1 && way != 2)
        return;
    // the last row of each fan loop shows what the fan was sent
    for (auto [fan, want] : {std::pair{"fan1", "F1"}, {"fan2", "F2"}})
    {
        auto l = lines(dir + "/fine/pidcore." + fan);
        if (l.size() < 2)
            mc::fail("nothing logged for %s", fan);
        auto h = headerOf(l[0], coreColumns, fan);
        auto c = split(l.back());
        if (c.size() != h.size())
            mc::fail("row of %zu columns under %zu headings", c.size(),
                     h.size());
        double out = NaN;
        for (size_t i = 0; i < h.size(); ++i)
            if (h[i] == "output")
                out = strtod(c[i].c_str(), nullptr);
        // (in failsafe the fans get at least that duty)
        bool seen = false;
        for (auto& [t, f, raw] : base.writes)
            seen |= f == want && std::fabs(raw / 1000.0 - out) < 0.01;
        bool failed = std::count(steps.begin(), steps.end(), 2) ||
                      std::count(steps.begin(), steps.end(), 3) ||
                      std::count(steps.begin(), steps.end(), 6);
        mc::compare();
        if (!seen && !failed)
            mc::fail("%s: logged output %g was never sent", fan, out);
    }
    mc::state(mc::mix(base.writes.size(), way));
}
MC_SUITE("control", control, 1 << 20, 1 << 20, true);

// the program: where the logs are, and that a reload continues them
void daemon()
{
    w::noBuses = true;
    World wd;
    fresh();
    wd.dbus("T1", "temp", 30);
    wd.fan("F1", 0);
    wd.zone(3, 0, 70);
    auto p = infos()[2];
    wd.loop(3, "t_1", "temp", {"T1"}, p, 25);
    wd.loop(3, "f1", "fan", {"F1"}, directFan());
    writeFile(configPath(), fileOf(wd).dump());
    std::string base = mc::scratch() + "/d";
    fs::remove_all(base);
    for (auto* d : {"/etc", "/tmp", "/opt", "/alt", "/root"})
        fs::create_directories(base + d);
    vt::redirect("/etc/thermal.d", base + "/etc");
    // (logs must not end up in the root)
    vt::redirect("/pidcore", base + "/root");
    vt::redirect("/pidcoeffs", base + "/root");
    vt::redirect("/zone_", base + "/root");
    setenv("TMPDIR", (base + "/tmp").c_str(), 1);
    std::vector<std::string> args{"-c", configPath()};
    bool optL = mc::choose(2, "-l"), optG = mc::choose(2, "-g");
    int fileL = mc::choose(4, "logging file");
    bool fileG = mc::choose(2, "corelogging file");
    bool lng = mc::choose(2, "long options");
    if (optL)
    {
        args.push_back(lng ? "--log" : "-l");
        args.push_back(base + "/opt");
    }
    if (optG)
        args.push_back(lng ? "--corelogging" : "-g");
    if (fileL == 1)
        writeFile(base + "/etc/logging", "");
    else if (fileL == 2)
        writeFile(base + "/etc/logging", base + "/alt\n");
    else if (fileL == 3)
        writeFile(base + "/etc/logging", base + "/nowhere\n");
    if (fileG)
        writeFile(base + "/etc/corelogging", "");
    bool zoneLog = optL || fileL, coreLog = optG || fileG;
    std::string place = fileL == 2 ? "/alt" : optL ? "/opt" : "/tmp";
    bool reload = mc::choose(2, "reload");
    int64_t end = vt::now() + vt::sec * 5;
    if (reload)
    {
        vt::at(vt::now() + vt::sec * 4, [] { raise(SIGHUP); });
        end = vt::now() + vt::sec * 30;
    }
    vt::at(vt::now() + vt::sec * 2, [&] { wd.value("T1", 33); });
    auto o = run(args, end);
    if (o.kind != Outcome::running)
        mc::fail("main() returned %d", o.rc);
    std::set<std::string> want, got;
    if (zoneLog)
        want.insert(place + "/zone_3.log");
    if (coreLog)
        for (auto* n : {"pidcore.t1", "pidcoeffs.t1", "pidcore.f1",
                        "pidcoeffs.f1"})
            want.insert(place + "/" + n);
    for (auto* d : {"/tmp", "/opt", "/alt", "/root"})
        for (auto& e : fs::directory_iterator(base + d))
            got.insert(d + ("/" + e.path().filename().string()));
    mc::compare();
    std::string list;
    for (auto& g : got)
        list += " " + g;
    if (want != got)
        mc::fail("the logs are:%s; expected them in %s (-l %d -g %d, logging "
                 "file %d, corelogging file %d)",
                 list.c_str(), place.c_str(), optL, optG, fileL, fileG);
    if (!coreLog)
        return;
    auto c = lines(base + place + "/pidcoeffs.t1");
    std::vector<Stamped> rows;
    if (c.size() != (reload ? 3 : 2))
        mc::fail("%zu lines of coefficients after %s", c.size(),
                 reload ? "a reload" : "the start");
    auto h = headerOf(c[0], coeffColumns, "pidcoeffs");
    c.erase(c.begin());
    for (auto& l : c)
        rows.push_back({std::stoll(l), coeffRow(p)});
    judge(h, c, rows, "pidcoeffs");
    auto l = lines(base + place + "/pidcore.t1");
    auto hc = headerOf(l.empty() ? "" : l[0], coreColumns, "pidcore");
    for (size_t i = 1; i < l.size(); ++i)
    {
        auto x = split(l[i]);
        mc::compare();
        if (x.size() != hc.size() || !isdigit(x[0][0]))
            mc::fail("row %zu of the core log: %s", i, l[i].c_str());
    }
    mc::outcome(mc::mix(l.size(), got.size()));
}
MC_SUITE("daemon", daemon, 1 << 20, 1 << 20, true);
} // namespace

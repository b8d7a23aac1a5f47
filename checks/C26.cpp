//@technique exhaustive enumeration of sequences of relevant and irrelevant bus changes and their spacing against the daemon's real main() with the bus configuration under virtual time
//@level model_checking
//@sources +main+dbusconf
//@budget 150 850
//@assume a reload settles within 25 s of the end of its burst; relevant are property changes of the zone, PID and stepwise configurations and of the selected profile, and sensors appearing or vanishing
#include "daemon.hpp"
#include "dbusconf.hpp"

using namespace dm;
using namespace dc;

namespace
{
struct Env
{
    World wd;
    double off = 10, minimum = 5, step = 3;
    std::string mode = "A";
    bool t2 = false;
    int n = 0;
    std::vector<int64_t> reads, relevant;
    bool mapperDown = false;

    Env()
    {
        manager();
        put("Zone_0", iPidZone, zoneObj("Main Zone", 3, minimum, 0));
        auto f = pidObj("Fans", "fan", {"Main Zone"}, {"Fan 1"}, {"Pwm 1"});
        f["FFGainCoefficient"] = toVal(1.0);
        put("Fans", iPid, f);
        auto l = pidObj("Base", "temp", {"Main Zone"}, {"T1"});
        l["PCoefficient"] = toVal(-1.0);
        l["FFGainCoefficient"] = toVal(1.0);
        l["FFOffCoefficient"] = toVal(off);
        put("Base", iPid, l);
        auto q = l; // only while profile B is selected
        q["Name"] = toVal(std::string("Quiet"));
        q["FFOffCoefficient"] = toVal(40.0);
        q["Profiles"] = toVal(Strings{"B"});
        put("Quiet", iPid, q);
        auto x = l;
        x["Name"] = toVal(std::string("Extra"));
        x["Inputs"] = toVal(Strings{"T2"});
        put("Extra", iPid, x);
        put("Steps", iStep,
            stepObj("Steps", "Floor", {"Main Zone"}, {"T1"}, {0}, {step}));
        bk().services[SVC][sensorPath("temperature", "T1")] =
            sensorIfs("DegreesC", t1);
        bk().services[SVC][sensorPath("fan_tach", "Fan_1")] =
            sensorIfs("RPMS", 1000);
        pwm("Pwm_1");
        bk().services[MODESVC][MODEPATH][iThermalMode]["Current"] =
            toVal(mode);
        bk().fault = [this](const simbus::CallInfo& c) {
            if (c.member != "GetSubTree")
                return 0;
            bool conf = false;
            for (auto& k : c.args->at(2).kids)
                conf |= std::get<std::string>(k.b) == iPid;
            if (conf)
                reads.push_back(vt::now());
            return mapperDown ? EHOSTUNREACH : 0;
        };
    }
    double t1 = 1;
    double t2v = 60;
    double duty() const
    {
        double d = std::max({minimum, off + t1, step});
        if (mode == "B")
            d = std::max(d, 40 + t1);
        if (t2)
            d = std::max(d, 10 + t2v);
        return d;
    }
    void changed(const char* leaf, const char* iface, const char* prop,
                 simbus::Val v)
    {
        bk().propsChanged(EM, cfgPath(leaf), iface, {{prop, std::move(v)}});
    }
    enum
    {
        pidProp,
        zoneProp,
        stepProp,
        profile,
        sensor,
        nRelevant,
        reading = nRelevant,
        assoc,
        elsewhere,
        otherConf,
        goneElsewhere,
        nKinds
    };
    void event(int kind)
    {
        ++n;
        if (kind < nRelevant)
            relevant.push_back(vt::now());
        switch (kind)
        {
            case pidProp:
                changed("Base", iPid, "FFOffCoefficient", toVal(off = 10 + n));
                break;
            case zoneProp:
                changed("Zone_0", iPidZone, "MinThermalOutput",
                        toVal(minimum = 80 + n));
                break;
            case stepProp:
                changed("Steps", iStep, "Output",
                        toVal(std::vector<double>{step = 90 + n}));
                break;
            case profile:
                mode = mode == "A" ? "B" : "A";
                bk().propsChanged(MODESVC, MODEPATH, iThermalMode,
                                  {{"Current", toVal(mode)}});
                break;
            case sensor:
                t2 = !t2;
                if (t2)
                {
                    auto ifs = sensorIfs("DegreesC", t2v);
                    if (n % 2) // with the associations the sensor defines
                        ifs[iAssocDef]["Associations"] = assocs();
                    bk().interfacesAdded(SVC, "/xyz/openbmc_project/sensors",
                                         sensorPath("temperature", "T2"), ifs);
                }
                else
                    bk().interfacesRemoved(
                        SVC, "/xyz/openbmc_project/sensors",
                        sensorPath("temperature", "T2"),
                        {iValue, iAvail, iOper, iAssocDef});
                break;
            case reading:
                bk().propsChanged(SVC, sensorPath("temperature", "T1"), iValue,
                                  {{"Value", toVal(t1 = 1 + n % 2)}});
                break;
            case assoc:
                bk().interfacesAdded(
                    SVC, "/xyz/openbmc_project/sensors",
                    sensorPath("temperature", "T1"),
                    {{iAssocDef, {{"Associations", assocs()}}}}, false);
                break;
            case elsewhere:
                bk().interfacesAdded(
                    "xyz.test.Led", "/xyz/openbmc_project/led",
                    "/xyz/openbmc_project/led/groups/x" + std::to_string(n),
                    {{"xyz.openbmc_project.Led.Group",
                      {{"Asserted", toVal(true)}}}});
                break;
            case otherConf:
                changed("Tmp", "xyz.openbmc_project.Configuration.TMP75",
                        "Address", toVal(static_cast<uint64_t>(n)));
                changed("Tmp2", "xyz.openbmc_project.Configuration.PidFuture",
                        "Name", toVal(std::string("x")));
                break;
            case goneElsewhere:
                bk().interfacesRemoved("xyz.test.Led",
                                       "/xyz/openbmc_project/led",
                                       "/xyz/openbmc_project/led/groups/y",
                                       {"xyz.openbmc_project.Led.Group"},
                                       false);
                break;
        }
    }
    static simbus::Val assocs()
    {
        using A = std::tuple<std::string, std::string, std::string>;
        return toVal(std::vector<A>{{"chassis", "all_sensors", "/x"}});
    }
    // bursts of relevant changes, separated by at least two quiet seconds;
    // `lo` counts those separated by clearly more
    int bursts() const
    {
        int b = 0;
        int64_t last = -100 * vt::sec;
        for (auto t : relevant)
        {
            if (t - last >= 2 * vt::sec)
                ++b;
            last = t;
        }
        return b;
    }
    uint64_t target()
    {
        return wd_target("Pwm_1");
    }
    static uint64_t wd_target(const std::string& f)
    {
        uint64_t v = 0;
        simbus::fromVal(
            bk().services[PWMSVC]["/xyz/openbmc_project/control/fanpwm/" + f]
                         [iPwm]["Target"],
            v);
        return v;
    }
    void judgeDuty(const char* when)
    {
        mc::compare(1);
        int64_t want = rawOf(duty(), 0, 255);
        if (static_cast<int64_t>(target()) != want)
            mc::fail("%s: fan commanded to %lu, the configuration then current "
                     "asks for %g%% (%ld)",
                     when, (unsigned long)target(), duty(), (long)want);
    }
};

// the whole history, started at 40 s, ending with the judgement
void runAll(Env& e, int64_t last, size_t readsBefore, bool exact = true)
{
    int64_t end = last + 35 * vt::sec;
    vt::at(end, [&] {
        e.judgeDuty("after the last change");
        // the loops are alive
        e.t1 += 5;
        bk().propsChanged(SVC, sensorPath("temperature", "T1"), iValue,
                          {{"Value", toVal(e.t1)}});
    });
    auto o = run({}, end + 4 * vt::sec,
                 [](int rc) { mc::fail("the program exited with %d", rc); });
    if (o.kind != Outcome::running)
        mc::fail("main returned %d", o.rc);
    e.judgeDuty("after a new reading");
    mc::compare(2);
    int r = static_cast<int>(e.reads.size() - readsBefore), b = e.bursts();
    if (!exact)
        return;
    if (b == 0 && r)
        mc::fail("%d reloads without a relevant change", r);
    if (b && !r)
        mc::fail("no reload");
    if (r > b)
        mc::fail("%d reloads for %d bursts of changes", r, b);
    mc::cover(b == 0 ? "no reload" : b == 1 ? "one burst" : "several bursts");
    mc::outcome(mc::mix(r, b));
}

const std::vector<int64_t> gaps{0,
                                500 * vt::ms,
                                1990 * vt::ms,
                                2010 * vt::ms,
                                5 * vt::sec,
                                11990 * vt::ms,
                                12050 * vt::ms,
                                30 * vt::sec};

void pairs()
{
    Env e;
    int n = 1 + mc::choose(mc::thorough() ? 3 : 2, "events");
    int64_t t = 40 * vt::sec + 300 * vt::ms;
    uint64_t h = 1;
    for (int i = 0; i < n; ++i)
    {
        if (i)
            t += gaps[mc::choose(gaps.size(), "gap")];
        int k = mc::choose(Env::nKinds, "kind");
        vt::at(t, [&e, k] { e.event(k); });
        h = mc::mix(h, t * 16 + k);
        mc::op();
    }
    vt::at(40 * vt::sec, [&] {
        e.judgeDuty("after start");
        if (e.reads.size() != 1)
            mc::fail("configuration read %zu times at start", e.reads.size());
    });
    mc::state(h);
    runAll(e, t, 1);
    // nothing is reloaded before its burst was quiet for two seconds
    if (e.bursts() == 1 && e.reads.size() == 2 &&
        e.reads[1] < e.relevant.back() + 2 * vt::sec)
        mc::fail("reloaded %ld ms after the last change",
                 (long)((e.reads[1] - e.relevant.back()) / vt::ms));
}
MC_SUITE("pairs", pairs, 1 << 20, 1 << 20, true,
         {"no reload", "one burst", "several bursts"});

void triples()
{
    Env e;
    static const std::vector<int> kinds{Env::pidProp, Env::profile, Env::sensor,
                                        Env::assoc,   Env::zoneProp,
                                        Env::reading};
    static const std::vector<int64_t> few{0, 1990 * vt::ms, 2010 * vt::ms,
                                          5 * vt::sec, 9 * vt::sec,
                                          12050 * vt::ms};
    int64_t t = 40 * vt::sec + 300 * vt::ms;
    uint64_t h = 2;
    int n = mc::thorough() ? 4 : 3;
    for (int i = 0; i < n; ++i)
    {
        if (i)
            t += few[mc::choose(few.size(), "gap")];
        int k = kinds[mc::choose(kinds.size(), "kind")];
        vt::at(t, [&e, k] { e.event(k); });
        h = mc::mix(h, t * 16 + k);
        mc::op();
    }
    mc::state(h);
    runAll(e, t, 1);
    if (e.bursts() == 1 && e.reads.size() == 2 &&
        e.reads[1] < e.relevant.back() + 2 * vt::sec)
        mc::fail("reloaded too early");
}
MC_SUITE("triples", triples, 1 << 20, 1 << 20, true,
         {"no reload", "one burst", "several bursts"});

// a burst of many changes
void burst()
{
    Env e;
    int n = 2 + mc::choose(9, "length");
    int64_t gap = std::vector<int64_t>{0, 100 * vt::ms, 1500 * vt::ms,
                                       1999 * vt::ms}[mc::choose(4, "gap")];
    int mix = mc::choose(4, "mix");
    int64_t t = 40 * vt::sec + 300 * vt::ms;
    for (int i = 0; i < n; ++i)
    {
        int k = mix == 0   ? Env::pidProp
                : mix == 1 ? Env::sensor
                : mix == 2 ? i % Env::nRelevant
                           : i % Env::nKinds;
        vt::at(t, [&e, k] { e.event(k); });
        if (i + 1 < n)
            t += gap;
        mc::op();
    }
    mc::state(mc::mix(n * 4 + mix, gap));
    runAll(e, t, 1, mix != 3);
}
MC_SUITE("burst", burst, 1 << 20, 1 << 20, true, {"one burst"});

// changes before and while the first start is possible
void early()
{
    Env e;
    int why = mc::choose(5, "obstacle");
    if (why == 1) // no sensors yet
        bk().services.erase(SVC);
    else if (why == 2)
        e.mapperDown = true;
    else if (why == 3) // no zone object
        bk().services[EM].erase(cfgPath("Zone_0"));
    std::map<std::string, simbus::IfaceMap> loops;
    if (why == 4) // a zone without loops
        for (auto n : {"Fans", "Base", "Quiet", "Extra", "Steps"})
        {
            loops[n] = bk().services[EM][cfgPath(n)];
            bk().services[EM].erase(cfgPath(n));
        }
    static const std::vector<int64_t> at{0, 1, 1900 * vt::ms, 2100 * vt::ms,
                                         9 * vt::sec, 11 * vt::sec};
    int64_t t1 = mc::pick(at, "change at"),
            t2 = t1 + gaps[mc::choose(gaps.size(), "gap")];
    int k1 = mc::choose(Env::nRelevant, "kind"),
        k2 = mc::choose(Env::nRelevant, "kind");
    bool up = mc::choose(2, "order");
    auto appear = [&] {
        if (why == 1)
        {
            bk().interfacesAdded(SVC, "/xyz/openbmc_project/sensors",
                                 sensorPath("temperature", "T1"),
                                 sensorIfs("DegreesC", e.t1));
            bk().interfacesAdded(SVC, "/xyz/openbmc_project/sensors",
                                 sensorPath("fan_tach", "Fan_1"),
                                 sensorIfs("RPMS", 1000));
        }
        if (why == 2)
            e.mapperDown = false;
        if (why == 3)
            put("Zone_0", iPidZone, zoneObj("Main Zone", 3, e.minimum, 0));
        for (auto& [n, ifs] : loops)
            bk().services[EM][cfgPath(n)] = ifs;
    };
    vt::at(t1, [&] {
        if (up)
            appear();
        bool absent = why == 3   ? k1 == Env::zoneProp
                      : why == 4 ? k1 == Env::pidProp || k1 == Env::stepProp
                                 : false;
        if (!absent || up)
            e.event(k1);
        if (!up)
            appear();
    });
    vt::at(t2, [&] { e.event(k2); });
    mc::op(2);
    mc::state(mc::mix(mc::mix(t1, t2), k1 * 8 + k2 + why * 64));
    runAll(e, t2, 0, false);
    mc::cover(why ? "obstacle" : "no obstacle");
    mc::outcome(why);
}
MC_SUITE("early", early, 1 << 20, 1 << 20, true, {"obstacle", "no obstacle"});
} // namespace

//@technique exhaustive enumeration of redundancy group appearance, status and membership histories against the real group tracker and fan sensors, against a set-of-groups reference
//@level model_checking
//@budget 80 500
//@assume each change of a group is signalled after it took place
#include "world.hpp"

#include "dbus/dbuspassive.hpp"
#include "dbus/dbuspassiveredundancy.hpp"
#include "dbus/dbushelper.hpp"

using namespace w;

namespace
{
constexpr auto MGR = "/xyz/openbmc_project";
constexpr auto RIF = "xyz.openbmc_project.Control.FanRedundancy";
const std::vector<std::string> states{
    "xyz.openbmc_project.Control.FanRedundancy.State.Failed",
    "xyz.openbmc_project.Control.FanRedundancy.State.Full",
    "xyz.openbmc_project.Control.FanRedundancy.State.Degraded"};
const std::vector<std::string> sens{"F1", "F10", "F2", "T"};
std::string pathOf(const std::string& n)
{
    return World::readPathOf(n, n == "T" ? "temp" : "fan");
}
// members of a group; T is a temperature
const std::vector<std::vector<std::string>> members{
    {"F1", "F10"}, {"F10", "F2", "T"}, {"F1"}, {}, {"F2", "F1", "F10"}};

struct Group
{
    bool there = false;
    int state = 1;
    int who = 0;
};
struct Groups
{
    std::map<std::string, Group> g;
    std::map<std::string, std::string> svc;
    std::vector<std::string> names;
    Groups(bool same, int n = 2)
    {
        static const char* ns[] = {"riser", "riser1", "system"};
        for (int i = 0; i < n; ++i)
        {
            names.push_back(S("/xyz/openbmc_project/control/%s", ns[i]));
            g[names[i]];
            svc[names[i]] = same ? "xyz.fans" : S("xyz.fans%d", i);
        }
    }
    simbus::Val paths(int who)
    {
        std::vector<std::string> v;
        for (auto& n : members[who])
            v.push_back(pathOf(n));
        return toVal(v);
    }
    simbus::Val status(int s)
    {
        return toVal(states[s]);
    }
    // (re)publish on the bus without telling anybody
    void put(const std::string& p)
    {
        auto& o = bk().services[svc[p]];
        if (!g[p].there)
        {
            o.erase(p);
            return;
        }
        o[p][RIF]["Status"] = status(g[p].state);
        o[p][RIF]["Collection"] = paths(g[p].who);
        o[p][RIF]["AllowedFailures"] = toVal(uint8_t{1});
    }
    bool failed(const std::string& fan) const
    {
        if (fan == "T")
            return false;
        for (auto& [p, x] : g)
            if (x.there && x.state == 0)
                for (auto& n : members[x.who])
                    if (n == fan)
                        return true;
        return false;
    }
    std::string show() const
    {
        std::string s;
        for (auto& [p, x] : g)
            if (x.there)
            {
                s += S(" %s %s of", p.substr(p.rfind('/') + 1).c_str(),
                       states[x.state].substr(48).c_str());
                for (auto& n : members[x.who])
                    s += " " + n;
                s += ";";
            }
        return s;
    }
    uint64_t hash() const
    {
        uint64_t h = 3;
        for (auto& [p, x] : g)
            h = h * 31 + (x.there ? 1 + x.state * 8 + x.who : 0);
        return h;
    }
    void appear(const std::string& p, int state, int who)
    {
        g[p] = {true, state, who};
        put(p);
        bk().interfacesAdded(svc[p], MGR, p,
                             {{RIF,
                               {{"Status", status(state)},
                                {"Collection", paths(who)},
                                {"AllowedFailures", toVal(uint8_t{1})}}}});
        mc::op();
    }
    void vanish(const std::string& p)
    {
        g[p].there = false;
        put(p);
        bk().interfacesRemoved(svc[p], MGR, p, {RIF});
        mc::op();
    }
    void change(const std::string& p, int state, int who)
    {
        auto& x = g[p];
        std::map<std::string, simbus::Val> m;
        if (state >= 0)
        {
            x.state = state;
            m["Status"] = status(state);
        }
        if (who >= 0)
        {
            x.who = who;
            m["Collection"] = paths(who);
        }
        put(p);
        bk().propsChanged(svc[p], p, RIF, m);
        mc::op();
    }
    int event(int nm)
    {
        auto& p = names[mc::choose(names.size(), "group")];
        auto& x = g[p];
        if (!x.there)
        {
            int k = mc::choose(2 * nm, "appears as");
            appear(p, k % 2, k / 2);
            return 0;
        }
        int k = mc::choose(3 + nm + 2 + 2 + 1, "event");
        if (k < 3)
            change(p, k, -1);
        else if (k < 3 + nm)
            change(p, -1, k - 3);
        else if (k == 3 + nm) // both at once
            change(p, 0, (x.who + 1) % nm);
        else if (k == 4 + nm)
            change(p, 1, (x.who + 1) % nm);
        else if (k == 5 + nm)
            vanish(p);
        else if (k == 6 + nm) // some other interface of the object goes
            bk().interfacesRemoved(svc[p], MGR, p,
                                   {"xyz.openbmc_project.Association."
                                    "Definitions"},
                                   false);
        else // an unrelated property
            bk().propsChanged(svc[p], p, RIF,
                              {{"AllowedFailures", toVal(uint8_t{2})}});
        return k;
    }
    void initially(int nm)
    {
        for (auto& p : names)
        {
            int k = mc::choose(1 + 2 * nm, "initially");
            if (k)
                g[p] = {true, (k - 1) % 2, (k - 1) / 2};
            put(p);
        }
    }
};

void groups()
{
    World wd;
    Groups gs(mc::choose(2, "same service"), mc::thorough() ? 3 : 2);
    int nm = mc::thorough() ? 5 : 4;
    gs.initially(nm);
    for (auto& n : sens)
        if (n != "T")
            wd.dbus(n, "fan", 1000);
    wd.dbus("T", "temp", 30);
    auto red = std::make_shared<DbusPassiveRedundancy>(buses().passive);
    std::map<std::string, std::unique_ptr<ReadInterface>> r;
    for (auto& n : sens)
        r[n] = DbusPassive::createDbusPassive(
            buses().passive, n == "T" ? "temp" : "fan", n,
            std::make_unique<DbusHelper>(buses().passive), &wd.sensors.at(n),
            n == "T" ? nullptr : red);
    auto look = [&] {
        for (auto& n : sens)
        {
            mc::compare();
            if (r[n]->getFailed() != gs.failed(n))
                mc::fail("%s is %s; groups:%s", n.c_str(),
                         gs.failed(n) ? "not failed" : "failed",
                         gs.show().c_str());
            mc::cover(gs.failed(n) ? "failed" : "not failed");
        }
    };
    look();
    int depth = mc::thorough() ? 3 : 2;
    for (int i = 0; i < depth; ++i)
    {
        gs.event(nm);
        look();
        mc::state(gs.hash());
    }
    mc::outcome(gs.hash());
}
MC_SUITE("groups", groups, 1 << 20, 1 << 20, false, {"failed", "not failed"});

// long histories over few memberships
void histories()
{
    World wd;
    Groups gs(true);
    for (auto& n : sens)
        wd.dbus(n, n == "T" ? "temp" : "fan", 1000);
    gs.g[gs.names[0]] = {true, 1, 0};
    gs.g[gs.names[1]] = {true, 1, 1};
    gs.put(gs.names[0]);
    gs.put(gs.names[1]);
    DbusPassiveRedundancy red(buses().passive);
    int depth = mc::thorough() ? 7 : 5;
    for (int i = 0; i < depth; ++i)
    {
        auto& p = gs.names[mc::choose(2, "group")];
        if (!gs.g[p].there)
            gs.appear(p, mc::choose(2, "state"), gs.g[p].who);
        else
        {
            int k = mc::choose(5, "event");
            if (k < 2)
                gs.change(p, k, -1);
            else if (k < 4)
                gs.change(p, -1, k - 2);
            else
                gs.vanish(p);
        }
        std::set<std::string> want;
        for (auto& [q, x] : gs.g)
            if (x.there && x.state == 0)
                for (auto& n : members[x.who])
                    want.insert(pathOf(n));
        mc::compare();
        if (red.getFailed() != want)
            mc::fail("%zu sensors are failed instead of %zu; groups:%s",
                     red.getFailed().size(), want.size(), gs.show().c_str());
        mc::state(gs.hash());
    }
    mc::outcome(gs.hash());
}
MC_SUITE("histories", histories);

// one group cannot be read at start: the others count all the same
void unreadable()
{
    World wd;
    Groups gs(mc::choose(2, "same service"), 3);
    for (auto& n : sens)
        wd.dbus(n, n == "T" ? "temp" : "fan", 1000);
    int bad = mc::choose(3, "unreadable");
    for (int i = 0; i < 3; ++i)
    {
        gs.g[gs.names[i]] = {true, mc::choose(3, "state"), i};
        gs.put(gs.names[i]);
    }
    auto& bp = gs.names[bad];
    bk().fault = [&](const simbus::CallInfo& c) {
        return c.path == bp ? ETIMEDOUT : 0;
    };
    auto red = std::make_unique<DbusPassiveRedundancy>(buses().passive);
    bk().fault = nullptr;
    Group keep = gs.g[bp];
    auto look = [&](const char* when) {
        for (auto& n : sens)
        {
            mc::compare();
            if (n != "T" &&
                static_cast<bool>(red->getFailed().count(pathOf(n))) !=
                    gs.failed(n))
                mc::fail("%s is %s %s; groups:%s", n.c_str(),
                         gs.failed(n) ? "not failed" : "failed", when,
                         gs.show().c_str());
        }
    };
    gs.g[bp].there = false; // as far as the program can know
    look("although its group could be read");
    gs.g[bp] = keep;
    gs.change(bp, mc::choose(3, "later"), -1);
    look("after the group's next change");
    mc::outcome(gs.hash());
}
MC_SUITE("unreadable", unreadable);

// the real construction: fans of a zone, through buildSensors, and the zone's
// failsafe state; also across a rebuild of the sensors
void zone()
{
    World wd;
    Groups gs(true);
    gs.initially(mc::thorough() ? 3 : 1);
    for (auto n : {"F1", "F10", "F2"})
        wd.fan(n, n[1] == '1' && !n[2] ? 0 : 1000); // F1 stands still
    wd.dbus("T", "temp", 30);
    wd.zone(0, 0, 60);
    wd.loop(0, "t", "temp", {"T"}, directThermal());
    wd.loop(0, "f", "fan", {"F1", "F10"}, directFan());
    wd.loop(0, "g", "fan", {"F2"}, directFan());
    auto up = [&] {
        wd.build();
        wd.start();
        wd.runUntil(wd.started + vt::ms * 150);
    };
    auto look = [&] {
        std::string want, got;
        for (auto n : {"F1", "F10", "F2"})
            if (gs.failed(n))
                want += std::string(n) + " ";
        for (auto& [n, why] : wd.z(0)->getFailSafeSensors())
            got += n + " ";
        mc::compare();
        if (got != want)
            mc::fail("the zone counts '%s' as failed instead of '%s'; "
                     "groups:%s",
                     got.c_str(), want.c_str(), gs.show().c_str());
    };
    up();
    look();
    int rebuild = mc::choose(3, "rebuilt before event") - 1;
    for (int i = 0; i < 2; ++i)
    {
        if (rebuild == i)
        {
            wd.stop();
            up();
            look();
        }
        gs.event(3);
        wd.runUntil(vt::now() + vt::ms * 100);
        look();
        mc::state(gs.hash());
    }
    mc::outcome(gs.hash());
}
MC_SUITE("zone", zone, 1 << 20, 1 << 20, true);
} // namespace

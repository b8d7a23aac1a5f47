//@technique exhaustive enumeration of IPMI request payloads, zone states and bus outcomes against a reference handler
//@level model_checking
//@budget 60 400
//@sources +ipmi
//@assume the reply buffer holds at least 64 bytes
#include "world.hpp"

#include "ipmi/manualcmds.hpp"

#include <ipmid/api-types.hpp>
#include <ipmid/iana.hpp>
#include <ipmid/oemopenbmc.hpp>
#include <ipmid/oemrouter.hpp>

#include <sys/mman.h>
#include <unistd.h>

using namespace w;

namespace
{
struct FakeRouter : oem::Router
{
    std::map<std::pair<oem::Number, int>, oem::Handler> handlers;
    void activate() override {}
    void registerHandler(oem::Number n, ::ipmi::Cmd c, oem::Handler h) override
    {
        handlers[{n, c}] = h;
    }
};
FakeRouter& router()
{
    static FakeRouter r;
    return r;
}
} // namespace
oem::Router* oem::mutableRouter()
{
    return &router();
}

namespace
{
constexpr int okay = ::ipmi::ccSuccess;

// a buffer whose end is the end of accessible memory
struct Guarded
{
    uint8_t* page;
    size_t size = sysconf(_SC_PAGESIZE);
    Guarded()
    {
        page = static_cast<uint8_t*>(mmap(nullptr, 3 * size, PROT_NONE,
                                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (page == MAP_FAILED || mprotect(page + size, size,
                                           PROT_READ | PROT_WRITE))
            mc::fail("cannot set up memory");
    }
    uint8_t* last(size_t n)
    {
        return page + 2 * size - n;
    }
};
struct Reply
{
    int cc;
    std::vector<uint8_t> bytes; // only meaningful on success of a read
};
Reply ask(const std::vector<uint8_t>& payload)
{
    static Guarded req, rep;
    auto* q = req.last(payload.size());
    for (size_t i = 0; i < payload.size(); ++i)
        q[i] = payload[i];
    auto* p = rep.last(64);
    memset(p, 0x5a, 64);
    size_t len = payload.size();
    auto& h = router().handlers;
    auto it = h.find({oem::obmcOemNumber, oem::Cmd::fanManualCmd});
    if (it == h.end())
        mc::fail("no handler is registered for the command");
    mc::op();
    Reply r;
    r.cc = it->second(oem::Cmd::fanManualCmd, q, p, &len);
    if (len <= 64)
        r.bytes.assign(p, p + len);
    mc::compare();
    for (size_t i = 0; i < payload.size(); ++i)
        if (q[i] != payload[i])
            mc::fail("the request was modified");
    return r;
}

struct Mode
{
    bool manual, failsafe;
};
std::map<int, Mode> zonesOnBus;
std::string zp(int z)
{
    return zonePath(z);
}
void publish(int z, Mode m)
{
    auto& o = bk().services[FANCTRL][zp(z)][iMode];
    o["Manual"] = toVal(m.manual);
    o["FailSafe"] = toVal(m.failsafe);
    o["AManual"] = toVal(!m.manual);
}
void prepare(const std::map<int, Mode>& zs)
{
    bk().resetEnv();
    bk().nowNs = [] { return vt::now(); };
    for (auto& [z, m] : zs)
        publish(z, m);
}
// nothing but `manual of zone z` may have changed
void unchangedBut(const std::map<int, Mode>& zs, int z, bool want)
{
    mc::compare();
    for (auto& [i, m] : zs)
    {
        bool man = false, fs = false;
        simbus::fromVal(bk().services[FANCTRL][zp(i)][iMode]["Manual"], man);
        simbus::fromVal(bk().services[FANCTRL][zp(i)][iMode]["FailSafe"], fs);
        if (man != (i == z ? want : m.manual) || fs != m.failsafe)
            mc::fail("zone %d is now manual=%d failsafe=%d after a request "
                     "about zone %d",
                     i, man, fs, z);
    }
}

// the documented handler
void judge(const std::vector<uint8_t>& q, const Reply& r, bool exists,
           Mode m, bool busFails)
{
    mc::compare();
    size_t need = q.size() > 0 && q[0] == 1 ? 3 : 2;
    std::string text;
    for (auto b : q)
        text += S(" %02x", b);
    if (q.size() < need || q[0] > 2)
    {
        if (r.cc != ::ipmi::ccInvalidCommand)
            mc::fail("request%s was answered with %#x instead of being "
                     "refused as invalid",
                     text.c_str(), r.cc);
        if (bk().calls)
            mc::fail("request%s was refused but touched the bus", text.c_str());
        mc::cover("refused");
        return;
    }
    if (!exists || busFails)
    {
        if (r.cc == okay)
            mc::fail("request%s was answered with success although %s",
                     text.c_str(),
                     exists ? "the bus failed" : "there is no such zone");
        mc::cover(exists ? "bus failure" : "no zone");
        return;
    }
    if (r.cc != okay)
        mc::fail("request%s was answered with %#x", text.c_str(), r.cc);
    if (q[0] == 1)
    {
        mc::cover("set");
        return;
    }
    bool want = q[0] == 0 ? m.manual : m.failsafe;
    if (r.bytes.size() != 1 || r.bytes[0] != (want ? 1 : 0))
        mc::fail("request%s was answered with %zu bytes %#x.. instead of %d",
                 text.c_str(), r.bytes.size(),
                 r.bytes.empty() ? 0 : r.bytes[0], want);
    mc::cover("read");
}

// every command, zone and mode byte
void everyByte()
{
    int cmd = mc::choose(256, "sub-command");
    int zone = mc::choose(256, "zone");
    int have = mc::choose(4, "state");
    // neighbours, and zones whose numbers look alike in other widths
    Mode m{(have & 1) != 0, (have & 2) != 0};
    std::map<int, Mode> zs;
    for (int z : {zone - 256, zone + 256, -zone, zone - 1, zone + 1, zone / 10,
                  zone * 10, 0, 1})
        zs[z] = {!m.manual, !m.failsafe};
    zs[zone] = m;
    static const std::vector<int> some{0, 1, 2, 128, 255};
    static const std::vector<int> few{1};
    int mode = mc::pick(cmd == 1 ? some : few, "mode");
    if (cmd > 4 && cmd < 254 && zone > 3)
        return; // (an unknown command is unknown for every zone)
    prepare(zs);
    std::vector<uint8_t> q{uint8_t(cmd), uint8_t(zone), uint8_t(mode)};
    auto r = ask(q);
    judge(q, r, true, m, false);
    unchangedBut(zs, zone, cmd == 1 ? mode != 0 : m.manual);
    mc::state(mc::mix(cmd * 256 + zone, mode * 4 + have));
    mc::outcome(mc::mix(r.cc, r.bytes.empty() ? 7 : r.bytes[0]));
}
MC_SUITE("bytes", everyByte, 1 << 20, 1 << 20, false,
         {"refused", "set", "read"});

// every mode byte
void modes()
{
    int mode = mc::choose(256, "mode");
    bool was = mc::choose(2, "was");
    std::map<int, Mode> zs{{7, {was, !was}}, {8, {!was, was}}};
    prepare(zs);
    std::vector<uint8_t> q{1, 7, uint8_t(mode)};
    auto r = ask(q);
    judge(q, r, true, zs[7], false);
    unchangedBut(zs, 7, mode != 0);
    mc::state(mode * 2 + was);
    mc::outcome(r.cc);
}
MC_SUITE("modes", modes, 1 << 20, 1 << 20, false, {"set"});

// every length
void lengths()
{
    int len = mc::choose(17, "length");
    int cmd = mc::choose(5, "sub-command");
    bool was = mc::choose(2, "state");
    int fill = mc::choose(3, "bytes");
    std::vector<uint8_t> q(len, fill == 0 ? 0 : fill == 1 ? 1 : 255);
    if (len > 0)
        q[0] = cmd == 4 ? 0xff : cmd;
    if (len > 1)
        q[1] = 9;
    std::map<int, Mode> zs{{9, {was, !was}}};
    prepare(zs);
    auto r = ask(q);
    judge(q, r, true, zs[9], false);
    unchangedBut(zs, 9, len >= 3 && q[0] == 1 ? q[2] != 0 : was);
    mc::state(len * 64 + cmd * 8 + fill * 2 + was);
    mc::outcome(mc::mix(r.cc, len));
}
MC_SUITE("lengths", lengths, 1 << 20, 1 << 20, false,
         {"refused", "set", "read"});

// every bus outcome
void outcomes()
{
    int cmd = mc::choose(3, "sub-command");
    int zone = mc::choose(256, "zone");
    int what = mc::choose(9, "outcome");
    std::map<int, Mode> zs{{zone, {true, true}}, {zone + 1, {false, true}}};
    prepare(zs);
    bool exists = true, fails = false;
    switch (what)
    {
        case 0: break;
        case 1: // no such zone
            bk().services[FANCTRL].erase(zp(zone));
            exists = false;
            break;
        case 2: // the daemon is not running
            bk().services.erase(FANCTRL);
            exists = false;
            break;
        case 3: // the object has no such property
            bk().services[FANCTRL][zp(zone)][iMode].erase(
                cmd == 2 ? "FailSafe" : "Manual");
            exists = false;
            break;
        case 4: // ... or no such interface
            bk().services[FANCTRL][zp(zone)].erase(iMode);
            bk().services[FANCTRL][zp(zone)]["other"]["Manual"] = toVal(true);
            exists = false;
            break;
        default:
        {
            static const std::vector<int> e{EIO, ETIMEDOUT, ENOTCONN, EACCES};
            bk().fault = [=](const simbus::CallInfo&) { return e[what - 5]; };
            fails = true;
        }
    }
    bool v = mc::choose(2, "state");
    std::vector<uint8_t> q{uint8_t(cmd), uint8_t(zone), uint8_t(v)};
    auto r = ask(q);
    judge(q, r, exists, zs[zone], fails);
    if (exists)
        unchangedBut(zs, zone, v || cmd != 1 || fails);
    mc::state(cmd * 8192 + zone * 32 + what * 2 + v);
    mc::outcome(mc::mix(r.cc, what));
}
MC_SUITE("outcomes", outcomes, 1 << 20, 1 << 20, false,
         {"bus failure", "no zone", "set", "read"});

// whatever the control back end reports is passed on
struct Stub : pid_control::ipmi::ZoneControlInterface
{
    int rc, seenZone = -1, reads = 0, writes = 0;
    bool value, seenValue = false;
    std::string prop;
    uint8_t getFanCtrlProperty(uint8_t z, bool* v,
                               const std::string& p) override
    {
        ++reads;
        seenZone = z;
        prop = p;
        if (rc == okay)
            *v = value;
        return rc;
    }
    uint8_t setFanCtrlProperty(uint8_t z, bool v,
                               const std::string& p) override
    {
        ++writes;
        seenZone = z;
        prop = p;
        seenValue = v;
        return rc;
    }
};
void backend()
{
    auto s = std::make_unique<Stub>();
    auto* st = s.get();
    int cmd = mc::choose(4, "sub-command");
    int zone = mc::choose(256, "zone");
    st->rc = mc::choose(256, "code");
    st->value = mc::choose(2, "state");
    pid_control::ipmi::ZoneControlIpmiHandler h(std::move(s));
    uint8_t q[3] = {uint8_t(cmd), uint8_t(zone), uint8_t(st->value)};
    uint8_t rep[64] = {77};
    size_t len = 3;
    mc::op();
    int cc = pid_control::ipmi::manualModeControl(&h, 0, q, rep, &len);
    mc::compare();
    if (cmd == 3)
    {
        if (cc != ::ipmi::ccInvalidCommand || st->reads + st->writes)
            mc::fail("sub-command 3 answered %#x after %d accesses", cc,
                     st->reads + st->writes);
    }
    else
    {
        if (st->reads != (cmd != 1) || st->writes != (cmd == 1) ||
            st->seenZone != zone || st->prop != (cmd == 2 ? "FailSafe"
                                                           : "Manual"))
            mc::fail("sub-command %d zone %d: %d reads, %d writes of zone %d "
                     "%s",
                     cmd, zone, st->reads, st->writes, st->seenZone,
                     st->prop.c_str());
        if ((cc == okay) != (st->rc == okay))
            mc::fail("sub-command %d: answered %#x when the access gave %#x",
                     cmd, cc, st->rc);
        if (cmd == 1 && st->seenValue != st->value)
            mc::fail("manual mode set to %d instead of %d", st->seenValue,
                     st->value);
        if (cc == okay && cmd != 1 && (len != 1 || rep[0] != st->value))
            mc::fail("sub-command %d reports %d instead of %d", cmd, rep[0],
                     st->value);
    }
    mc::cover("passed on");
    mc::state(cmd * 1024 + st->rc * 2 + st->value);
    mc::outcome(mc::mix(cc, cmd));
}
MC_SUITE("backend", backend, 1 << 20, 1 << 20, false, {"passed on"});

// against the daemon's own zones
void endToEnd()
{
    World wd;
    static const std::vector<std::vector<int64_t>> sets{
        {0, 1, 2}, {127, 128, 255}, {200, 20, 2}};
    auto& ids = mc::pick(sets, "zones");
    for (auto id : ids)
    {
        auto n = "T" + std::to_string(id & 0xffff);
        wd.dbus(n, "temp", 30);
        wd.zone(id, 0, 60);
        wd.loop(id, "L" + n, "temp", {n}, directThermal());
    }
    wd.build();
    wd.start();
    wd.runUntil(1 * vt::sec);
    std::map<int64_t, Mode> want;
    for (auto id : ids)
        want[id] = {false, false};
    int depth = mc::thorough() ? 4 : 3;
    for (int i = 0; i < depth; ++i)
    {
        int z = mc::choose(3, "zone");
        int64_t id = ids[z];
        int o = mc::choose(5, "request");
        mc::op();
        if (o == 4 && want[id].manual)
            return; // a zone in manual mode evaluates nothing
        if (o == 4)
        {
            auto n = "T" + std::to_string(id & 0xffff);
            wd.functional(n, want[id].failsafe);
            want[id].failsafe = !want[id].failsafe;
            wd.runUntil(vt::now() + 2 * vt::sec);
        }
        else if (id >= 0)
        {
            std::vector<uint8_t> q{uint8_t(o == 0   ? 0
                                           : o == 3 ? 2
                                                    : 1),
                                   uint8_t(id), uint8_t(o == 2)};
            auto r = ask(q);
            judge(q, r, true, want[id], false);
            if (q[0] == 1)
                want[id].manual = o == 2;
        }
        mc::compare(3);
        for (auto k : ids)
            if (wd.manualProp(k) != want[k].manual ||
                wd.failsafeProp(k) != want[k].failsafe)
                mc::fail("zone %ld is manual=%d failsafe=%d, not %d %d",
                         static_cast<long>(k), wd.manualProp(k),
                         wd.failsafeProp(k), want[k].manual,
                         want[k].failsafe);
        uint64_t h = i;
        for (auto& [k, m] : want)
            h = mc::mix(h, m.manual * 2 + m.failsafe);
        mc::state(h);
        mc::outcome(h);
    }
}
MC_SUITE("zones", endToEnd, 1 << 20, 1 << 20, false, {"set", "read"});
} // namespace

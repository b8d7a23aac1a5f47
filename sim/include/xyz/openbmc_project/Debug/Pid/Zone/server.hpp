#pragma once
#include <simbus.hpp>
#include <limits>
#include <xyz/openbmc_project/Debug/Pid/Zone/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class Zone : public sdbusplus::simserver::Iface
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.Zone";
    Zone(bus_t& b, const char* path) : Iface(b, path, interface)
    {
        prop<std::string>("Leader", [this] { return leader(); });
    }
    virtual std::string leader() const { return _leader; }
    virtual std::string leader(std::string v, bool skipSignal) { return update(_leader, v, "Leader", skipSignal); }
    virtual std::string leader(std::string v) { return leader(v, false); }

  private:
    std::string _leader = {};
};
} // namespace

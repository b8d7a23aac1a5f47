#pragma once
#include <simbus.hpp>
#include <limits>
#include <xyz/openbmc_project/Object/Enable/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Object::server
{
class Enable : public sdbusplus::simserver::Iface
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Object.Enable";
    Enable(bus_t& b, const char* path) : Iface(b, path, interface)
    {
        prop<bool>("Enabled", [this] { return enabled(); },
            [this](bool v) { enabled(v); });
    }
    virtual bool enabled() const { return _enabled; }
    virtual bool enabled(bool v, bool skipSignal) { return update(_enabled, v, "Enabled", skipSignal); }
    virtual bool enabled(bool v) { return enabled(v, false); }

  private:
    bool _enabled = true;
};
} // namespace

#pragma once
#include <simbus.hpp>
#include <limits>
#include <xyz/openbmc_project/Control/Mode/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class Mode : public sdbusplus::simserver::Iface
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.Mode";
    Mode(bus_t& b, const char* path) : Iface(b, path, interface)
    {
        prop<bool>("Manual", [this] { return manual(); },
            [this](bool v) { manual(v); });
        prop<bool>("FailSafe", [this] { return failSafe(); });
    }
    virtual bool manual() const { return _manual; }
    virtual bool manual(bool v, bool skipSignal) { return update(_manual, v, "Manual", skipSignal); }
    virtual bool manual(bool v) { return manual(v, false); }
    virtual bool failSafe() const { return _failSafe; }
    virtual bool failSafe(bool v, bool skipSignal) { return update(_failSafe, v, "FailSafe", skipSignal); }
    virtual bool failSafe(bool v) { return failSafe(v, false); }

  private:
    bool _manual = false;
    bool _failSafe = false;
};
} // namespace

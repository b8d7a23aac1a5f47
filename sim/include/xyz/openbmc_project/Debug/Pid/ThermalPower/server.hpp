#pragma once
#include <simbus.hpp>
#include <limits>
#include <xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class ThermalPower : public sdbusplus::simserver::Iface
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.ThermalPower";
    ThermalPower(bus_t& b, const char* path) : Iface(b, path, interface)
    {
        prop<double>("Setpoint", [this] { return setpoint(); });
        prop<std::string>("ClassType", [this] { return classType(); });
        prop<std::string>("Leader", [this] { return leader(); });
        prop<double>("Input", [this] { return input(); });
        prop<double>("Output", [this] { return output(); });
    }
    virtual double setpoint() const { return _setpoint; }
    virtual double setpoint(double v, bool skipSignal) { return update(_setpoint, v, "Setpoint", skipSignal); }
    virtual double setpoint(double v) { return setpoint(v, false); }
    virtual std::string classType() const { return _classType; }
    virtual std::string classType(std::string v, bool skipSignal) { return update(_classType, v, "ClassType", skipSignal); }
    virtual std::string classType(std::string v) { return classType(v, false); }
    virtual std::string leader() const { return _leader; }
    virtual std::string leader(std::string v, bool skipSignal) { return update(_leader, v, "Leader", skipSignal); }
    virtual std::string leader(std::string v) { return leader(v, false); }
    virtual double input() const { return _input; }
    virtual double input(double v, bool skipSignal) { return update(_input, v, "Input", skipSignal); }
    virtual double input(double v) { return input(v, false); }
    virtual double output() const { return _output; }
    virtual double output(double v, bool skipSignal) { return update(_output, v, "Output", skipSignal); }
    virtual double output(double v) { return output(v, false); }

  private:
    double _setpoint = std::numeric_limits<double>::quiet_NaN();
    std::string _classType = {};
    std::string _leader = {};
    double _input = std::numeric_limits<double>::quiet_NaN();
    double _output = std::numeric_limits<double>::quiet_NaN();
};
} // namespace

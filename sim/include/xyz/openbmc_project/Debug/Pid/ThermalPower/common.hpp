#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
class ThermalPower
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.ThermalPower";
    struct property_names
    {
        static constexpr auto setpoint = "Setpoint";
        static constexpr auto class_type = "ClassType";
        static constexpr auto leader = "Leader";
        static constexpr auto input = "Input";
        static constexpr auto output = "Output";
    };
};
} // namespace

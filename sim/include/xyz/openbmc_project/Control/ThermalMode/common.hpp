#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project::control
{
class ThermalMode
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.ThermalMode";
    struct property_names
    {
        static constexpr auto current = "Current";
        static constexpr auto supported = "Supported";
    };
};
} // namespace

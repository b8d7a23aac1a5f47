#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project::sensor
{
class Value
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Value";
    struct property_names
    {
        static constexpr auto value = "Value";
        static constexpr auto max_value = "MaxValue";
        static constexpr auto min_value = "MinValue";
        static constexpr auto unit = "Unit";
    };
};
} // namespace

#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project::sensor::threshold
{
class Critical
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Threshold.Critical";
    struct property_names
    {
        static constexpr auto critical_high = "CriticalHigh";
        static constexpr auto critical_low = "CriticalLow";
        static constexpr auto critical_alarm_high = "CriticalAlarmHigh";
        static constexpr auto critical_alarm_low = "CriticalAlarmLow";
    };
};
} // namespace

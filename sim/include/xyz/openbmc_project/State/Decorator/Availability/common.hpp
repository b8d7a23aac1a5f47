#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project::state::decorator
{
class Availability
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.State.Decorator.Availability";
    struct property_names
    {
        static constexpr auto available = "Available";
    };
};
} // namespace

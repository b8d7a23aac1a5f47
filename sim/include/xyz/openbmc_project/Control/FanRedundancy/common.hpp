#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project::control
{
class FanRedundancy
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.FanRedundancy";
    struct property_names
    {
        static constexpr auto status = "Status";
        static constexpr auto collection = "Collection";
        static constexpr auto allowed_failures = "AllowedFailures";
    };
};
} // namespace

#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project::association
{
class Definitions
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Association.Definitions";
    struct property_names
    {
        static constexpr auto associations = "Associations";
    };
};
} // namespace

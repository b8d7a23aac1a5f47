#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project
{
class Association
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Association";
    struct property_names
    {
        static constexpr auto endpoints = "Endpoints";
    };
};
} // namespace

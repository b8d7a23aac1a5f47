#pragma once
#include <simbus.hpp>
namespace sdbusplus::common::xyz::openbmc_project::state
{
class Host
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.State.Host";
    struct property_names
    {
        static constexpr auto current_host_state = "CurrentHostState";
        static constexpr auto requested_host_transition = "RequestedHostTransition";
    };
};
} // namespace

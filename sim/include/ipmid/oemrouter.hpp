#pragma once
#include <ipmid/api-types.hpp>
#include <ipmid/iana.hpp>
#include <cstddef>
#include <cstdint>
#include <functional>
namespace oem
{
using Handler = std::function<ipmi::Cc(ipmi::Cmd, const uint8_t*, uint8_t*, size_t*)>;
class Router
{
  public:
    virtual ~Router() = default;
    virtual void activate() = 0;
    virtual void registerHandler(Number oen, ipmi::Cmd cmd, Handler handler) = 0;
};
Router* mutableRouter();
} // namespace oem

#pragma once
#include <boost/asio/io_context.hpp>
#include <simbus.hpp>
namespace sdbusplus::asio
{
class connection : public sdbusplus::bus_t
{
  public:
    explicit connection(boost::asio::io_context&) {}
    connection(boost::asio::io_context&, sdbusplus::bus_t&& b) :
        sdbusplus::bus_t(std::move(b))
    {}
};
} // namespace sdbusplus::asio

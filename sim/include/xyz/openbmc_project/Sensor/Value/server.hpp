#pragma once
#include <simbus.hpp>
#include <limits>
#include <xyz/openbmc_project/Sensor/Value/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Sensor::server
{
class Value : public sdbusplus::simserver::Iface
{
  public:
    enum class Unit { Amperes, CFM, DegreesC, Hertz, Joules, Liters, Meters, Percent, PercentRH, Pascals, RPMS, Volts, Watts };
    friend std::string convertForMessage(Unit u)
    {
        static const char* n[] = {"Amperes", "CFM", "DegreesC", "Hertz", "Joules", "Liters", "Meters", "Percent", "PercentRH", "Pascals", "RPMS", "Volts", "Watts"};
        return std::string("xyz.openbmc_project.Sensor.Value.Unit.") + n[static_cast<int>(u)];
    }
    friend void convertFromMessage(const std::string& s, Unit& u)
    {
        for (int i = 0; i <= static_cast<int>(Unit::Watts); ++i)
            if (convertForMessage(static_cast<Unit>(i)) == s)
            {
                u = static_cast<Unit>(i);
                return;
            }
        throw sdbusplus::exception::InvalidEnumString();
    }
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Value";
    Value(bus_t& b, const char* path) : Iface(b, path, interface)
    {
        prop<double>("Value", [this] { return value(); },
            [this](double v) { value(v); });
        prop<double>("MaxValue", [this] { return maxValue(); },
            [this](double v) { maxValue(v); });
        prop<double>("MinValue", [this] { return minValue(); },
            [this](double v) { minValue(v); });
        prop<Unit>("Unit", [this] { return unit(); });
    }
    virtual double value() const { return _value; }
    virtual double value(double v, bool skipSignal) { return update(_value, v, "Value", skipSignal); }
    virtual double value(double v) { return value(v, false); }
    virtual double maxValue() const { return _maxValue; }
    virtual double maxValue(double v, bool skipSignal) { return update(_maxValue, v, "MaxValue", skipSignal); }
    virtual double maxValue(double v) { return maxValue(v, false); }
    virtual double minValue() const { return _minValue; }
    virtual double minValue(double v, bool skipSignal) { return update(_minValue, v, "MinValue", skipSignal); }
    virtual double minValue(double v) { return minValue(v, false); }
    virtual Unit unit() const { return _unit; }
    virtual Unit unit(Unit v, bool skipSignal) { return update(_unit, v, "Unit", skipSignal); }
    virtual Unit unit(Unit v) { return unit(v, false); }

  private:
    double _value = std::numeric_limits<double>::quiet_NaN();
    double _maxValue = std::numeric_limits<double>::infinity();
    double _minValue = -std::numeric_limits<double>::infinity();
    Unit _unit = Unit::DegreesC;
};
} // namespace

From 34d3b1c79aa4c661d8995268ccc909317cd3733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 01/28] fix: do not lose an asserted threshold alarm when
 another one clears

A critical-high alarm clearing (or, with unc-failsafe, a warning alarm
clearing) marked the sensor as good while critical-low was still
asserted. Keep track of each alarm separately.
---
 dbus/dbushelper.cpp           | 31 ++++++++++++++++---------
 dbus/dbushelper.hpp           |  3 +++
 dbus/dbushelper_interface.hpp | 12 ++++++++++
 dbus/dbuspassive.cpp          | 43 +++++++++++++++++++++++------------
 dbus/dbuspassive.hpp          |  4 ++++
 5 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/dbus/dbushelper.cpp b/dbus/dbushelper.cpp
index 53f19bb..35bacfd 100644
--- a/dbus/dbushelper.cpp
+++ b/dbus/dbushelper.cpp
@@ -148,6 +148,13 @@ void DbusHelper::getProperties(const std::string& service,
 bool DbusHelper::thresholdsAsserted(const std::string& service,
                                     const std::string& path)
 {
+    return !getAssertedThresholds(service, path).empty();
+}
+
+std::set<std::string> DbusHelper::getAssertedThresholds(
+    const std::string& service, const std::string& path)
+{
+    std::set<std::string> alarms;
     auto critical = _bus.new_method_call(service.c_str(), path.c_str(),
                                          propertiesintf, "GetAll");
     critical.append(SensorThresholdCritical::interface);
@@ -163,7 +170,7 @@ bool DbusHelper::thresholdsAsserted(const std::string& service,
         // do nothing, sensors don't have to expose critical thresholds
         if constexpr (!UNC_FAILSAFE)
         {
-            return false;
+            return alarms;
         }
     }
 
@@ -172,19 +179,20 @@ bool DbusHelper::thresholdsAsserted(const std::string& service,
     auto findCriticalHigh = criticalMap.find(
         SensorThresholdCritical::property_names::critical_alarm_high);
 
-    bool asserted = false;
-    if (findCriticalLow != criticalMap.end())
+    if (findCriticalLow != criticalMap.end() &&
+        std::get<bool>(findCriticalLow->second))
     {
-        asserted = std::get<bool>(findCriticalLow->second);
+        alarms.insert(findCriticalLow->first);
     }
 
     // as we are catching properties changed, a sensor could theoretically jump
     // from one threshold to the other in one event, so check both thresholds
-    if (!asserted && findCriticalHigh != criticalMap.end())
+    if (findCriticalHigh != criticalMap.end() &&
+        std::get<bool>(findCriticalHigh->second))
     {
-        asserted = std::get<bool>(findCriticalHigh->second);
+        alarms.insert(findCriticalHigh->first);
     }
-    if (UNC_FAILSAFE && !asserted)
+    if constexpr (UNC_FAILSAFE)
     {
         auto warning = _bus.new_method_call(service.c_str(), path.c_str(),
                                             propertiesintf, "GetAll");
@@ -199,17 +207,18 @@ bool DbusHelper::thresholdsAsserted(const std::string& service,
         catch (const sdbusplus::exception_t&)
         {
             // sensors don't have to expose non-critical thresholds
-            return false;
+            return alarms;
         }
         auto findWarningHigh = warningMap.find(
             SensorThresholdWarning::property_names::warning_alarm_high);
 
-        if (findWarningHigh != warningMap.end())
+        if (findWarningHigh != warningMap.end() &&
+            std::get<bool>(findWarningHigh->second))
         {
-            asserted = std::get<bool>(findWarningHigh->second);
+            alarms.insert(findWarningHigh->first);
         }
     }
-    return asserted;
+    return alarms;
 }
 
 } // namespace pid_control
diff --git a/dbus/dbushelper.hpp b/dbus/dbushelper.hpp
index 8fac1a2..94ae621 100644
--- a/dbus/dbushelper.hpp
+++ b/dbus/dbushelper.hpp
@@ -46,6 +46,9 @@ class DbusHelper : public DbusHelperInterface
     bool thresholdsAsserted(const std::string& service,
                             const std::string& path) override;
 
+    std::set<std::string> getAssertedThresholds(
+        const std::string& service, const std::string& path) override;
+
     template <typename T>
     void getProperty(const std::string& service, const std::string& path,
                      const std::string& interface,
diff --git a/dbus/dbushelper_interface.hpp b/dbus/dbushelper_interface.hpp
index 2ea6230..50770ba 100644
--- a/dbus/dbushelper_interface.hpp
+++ b/dbus/dbushelper_interface.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstdint>
+#include <set>
 #include <string>
 
 namespace pid_control
@@ -50,6 +51,17 @@ class DbusHelperInterface
      */
     virtual bool thresholdsAsserted(const std::string& service,
                                     const std::string& path) = 0;
+
+    /** @brief Get the names of the threshold alarms currently asserted
+     *
+     * @param[in] service - The service providing the interface.
+     * @param[in] path - The dbus path.
+     */
+    virtual std::set<std::string> getAssertedThresholds(
+        const std::string& /*service*/, const std::string& /*path*/)
+    {
+        return {};
+    }
 };
 
 } // namespace pid_control
diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 016f069..4060eed 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -133,6 +133,11 @@ std::unique_ptr<ReadInterface> DbusPassive::createDbusPassive(
     {
         sensor->_helper->getProperties(service, path, &settings);
         failed = sensor->_helper->thresholdsAsserted(service, path);
+        if (failed)
+        {
+            sensor->_alarms =
+                sensor->_helper->getAssertedThresholds(service, path);
+        }
     }
     catch (const std::exception& e)
     {
@@ -313,6 +318,21 @@ void DbusPassive::setFailed(bool value)
     _failed = value;
 }
 
+void DbusPassive::setAlarm(const std::string& alarm, bool asserted)
+{
+    if (asserted)
+    {
+        _alarms.insert(alarm);
+    }
+    else
+    {
+        _alarms.erase(alarm);
+    }
+
+    // One alarm clearing must not hide another that is still asserted
+    setFailed(!_alarms.empty());
+}
+
 void DbusPassive::setFunctional(bool value)
 {
     _functional = value;
@@ -442,19 +462,18 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
+        // checking both as in theory you could de-assert one threshold and
+        // assert the other at the same moment
         if (criticalAlarmLow != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmLow->second);
+            owner->setAlarm(criticalAlarmLow->first,
+                            std::get<bool>(criticalAlarmLow->second));
         }
-
-        // checking both as in theory you could de-assert one threshold and
-        // assert the other at the same moment
-        if (!asserted && criticalAlarmHigh != msgData.end())
+        if (criticalAlarmHigh != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmHigh->second);
+            owner->setAlarm(criticalAlarmHigh->first,
+                            std::get<bool>(criticalAlarmHigh->second));
         }
-        owner->setFailed(asserted);
     }
     else if (UNC_FAILSAFE && msgSensor == SensorThresholdWarning::interface)
     {
@@ -465,12 +484,8 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
-        if (warningAlarmHigh != msgData.end())
-        {
-            asserted = std::get<bool>(warningAlarmHigh->second);
-        }
-        owner->setFailed(asserted);
+        owner->setAlarm(warningAlarmHigh->first,
+                        std::get<bool>(warningAlarmHigh->second));
     }
     else if (msgSensor == StateDecoratorAvailability::interface)
     {
diff --git a/dbus/dbuspassive.hpp b/dbus/dbuspassive.hpp
index 5a3c745..222e8b6 100644
--- a/dbus/dbuspassive.hpp
+++ b/dbus/dbuspassive.hpp
@@ -16,6 +16,7 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
+#include <set>
 #include <string>
 
 namespace pid_control
@@ -58,6 +59,7 @@ class DbusPassive : public ReadInterface
     void setValue(double value);
 
     void setFailed(bool value);
+    void setAlarm(const std::string& alarm, bool asserted);
     void setFunctional(bool value);
     void setAvailable(bool value);
 
@@ -80,6 +82,8 @@ class DbusPassive : public ReadInterface
     double _max = 0;
     double _min = 0;
     bool _failed = false;
+    /* Names of the threshold alarms currently asserted. */
+    std::set<std::string> _alarms;
     bool _functional = true;
     bool _available = true;
     bool _availableOverridden = false;
-- 
2.43.0


From 7ef3d2d62ee8a6cea43b7a28d0e09ec6b076ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 02/28] fix: do not use an undefined value when a sysfs sensor
 file is unreadable

Reading a missing, empty or unparsable file returned an uninitialized
integer with a fresh time stamp. Keep the last good reading and its
time, and report the sensor as failed until the file is readable.
---
 sysfs/sysfsread.cpp | 26 +++++++++++++++++++++-----
 sysfs/sysfsread.hpp |  5 +++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/sysfs/sysfsread.cpp b/sysfs/sysfsread.cpp
index a0e0779..09a6c81 100644
--- a/sysfs/sysfsread.cpp
+++ b/sysfs/sysfsread.cpp
@@ -19,13 +19,29 @@ ReadReturn SysFsRead::read(void)
     std::ifstream ifs;
 
     ifs.open(_path);
-    ifs >> value;
-    ifs.close();
+    if (ifs >> value)
+    {
+        _last = {static_cast<double>(value),
+                 std::chrono::high_resolution_clock::now()};
+        _failed = false;
+    }
+    else
+    {
+        // No number there: keep the last good reading and its time
+        _failed = true;
+    }
+
+    return _last;
+}
 
-    ReadReturn r = {static_cast<double>(value),
-                    std::chrono::high_resolution_clock::now()};
+bool SysFsRead::getFailed(void) const
+{
+    return _failed;
+}
 
-    return r;
+std::string SysFsRead::getFailReason(void) const
+{
+    return "Sensor file not readable";
 }
 
 } // namespace pid_control
diff --git a/sysfs/sysfsread.hpp b/sysfs/sysfsread.hpp
index 32ce18e..fa341fa 100644
--- a/sysfs/sysfsread.hpp
+++ b/sysfs/sysfsread.hpp
@@ -20,9 +20,14 @@ class SysFsRead : public ReadInterface
     {}
 
     ReadReturn read(void) override;
+    bool getFailed(void) const override;
+    std::string getFailReason(void) const override;
 
   private:
     const std::string _path;
+    /* The last good reading, and whether the latest attempt failed. */
+    ReadReturn _last;
+    bool _failed = true;
 };
 
 } // namespace pid_control
-- 
2.43.0


From 12688882dc3339499166405b54c5453a288a2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 03/28] fix: name the right leader when set points are
 accumulated

With accumulateSetPoint the leader was empty when a ceiling set the
target, and loops of other profiles were named whenever their name
merely contained the winning profile's name.
---
 pid/zone.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index bfcbe3b..08efff6 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -336,6 +336,7 @@ void DbusPidZone::determineMaxSetPointRequest(void)
 {
     std::vector<double>::iterator result;
     double minThermalThreshold = getMinThermalSetPoint();
+    bool limitedByCeiling = false;
 
     if (rpmCeilings.size() > 0)
     {
@@ -347,6 +348,7 @@ void DbusPidZone::determineMaxSetPointRequest(void)
             _maximumSetPoint = *result;
             // When using lowest ceiling, controller name is ceiling.
             _maximumSetPointName = "Ceiling";
+            limitedByCeiling = true;
         }
     }
 
@@ -354,7 +356,7 @@ void DbusPidZone::determineMaxSetPointRequest(void)
      * Combine the maximum SetPoint Name if the controllers have same profile
      * name. e.g., PID_BB_INLET_TEMP_C + Stepwise_BB_INLET_TEMP_C.
      */
-    if (getAccSetPoint())
+    if (getAccSetPoint() && !limitedByCeiling)
     {
         auto profileName = _maximumSetPointName;
         _maximumSetPointName = "";
@@ -362,8 +364,7 @@ void DbusPidZone::determineMaxSetPointRequest(void)
         for (auto& p : _thermals)
         {
             auto controllerID = p->getID();
-            auto found = controllerID.find(profileName);
-            if (found != std::string::npos)
+            if (controllerID.substr(controllerID.find('_') + 1) == profileName)
             {
                 if (_maximumSetPointName.empty())
                 {
-- 
2.43.0


From 0e2ed62b8647e56d941ea1d1b58113652125fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 04/28] fix: publish the input of every thermal evaluation

A power sum whose readings add nothing, or a loop without any usable
reading, left the input and leader of an earlier evaluation published.
---
 pid/thermalcontroller.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pid/thermalcontroller.cpp b/pid/thermalcontroller.cpp
index 3083761..8b7878e 100644
--- a/pid/thermalcontroller.cpp
+++ b/pid/thermalcontroller.cpp
@@ -146,7 +146,6 @@ double ThermalController::inputProc(void)
         if (oldValue != value)
         {
             leaderName = in.name;
-            _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);
         }
 
         acceptable = true;
@@ -161,6 +160,8 @@ double ThermalController::inputProc(void)
         value = setptProc();
     }
 
+    _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);
+
     if (debugEnabled)
     {
         std::cerr << getID() << " choose the temperature value: " << value
-- 
2.43.0


From 4e07140342a96902e5c9aa32742554f2e7ea1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 05/28] fix: let a write-only fan be commanded

Reading a fan that has no readPath threw out of the control loop, so a
fan configured as write-only ended the daemon.
---
 notimpl/writeonly.cpp | 10 ++++++++++
 notimpl/writeonly.hpp |  8 ++++++++
 sensors/builder.cpp   | 10 +++++++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/notimpl/writeonly.cpp b/notimpl/writeonly.cpp
index 17113ae..9795e28 100644
--- a/notimpl/writeonly.cpp
+++ b/notimpl/writeonly.cpp
@@ -5,6 +5,8 @@
 
 #include "interfaces.hpp"
 
+#include <chrono>
+#include <limits>
 #include <stdexcept>
 
 namespace pid_control
@@ -15,4 +17,12 @@ ReadReturn WriteOnly::read(void)
     throw std::runtime_error("Not supported.");
 }
 
+ReadReturn WriteOnlyNoExcept::read(void)
+{
+    // There is no speed to report, and that is never out of date.
+    return {std::numeric_limits<double>::quiet_NaN(),
+            std::chrono::high_resolution_clock::now(),
+            std::numeric_limits<double>::quiet_NaN()};
+}
+
 } // namespace pid_control
diff --git a/notimpl/writeonly.hpp b/notimpl/writeonly.hpp
index 0561de0..1d67047 100644
--- a/notimpl/writeonly.hpp
+++ b/notimpl/writeonly.hpp
@@ -14,4 +14,12 @@ class WriteOnly : public ReadInterface
     ReadReturn read(void) override;
 };
 
+class WriteOnlyNoExcept : public ReadInterface
+{
+  public:
+    WriteOnlyNoExcept() : ReadInterface() {}
+
+    ReadReturn read(void) override;
+};
+
 } // namespace pid_control
diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 640c0ca..6da8237 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -96,7 +96,15 @@ SensorManager buildSensors(
                 ri = std::make_unique<SysFsRead>(info->readPath);
                 break;
             default:
-                ri = std::make_unique<WriteOnly>();
+                // A fan may be write-only; nothing else can be.
+                if (info->type == "fan")
+                {
+                    ri = std::make_unique<WriteOnlyNoExcept>();
+                }
+                else
+                {
+                    ri = std::make_unique<WriteOnly>();
+                }
                 break;
         }
 
-- 
2.43.0


From 3214820816061be8c1b86914dc451eb06a8f3511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 06/28] fix: release the sensors of the old configuration
 before building new ones

A reload with a sensor written by the host failed for ever, because the
old sensor still occupied its object path.
---
 main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.cpp b/main.cpp
index c924123..5d15a27 100644
--- a/main.cpp
+++ b/main.cpp
@@ -121,6 +121,8 @@ void stopControlLoops()
     }
 
     state::zones.clear();
+    // The sensors have to be gone before new ones claim the same bus objects.
+    state::mgmr.reset();
     state::isCanceling = false;
 }
 
-- 
2.43.0


From 0a7d2584b4267cec21ecd380846d32b1eba9705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 07/28] fix: reject a configuration file that lacks a mandatory
 value

---
 pid/buildjson.cpp     | 12 ++++++------
 sensors/buildjson.cpp |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 8925e2e..2bbf919 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -195,7 +195,7 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
     std::map<int64_t, conf::ZoneConfig> zoneConfig;
 
     /* TODO: if zones is empty, that's invalid. */
-    auto zones = data["zones"];
+    auto zones = data.at("zones");
     for (const auto& zone : zones)
     {
         int64_t id;
@@ -203,9 +203,9 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         conf::ZoneConfig thisZoneConfig;
 
         /* TODO: using at() throws a specific exception we can catch */
-        id = zone["id"];
-        thisZoneConfig.minThermalOutput = zone["minThermalOutput"];
-        thisZoneConfig.failsafePercent = zone["failsafePercent"];
+        id = zone.at("id");
+        thisZoneConfig.minThermalOutput = zone.at("minThermalOutput");
+        thisZoneConfig.failsafePercent = zone.at("failsafePercent");
 
         getCycleTimeSetting(zone, id, "cycleIntervalTimeMS",
                             thisZoneConfig.cycleTime.cycleIntervalTimeMS);
@@ -220,10 +220,10 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         }
         thisZoneConfig.accumulateSetPoint = accumulateSetPoint;
 
-        auto pids = zone["pids"];
+        auto pids = zone.at("pids");
         for (const auto& pid : pids)
         {
-            auto name = pid["name"];
+            auto name = pid.at("name");
             auto item = pid.get<conf::ControllerInfo>();
 
             if (thisZone.find(name) != thisZone.end())
diff --git a/sensors/buildjson.cpp b/sensors/buildjson.cpp
index 23bb201..770647e 100644
--- a/sensors/buildjson.cpp
+++ b/sensors/buildjson.cpp
@@ -104,14 +104,14 @@ void from_json(const json& j, conf::SensorConfig& s)
 std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json& data)
 {
     std::map<std::string, conf::SensorConfig> config;
-    auto sensors = data["sensors"];
+    auto sensors = data.at("sensors");
 
     /* TODO: If no sensors, this is invalid, and we should except here or during
      * parsing.
      */
     for (const auto& sensor : sensors)
     {
-        config[sensor["name"]] = sensor.get<conf::SensorConfig>();
+        config[sensor.at("name")] = sensor.get<conf::SensorConfig>();
     }
 
     return config;
-- 
2.43.0


From 345c7557ece86151916ccbe001d5fbeb74cd943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 08/28] fix: honour fractional failsafe percentages of the
 configuration file

---
 pid/buildjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 2bbf919..99cdce3 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -84,7 +84,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
     }
 
     auto failSafePercent = j.find("FailSafePercent");
-    auto failSafePercentValue = 0;
+    auto failSafePercentValue = 0.0;
     if (failSafePercent != j.end())
     {
         failSafePercent->get_to(failSafePercentValue);
-- 
2.43.0


From 94a9b31b3524f06a08588d54a4b430a87752e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 09/28] fix: take the default for a negative cycle interval

---
 pid/buildjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 99cdce3..d5bea71 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -167,7 +167,7 @@ inline void getCycleTimeSetting(const auto& zone, const int id,
     auto findAttributeName = zone.find(attributeName);
     if (findAttributeName != zone.end())
     {
-        uint64_t tmpAttributeValue = 0;
+        int64_t tmpAttributeValue = 0;
         findAttributeName->get_to(tmpAttributeValue);
         if (tmpAttributeValue >= 1)
         {
-- 
2.43.0


From cb2f736348a3a5159ff696352f3d869ca39ac260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 10/28] fix: send the next fan duty after one that was not
 delivered

---
 dbus/dbuswrite.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dbus/dbuswrite.cpp b/dbus/dbuswrite.cpp
index 8a87116..73db8ae 100644
--- a/dbus/dbuswrite.cpp
+++ b/dbus/dbuswrite.cpp
@@ -87,6 +87,7 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     mesg.append(ControlFanPwm::interface, ControlFanPwm::property_names::target,
                 std::variant<uint64_t>(static_cast<uint64_t>(ovalue)));
 
+    bool delivered = true;
     try
     {
         // TODO: if we don't use the reply, call_noreply()
@@ -96,12 +97,14 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+        delivered = false;
     }
 
-    oldValue = static_cast<int64_t>(ovalue);
+    // A value that was not delivered must not suppress the next request.
+    oldValue = delivered ? static_cast<int64_t>(ovalue) : -1;
     if (written)
     {
-        *written = oldValue;
+        *written = static_cast<int64_t>(ovalue);
     }
     return;
 }
@@ -149,6 +152,7 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     mesg.append(ControlFanPwm::interface, ControlFanPwm::property_names::target,
                 std::variant<uint64_t>(static_cast<uint64_t>(value)));
 
+    bool delivered = true;
     try
     {
         // TODO: consider call_noreplly
@@ -158,12 +162,14 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+        delivered = false;
     }
 
-    oldValue = static_cast<int64_t>(value);
+    // A value that was not delivered must not suppress the next request.
+    oldValue = delivered ? static_cast<int64_t>(value) : -1;
     if (written)
     {
-        *written = oldValue;
+        *written = static_cast<int64_t>(value);
     }
     return;
 }
-- 
2.43.0


From 08f1921d684a0331f4035094018e404a59e96496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 11/28] fix: address zones 128 to 255 over IPMI

---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 52666c0..eed6651 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -28,7 +28,7 @@ using Value = std::variant<bool>;
 using PropertyMap = std::map<Property, Value>;
 
 /* The following was copied directly from my manual thread handler. */
-static std::string getControlPath(int8_t zone)
+static std::string getControlPath(uint8_t zone)
 {
     return std::string(objectPath) + std::to_string(zone);
 }
-- 
2.43.0


From 7c4e55da02f7117257a822b5448c4813e080ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 12/28] fix: report a missing control property over IPMI as an
 error

---
 ipmi/dbus_mode.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index eed6651..61c828e 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -52,7 +52,13 @@ uint8_t DbusZoneControl::getFanCtrlProperty(uint8_t zoneId, bool* value,
 
         valueResponseMsg.read(propMap);
 
-        *value = std::get<bool>(propMap[property]);
+        auto found = propMap.find(property);
+        if (found == propMap.end())
+        {
+            return ::ipmi::ccInvalidCommand;
+        }
+
+        *value = std::get<bool>(found->second);
     }
     catch (const sdbusplus::exception_t& ex)
     {
-- 
2.43.0


From e988a89d8914a7e321e22338fb034f8714465b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 13/28] fix: report over IPMI that the manual mode could not be
 set

---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 61c828e..4ff8531 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -85,7 +85,7 @@ uint8_t DbusZoneControl::setFanCtrlProperty(uint8_t zoneId, bool value,
 
     try
     {
-        PropertyWriteBus.call_noreply(pimMsg);
+        PropertyWriteBus.call(pimMsg);
     }
     catch (const sdbusplus::exception_t& ex)
     {
-- 
2.43.0


From 61f3ee13306a7c0f45495012cfb73f32540f71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 14/28] fix: log sensor failures under the failsafe state of
 the zone

---
 failsafeloggers/failsafe_logger.hpp         |  7 +++++++
 failsafeloggers/failsafe_logger_utility.hpp | 18 ++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/failsafeloggers/failsafe_logger.hpp b/failsafeloggers/failsafe_logger.hpp
index 82076c9..9b1fb33 100644
--- a/failsafeloggers/failsafe_logger.hpp
+++ b/failsafeloggers/failsafe_logger.hpp
@@ -42,6 +42,13 @@ class FailsafeLogger
                            const std::string& location,
                            const std::string& reason);
 
+    /** Whether the zone is in failsafe mode, as far as it has told.
+     */
+    bool getFailsafeState() const
+    {
+        return _currentFailsafeState;
+    }
+
   private:
     // The maximum number of log entries to be output within 1 second.
     size_t _logMaxCountPerSecond;
diff --git a/failsafeloggers/failsafe_logger_utility.hpp b/failsafeloggers/failsafe_logger_utility.hpp
index 8d377a0..e2df07b 100644
--- a/failsafeloggers/failsafe_logger_utility.hpp
+++ b/failsafeloggers/failsafe_logger_utility.hpp
@@ -20,19 +20,29 @@ extern std::unordered_map<std::string, std::vector<int64_t>> sensorNameToZoneId;
 namespace pid_control
 {
 
-/** Given a sensor name, attempt to output entering/leaving-failsafe-mode
- * logs for its corresponding zones.
+/** Given a sensor name, attempt to output failsafe-mode logs for its
+ * corresponding zones.
+ *
+ * A single sensor does not decide whether a zone is in failsafe mode (others
+ * may have failed too, or its own failure may be acceptable), so its failure
+ * is logged under the state its zone is in. Recoveries are left to the zone.
  */
 inline void outputFailsafeLogWithSensor(
     const std::string& sensorName, const bool newFailsafeState,
     const std::string& location, const std::string& reason)
 {
+    if (!newFailsafeState)
+    {
+        return;
+    }
+
     for (const int64_t zoneId : sensorNameToZoneId[sensorName])
     {
         if (zoneIdToFailsafeLogger.count(zoneId))
         {
-            zoneIdToFailsafeLogger[zoneId]->outputFailsafeLog(
-                zoneId, newFailsafeState, location, reason);
+            const auto& logger = zoneIdToFailsafeLogger[zoneId];
+            logger->outputFailsafeLog(zoneId, logger->getFailsafeState(),
+                                      location, reason);
         }
     }
 }
-- 
2.43.0


From e429002dcf9caf3d8b57f73c5d4b8c6a5c83aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 15/28] fix: honour ignoreFailIfHostOff for host-supplied
 sensors

---
 sensors/builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 6da8237..8263add 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -175,7 +175,7 @@ SensorManager buildSensors(
                  */
                 auto sensor = HostSensor::createTemp(
                     name, info->timeout, hostSensorBus, info->readPath.c_str(),
-                    deferSignals);
+                    deferSignals, info->ignoreFailIfHostOff);
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
             else
-- 
2.43.0


From 74340668f3298f4e65d6d1b5045a12cac99aeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 16/28] fix: do not hide sensor failures while the host state
 is unknown

---
 hoststatemonitor.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hoststatemonitor.hpp b/hoststatemonitor.hpp
index 244f841..804846c 100644
--- a/hoststatemonitor.hpp
+++ b/hoststatemonitor.hpp
@@ -65,7 +65,7 @@ inline HostStateMonitor& HostStateMonitor::getInstance(sdbusplus::bus_t& bus)
 }
 
 inline HostStateMonitor::HostStateMonitor(sdbusplus::bus_t& bus) :
-    bus(bus), powerStatusOn(false), hostStateMatch(nullptr)
+    bus(bus), powerStatusOn(true), hostStateMatch(nullptr)
 {
     getInitialState();
 }
@@ -138,6 +138,7 @@ inline void HostStateMonitor::getInitialState()
     }
     catch (const std::exception& e)
     {
-        powerStatusOn = false;
+        // Do not hide sensor failures while the host state is unknown
+        powerStatusOn = true;
     }
 }
-- 
2.43.0


From 69ecdf9c1d14848367acd70614219374e6c1726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 17/28] fix: keep a fan failed while any failed redundancy
 group lists it

---
 dbus/dbuspassiveredundancy.cpp | 173 ++++++++++++++++++++-------------
 dbus/dbuspassiveredundancy.hpp |  16 ++-
 2 files changed, 119 insertions(+), 70 deletions(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index bc88728..334d5c9 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -23,6 +23,7 @@
 #include <xyz/openbmc_project/Control/FanRedundancy/common.hpp>
 #include <xyz/openbmc_project/ObjectMapper/common.hpp>
 
+#include <algorithm>
 #include <array>
 #include <iostream>
 #include <set>
@@ -42,7 +43,6 @@ namespace properties
 {
 
 constexpr const char* interface = "org.freedesktop.DBus.Properties";
-constexpr const char* get = "Get";
 constexpr const char* getAll = "GetAll";
 
 } // namespace properties
@@ -67,46 +67,60 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
                   std::cerr << "Error reading match data";
                   return;
               }
-              auto findStatus =
-                  result.find(ControlFanRedundancy::property_names::status);
-              if (findStatus == result.end())
+              // a group fails and recovers with its status, and sensors may
+              // join or leave it meanwhile
+              if (!result.contains(
+                      ControlFanRedundancy::property_names::status) &&
+                  !result.contains(
+                      ControlFanRedundancy::property_names::collection))
               {
                   return;
               }
-              std::string status = std::get<std::string>(findStatus->second);
-
-              auto methodCall = passiveBus.new_method_call(
-                  message.get_sender(), message.get_path(),
-                  properties::interface, properties::get);
-              methodCall.append(
-                  ControlFanRedundancy::interface,
-                  ControlFanRedundancy::property_names::collection);
-              std::variant<std::vector<std::string>> collection;
-
-              try
-              {
-                  auto reply = passiveBus.call(methodCall);
-                  reply.read(collection);
-              }
-              catch (const sdbusplus::exception_t&)
-              {
-                  std::cerr << "Error reading match data";
-                  return;
-              }
-
-              auto data = std::get<std::vector<std::string>>(collection);
-              if (status.rfind("Failed") != std::string::npos)
-              {
-                  failed.insert(data.begin(), data.end());
-              }
-              else
-              {
-                  for (const auto& d : data)
-                  {
-                      failed.erase(d);
-                  }
-              }
+              updateGroup(message.get_sender(), message.get_path());
           }),
+    addedMatch(bus, "type='signal',member='InterfacesAdded'",
+               [this](sdbusplus::message_t& message) {
+                   sdbusplus::object_path path;
+                   std::unordered_map<
+                       std::string,
+                       std::unordered_map<
+                           std::string, std::variant<std::string,
+                                                     std::vector<std::string>>>>
+                       interfaces;
+                   try
+                   {
+                       message.read(path, interfaces);
+                   }
+                   catch (const sdbusplus::exception_t&)
+                   {
+                       std::cerr << "Error reading match data";
+                       return;
+                   }
+                   if (interfaces.contains(ControlFanRedundancy::interface))
+                   {
+                       updateGroup(message.get_sender(), path.str);
+                   }
+               }),
+    removedMatch(bus, "type='signal',member='InterfacesRemoved'",
+                 [this](sdbusplus::message_t& message) {
+                     sdbusplus::object_path path;
+                     std::vector<std::string> interfaces;
+                     try
+                     {
+                         message.read(path, interfaces);
+                     }
+                     catch (const sdbusplus::exception_t&)
+                     {
+                         std::cerr << "Error reading match data";
+                         return;
+                     }
+                     if (std::ranges::find(interfaces,
+                                           ControlFanRedundancy::interface) !=
+                         interfaces.end())
+                     {
+                         removeGroup(path.str);
+                     }
+                 }),
     passiveBus(bus)
 {
     populateFailures();
@@ -149,39 +163,66 @@ void DbusPassiveRedundancy::populateFailures(void)
     {
         for (const auto& [owner, _] : interfaceDict)
         {
-            auto call = passiveBus.new_method_call(
-                owner.c_str(), path.c_str(), properties::interface,
-                properties::getAll);
-            call.append(ControlFanRedundancy::interface);
-
-            std::unordered_map<
-                std::string,
-                std::variant<std::string, std::vector<std::string>>>
-                getAll;
-            try
-            {
-                auto data = passiveBus.call(call);
-                data.read(getAll);
-            }
-            catch (const sdbusplus::exception_t&)
-            {
-                std::cerr << "Populate Failures Mapper Error\n";
-                return;
-            }
-            std::string status = std::get<std::string>(
-                getAll[ControlFanRedundancy::property_names::status]);
-            if (status.rfind("Failed") == std::string::npos)
-            {
-                continue;
-            }
-            std::vector<std::string> collection =
-                std::get<std::vector<std::string>>(
-                    getAll[ControlFanRedundancy::property_names::collection]);
-            failed.insert(collection.begin(), collection.end());
+            updateGroup(owner, path);
         }
     }
 }
 
+void DbusPassiveRedundancy::updateGroup(const std::string& service,
+                                        const std::string& path)
+{
+    auto call = passiveBus.new_method_call(service.c_str(), path.c_str(),
+                                           properties::interface,
+                                           properties::getAll);
+    call.append(ControlFanRedundancy::interface);
+
+    std::unordered_map<std::string,
+                       std::variant<std::string, std::vector<std::string>>>
+        getAll;
+    try
+    {
+        auto data = passiveBus.call(call);
+        data.read(getAll);
+    }
+    catch (const sdbusplus::exception_t&)
+    {
+        std::cerr << "Error reading fan redundancy of " << path << "\n";
+        return;
+    }
+
+    auto status = std::get_if<std::string>(
+        &getAll[ControlFanRedundancy::property_names::status]);
+    auto collection = std::get_if<std::vector<std::string>>(
+        &getAll[ControlFanRedundancy::property_names::collection]);
+    if (status == nullptr || collection == nullptr ||
+        status->rfind("Failed") == std::string::npos)
+    {
+        removeGroup(path);
+        return;
+    }
+    failedGroups[path] =
+        std::set<std::string>(collection->begin(), collection->end());
+    collectFailed();
+}
+
+void DbusPassiveRedundancy::removeGroup(const std::string& path)
+{
+    if (failedGroups.erase(path) != 0)
+    {
+        collectFailed();
+    }
+}
+
+void DbusPassiveRedundancy::collectFailed(void)
+{
+    // a sensor has failed while any group containing it has
+    failed.clear();
+    for (const auto& [path, sensors] : failedGroups)
+    {
+        failed.insert(sensors.begin(), sensors.end());
+    }
+}
+
 const std::set<std::string>& DbusPassiveRedundancy::getFailed()
 {
     return failed;
diff --git a/dbus/dbuspassiveredundancy.hpp b/dbus/dbuspassiveredundancy.hpp
index c900761..949b723 100644
--- a/dbus/dbuspassiveredundancy.hpp
+++ b/dbus/dbuspassiveredundancy.hpp
@@ -19,6 +19,7 @@
 #include <sdbusplus/bus.hpp>
 #include <sdbusplus/bus/match.hpp>
 
+#include <map>
 #include <set>
 #include <string>
 
@@ -26,10 +27,10 @@ namespace pid_control
 {
 /*
  * DbusPassiveRedundancy monitors the fan redundancy interface via dbus match
- * for changes. When the "Status" property changes to  Failed, all sensors in
- * the interface's "Collection" property are added to the failed member. This
- * set can then be queried by a sensor to see if they are part of a failed
- * redundancy collection. When this happens, they get marked as failed.
+ * for changes. While the "Status" property of a group is Failed, all sensors in
+ * the interface's "Collection" property are in the failed member. This set can
+ * then be queried by a sensor to see if they are part of a failed redundancy
+ * collection. When this happens, they get marked as failed.
  */
 
 class DbusPassiveRedundancy
@@ -40,8 +41,15 @@ class DbusPassiveRedundancy
 
   private:
     void populateFailures(void);
+    void updateGroup(const std::string& service, const std::string& path);
+    void removeGroup(const std::string& path);
+    void collectFailed(void);
 
     sdbusplus::match match;
+    sdbusplus::match addedMatch;
+    sdbusplus::match removedMatch;
+    /* the sensors of each failed group, by the path of the group */
+    std::map<std::string, std::set<std::string>> failedGroups;
     std::set<std::string> failed;
     sdbusplus::bus_t& passiveBus;
 };
-- 
2.43.0


From bfcc136ee78deae2789eceda85510bd925845e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 18/28] fix: do not take an undefined tuning set point from an
 empty file

---
 pid/zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index 08efff6..35ca9be 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -294,7 +294,7 @@ static bool fileParseRpm(const std::string& fileName, double& rpmValue)
         ifs.open(fileName);
         if (ifs)
         {
-            int value;
+            int value = 0;
             ifs >> value;
 
             if (value <= 0)
-- 
2.43.0


From 242c956b8f5828be1f78223408d8dbe18b024cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 19/28] fix: really leave fans at the failsafe duty when going
 offline

A duty set by hand after the daemon's last command stayed in place when that
command happened to equal the failsafe duty, the write being suppressed as
redundant.
---
 pid/fancontroller.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pid/fancontroller.cpp b/pid/fancontroller.cpp
index 288d724..f143bfd 100644
--- a/pid/fancontroller.cpp
+++ b/pid/fancontroller.cpp
@@ -239,9 +239,10 @@ FanController::~FanController()
     for (const auto& it : _inputs)
     {
         auto sensor = _owner->getSensor(it);
-        auto redundantWrite = _owner->getRedundantWrite();
         int64_t rawWritten;
-        sensor->write(percent, redundantWrite, &rawWritten);
+        // Nothing follows this command: the fan has to get it even if it
+        // equals the last one, the duty may have been set by hand since.
+        sensor->write(percent, /* needRedundant = */ true, &rawWritten);
 
         // The outputCache will be used later,
         // to store a record of the PWM commanded,
-- 
2.43.0


From 00152eeb70caed87b2631ebbc85ab01e24199028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 20/28] fix: keep fractions of FailSafePercent configured over
 D-Bus

The percentage went through an int, 33.75% became 33%.
---
 dbus/dbusconfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index e7b0ddc..b3bc09c 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -345,7 +345,7 @@ void populatePidInfo(
                                    getPIDAttribute(base, "SetPoint"));
     }
 
-    int failsafepercent = 0;
+    double failsafepercent = 0;
     auto findFailSafe = base.find("FailSafePercent");
     if (findFailSafe != base.end())
     {
@@ -672,7 +672,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
             details.minThermalOutput = std::visit(VariantToDoubleVisitor(),
                                                   zone.at("MinThermalOutput"));
 
-            int failsafepercent = 0;
+            double failsafepercent = 0;
             auto findFailSafe = zone.find("FailSafePercent");
             if (findFailSafe != zone.end())
             {
-- 
2.43.0


From 9a9f56248089f160f1153fe0a75e248451fd88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 21/28] fix: accept a ZoneIndex published as an integer

Only a double was accepted, other zones silently got an automatic index, while
all other numbers are taken whatever their type.
---
 dbus/dbusconfiguration.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index b3bc09c..4e8d489 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -642,13 +642,26 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 continue;
             }
 
-            auto ptrZoneIndex = std::get_if<double>(&(findZoneIndex->second));
-            if (!ptrZoneIndex)
+            int64_t desiredIndex = 0;
+            if (auto asDouble = std::get_if<double>(&(findZoneIndex->second)))
+            {
+                desiredIndex = static_cast<int64_t>(*asDouble);
+            }
+            else if (auto asUnsigned =
+                         std::get_if<uint64_t>(&(findZoneIndex->second)))
+            {
+                desiredIndex = static_cast<int64_t>(*asUnsigned);
+            }
+            else if (auto asSigned =
+                         std::get_if<int64_t>(&(findZoneIndex->second)))
+            {
+                desiredIndex = *asSigned;
+            }
+            else
             {
                 continue;
             }
 
-            auto desiredIndex = static_cast<int64_t>(*ptrZoneIndex);
             auto grantedIndex = setZoneIndex(name, foundZones, desiredIndex);
             std::cout << "Zone " << name << " is at ZoneIndex " << grantedIndex
                       << "\n";
-- 
2.43.0


From 699b37522fddd286acf20f6ea9ecbd521f2f3f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 22/28] fix: pair several fans matched by one name with their
 own controls

Sensors matching one configured name came in hash map order, so the tach
sensors and the PWM controls of a fan PID were paired at random.
---
 dbus/dbusutil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dbus/dbusutil.cpp b/dbus/dbusutil.cpp
index ed537c0..45bb3f5 100644
--- a/dbus/dbusutil.cpp
+++ b/dbus/dbusutil.cpp
@@ -1,6 +1,7 @@
 
 #include <sdbusplus/bus/match.hpp>
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <map>
@@ -78,6 +79,7 @@ bool findSensors(const std::unordered_map<std::string, std::string>& sensors,
 {
     std::smatch match;
     std::regex reg('/' + search + '$');
+    const auto known = matches.size();
     for (const auto& sensor : sensors)
     {
         if (std::regex_search(sensor.first, match, reg))
@@ -85,6 +87,9 @@ bool findSensors(const std::unordered_map<std::string, std::string>& sensors,
             matches.emplace_back(sensor);
         }
     }
+    // the order must not depend on the hash map: fans and their controls are
+    // paired by position
+    std::sort(matches.begin() + known, matches.end());
     return matches.size() > 0;
 }
 
-- 
2.43.0


From deed7456f594f8dca426af50fdf7b726437156cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 23/28] fix: do not drop present stepwise inputs listed after
 an absent one

The first input that was not on D-Bus ended the list, so sensors behind it
were neither used for control nor, in MissingIsAcceptable, accepted.
---
 dbus/dbusconfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index 4e8d489..b8b2934 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -1108,7 +1108,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     {
                         if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                         {
-                            break;
+                            continue;
                         }
                         if (std::find(missingAcceptableSensorNames.begin(),
                                       missingAcceptableSensorNames.end(),
@@ -1191,7 +1191,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     {
                         if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                         {
-                            break;
+                            continue;
                         }
                         // When a sensor in the MissingIsAcceptable list is NOT
                         // on DBus and it still reaches here, which contradicts
-- 
2.43.0


From a66a007744022326430be89284975b3847ad80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 24/28] fix: keep TempToMargin with its own input over D-Bus

Absent inputs and inputs matched several times shifted the values onto other sensors.
---
 dbus/dbusconfiguration.cpp | 50 ++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index b8b2934..00b38c6 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -775,8 +775,23 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                  * Mapping can be many-to-one since an element of Inputs can be
                  * a regex
                  */
-                for (const std::string& sensorName : inputSensorNames)
+                std::vector<double> inputTempToMargin;
+
+                auto findTempToMargin = base.find("TempToMargin");
+                if (findTempToMargin != base.end())
                 {
+                    inputTempToMargin =
+                        std::get<std::vector<double>>(findTempToMargin->second);
+                }
+                // TempToMargin goes with the elements of Inputs, each of which
+                // can stand for no sensor or for several
+                std::map<std::string, double> tempToMarginByName;
+
+                for (size_t index = 0; index < inputSensorNames.size(); ++index)
+                {
+                    const std::string& sensorName = inputSensorNames[index];
+                    const size_t known = inputSensorInterfaces.size();
+
                     if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                     {
                         findSensors(sensors, sensorNameToDbusName(sensorName),
@@ -811,6 +826,11 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 auto& config = sensorConfig[inputSensorName];
                                 archivedInputSensorNames.push_back(
                                     inputSensorName);
+                                if (index < inputTempToMargin.size())
+                                {
+                                    tempToMarginByName[inputSensorName] =
+                                        inputTempToMargin[index];
+                                }
                                 config.type = pidClass;
                                 config.readPath =
                                     getSensorPath(config.type, inputSensorName);
@@ -833,6 +853,15 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                             }
                         }
                     }
+
+                    for (size_t i = known; i < inputSensorInterfaces.size() &&
+                                           index < inputTempToMargin.size();
+                         ++i)
+                    {
+                        tempToMarginByName[getSensorNameFromPath(
+                            inputSensorInterfaces[i].first)] =
+                            inputTempToMargin[index];
+                    }
                 }
                 for (const std::string& sensorName : outputSensorNames)
                 {
@@ -1018,19 +1047,20 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     }
                 }
 
-                std::vector<double> inputTempToMargin;
+                std::vector<pid_control::conf::SensorInput> sensorInputs =
+                    spliceInputs(archivedInputSensorNames, {},
+                                 missingAcceptableSensorNames);
 
-                auto findTempToMargin = base.find("TempToMargin");
-                if (findTempToMargin != base.end())
+                for (pid_control::conf::SensorInput& input : sensorInputs)
                 {
-                    inputTempToMargin =
-                        std::get<std::vector<double>>(findTempToMargin->second);
+                    auto margin = tempToMarginByName.find(input.name);
+                    if (margin != tempToMarginByName.end())
+                    {
+                        input.convertMarginZero = margin->second;
+                        input.convertTempToMargin = true;
+                    }
                 }
 
-                std::vector<pid_control::conf::SensorInput> sensorInputs =
-                    spliceInputs(archivedInputSensorNames, inputTempToMargin,
-                                 missingAcceptableSensorNames);
-
                 if (offsetType.empty())
                 {
                     conf::ControllerInfo& info = conf[pidName];
-- 
2.43.0


From ee09549f1139f2556e670d81c6d3469505d0a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 25/28] fix: put core logs in the default directory when only
 they are enabled

tuning.md promises the system temporary directory; -g alone wrote to the root directory.
---
 main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 5d15a27..8e58fbf 100644
--- a/main.cpp
+++ b/main.cpp
@@ -397,7 +397,13 @@ int main(int argc, char* argv[])
     }
     if (coreLoggingEnabled)
     {
-        std::cerr << "Core logging enabled\n";
+        if (loggingPath.empty())
+        {
+            // Core logging can be enabled on its own
+            loggingPath = defLoggingPath;
+        }
+
+        std::cerr << "Core logging enabled: " << loggingPath << "\n";
     }
 
     static constexpr auto modeRoot = "/xyz/openbmc_project/settings/fanctrl";
-- 
2.43.0


From 1add5e0e7c9f3903c49cd9e95f3fe616e0aa8481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 26/28] fix: read the host state after subscribing to its
 changes

---
 hoststatemonitor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hoststatemonitor.hpp b/hoststatemonitor.hpp
index 804846c..d0e04c1 100644
--- a/hoststatemonitor.hpp
+++ b/hoststatemonitor.hpp
@@ -82,6 +82,9 @@ inline void HostStateMonitor::startMonitoring()
             [this](sdbusplus::message_t& message) {
                 handleStateChange(message);
             });
+
+        // The state may have changed since it was read
+        getInitialState();
     }
 }
 
-- 
2.43.0


From 88a721d31077887309b204575ece33880fdafe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 27/28] fix: accept a sensor without a readPath in a
 configuration file

configure.md documents readPath as optional ("If the value is absent or
None it will be treated as a write-only sensor"), but a file with such a
sensor was rejected.
---
 sensors/buildjson.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sensors/buildjson.cpp b/sensors/buildjson.cpp
index 770647e..cee6fd5 100644
--- a/sensors/buildjson.cpp
+++ b/sensors/buildjson.cpp
@@ -20,7 +20,17 @@ namespace conf
 void from_json(const json& j, conf::SensorConfig& s)
 {
     j.at("type").get_to(s.type);
-    j.at("readPath").get_to(s.readPath);
+
+    /* The readPath field is optional in a configuration */
+    auto readPath = j.find("readPath");
+    if (readPath == j.end())
+    {
+        s.readPath = "";
+    }
+    else
+    {
+        j.at("readPath").get_to(s.readPath);
+    }
 
     /* The writePath field is optional in a configuration */
     auto writePath = j.find("writePath");
-- 
2.43.0


From f14187bdb1111c75c99d105ca6c0a44425e261cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:38 +0000
Subject: [PATCH 28/28] fix: wait for every zone's loop before a reload or the
 end

Only the first zone was looked at. If its last handler ran before that
of another zone (the daemon was held up and several timers expired
meanwhile), the zones and sensors were dropped while a zone was still
in use, and its bus objects clashed with those of the new zones.
---
 main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 8e58fbf..bc991e9 100644
--- a/main.cpp
+++ b/main.cpp
@@ -30,6 +30,7 @@
 #include <sdbusplus/bus.hpp>
 #include <sdbusplus/server/manager.hpp>
 
+#include <algorithm>
 #include <chrono>
 #include <csignal>
 #include <cstdint>
@@ -115,7 +116,10 @@ void stopControlLoops()
     state::isCanceling = true;
     state::timers.clear();
 
-    if (state::zones.size() > 0 && state::zones.begin()->second.use_count() > 1)
+    // Any zone's loop may still have its last handler waiting to run.
+    if (std::any_of(
+            state::zones.begin(), state::zones.end(),
+            [](const auto& zone) { return zone.second.use_count() > 1; }))
     {
         throw std::runtime_error("wait for count back to 1");
     }
-- 
2.43.0


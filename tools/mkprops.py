#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Fans never run below the failsafe duty while a sensor has failed",
 "While a zone is in automatic mode with tuning off and at least one of its sensors is failed, every fan command of that zone is at least the failsafe duty: the largest failsafe percentage configured for the currently failed sensors, a sensor without one (or with 0) counting with the zone's percentage. A computed duty above the failsafe duty is sent unchanged, unless the build selects strict failsafe, in which case exactly the failsafe duty is sent; with no failed sensor, or with tuning on, the computed duty is sent unclamped. A sensor used by several loops counts with the largest failsafe percentage any of them configures for it, and fractional percentages are honoured exactly.",
 ["histories", "configurations", "fault_sequences"],
 "all orders in which the sensors of a zone fail and recover, for every assignment of zone/sensor/loop failsafe percentages, every computed duty above, at and below them, both build variants, with and without tuning",
 "pid_fancontroller_unittest samples one mocked failsafe percentage per test and pid_zone_unittest two sensors; no test drives the real zone, the real loops and the real fan write together through fail/recover histories",
 ["pid/fancontroller.cpp", "pid/zone.cpp", "pid/builder.cpp", "pid/buildjson.cpp", "dbus/dbusconfiguration.cpp"],
 [("FanController::outputProc", "pid/fancontroller.cpp"), ("DbusPidZone::getFailSafePercent/markSensorMissing/addPidFailSafePercent", "pid/zone.cpp"), ("buildZones", "pid/builder.cpp")],
 ["values written to the fans"])

prop("C02", "A zone is in failsafe exactly while a needed sensor is bad",
 "From start-up a zone is in failsafe for every fan and temperature input until that input has delivered a good reading; from then on an input is counted as failed exactly when, at its latest evaluation, the sensor reported failure or (with a non-zero timeout) its last update was at least the timeout ago, and inputs configured as acceptable-when-missing never count. The zone's published fail-safe state is true exactly while at least one input is counted, so one sensor's recovery never clears another sensor's failure and the zone leaves failsafe as soon as the last one recovers. A failed input keeps contributing its last value to the control loops and never stops other inputs from being evaluated.",
 ["histories", "fault_sequences", "schedules"],
 "all sequences of good/failed/stale readings of several fans and temperatures over several cycles, with every subset marked acceptable-when-missing and timeouts 0 and non-zero, the cycle falling before, at and after the timeout instant",
 "pid_zone_unittest scripts a handful of mocked reading sequences with one or two sensors and never the boundary instants or mixed recoveries",
 ["pid/zone.hpp", "pid/zone.cpp"],
 [("processSensorInputs", "pid/zone.hpp"), ("markSensorMissing/initializeCache/getFailSafeMode", "pid/zone.cpp")],
 ["zone failsafe state and D-Bus FailSafe property"])

prop("C03", "D-Bus sensor health is classified correctly from every signal sequence",
 "A D-Bus-fed sensor counts as failed exactly when its latest reported state is bad: a non-finite value, not functional, not available, a critical alarm asserted (with the warning option: also a warning-high alarm), a margin sensor reading at or below zero, or a fan whose redundancy group has failed; a non-fan sensor configured not to treat unavailability as failure never counts as failed while unavailable, and with the missing-object option a sensor absent from the bus is failed. A critical-high alarm clearing never hides a still-asserted critical-low alarm or the converse. Every condition clears when, and only when, its own property reports good again (a sensor that became unavailable has no reading until the next one is reported, and alarms and availability, but not the functional state, are also read from the bus at start), and reading the sensor returns the last finite value reported (scaled to unit range when the sensor declares one) with the time it was reported.",
 ["histories", "inputs", "configurations"],
 "all sequences of value/availability/functional/threshold signals up to the stated depth, with every sensor kind, both availability policies, both threshold build options and initial states present or absent",
 "dbus_passive_unittest feeds single messages to one sensor and cannot build here; combinations and orders of conditions are not covered",
 ["dbus/dbuspassive.cpp", "dbus/dbushelper.cpp", "util.cpp"],
 [("DbusPassive::getFailed/handleSensorValue", "dbus/dbuspassive.cpp"), ("DbusHelper::getProperties/thresholdsAsserted", "dbus/dbushelper.cpp"), ("scaleSensorReading", "util.cpp")],
 ["sensor read() and getFailed() results", "zone failsafe state"])

prop("C04", "A file-backed reading is fresh and exact, or not a reading",
 "Reading a file-backed (hwmon) sensor returns exactly the integer in the file at that moment. A file that is missing, unreadable, empty or not a number is never turned into a made-up value, and the zone counts the sensor as failed no later than its timeout after the last good reading. When the file becomes readable again the next reading is the new value and the sensor has recovered.",
 ["fault_sequences", "histories", "inputs"],
 "all sequences of good, changed, missing, empty and garbage file contents over several reads, including negative, zero and large values, with and without sensor timeouts, for fans and temperatures, also through wildcard paths",
 "no existing test reads a file; the sysfs backend is only compiled",
 ["sysfs/sysfsread.cpp", "sysfs/util.cpp", "sensors/pluggable.cpp"],
 [("SysFsRead::read", "sysfs/sysfsread.cpp"), ("FixupPath", "sysfs/util.cpp"), ("PluggableSensor::read", "sensors/pluggable.cpp")],
 ["sensor read() result", "zone failsafe state"])

prop("C05", "The zone target is the largest thermal request within floor and ceiling",
 "After every thermal evaluation a zone's target is the largest set point requested by its enabled temperature, margin, power and stepwise loops in that evaluation (never below zero), limited by the lowest requested ceiling, and raised to the zone's configured minimum; requests of earlier evaluations have no effect. When accumulation is configured, the (non-negative) requests of loops sharing a profile are added first. The published leader names the loop (or profile) that set the target, the earliest on ties, or says that the ceiling or the minimum did.",
 ["inputs", "histories", "configurations"],
 "all assignments of requests (negative, zero, equal, above/below minimum and ceiling) by up to three loops and two ceilings over consecutive evaluations, with and without accumulation and disabled loops",
 "pid_zone_unittest checks one ascending list of set points and one ceiling; ties, stale requests across evaluations, accumulation and the ceiling/minimum interplay are not exercised together",
 ["pid/zone.cpp", "pid/thermalcontroller.cpp", "pid/stepwisecontroller.cpp", "pid/pidloop.cpp"],
 [("addSetPoint/addRPMCeiling/determineMaxSetPointRequest/clearSetPoints", "pid/zone.cpp"), ("processThermals", "pid/pidloop.cpp")],
 ["zone target set point and leader"])

prop("C06", "Loop output, integral and slew always stay within configured limits",
 "For every sequence of inputs and set points a PID loop's output is finite and within its configured minimum and maximum output, and its stored integral term stays within the configured integral limits, so no input history winds it up beyond them. When slew limits are configured, two consecutive outputs never differ by more than the configured rate allows in one sample period, except that the output limits always win at the first sample. The zero that set-point checking forces is the only output outside these rules, and a loop whose integral gain is zero and which has no slew limits never accumulates an integral.",
 ["histories", "inputs", "configurations"],
 "all input/set point sequences up to the stated depth over small alphabets, for every combination of gains, limits, slew rates and sample periods in the stated grid",
 "pid_* tests call the loop with mocked zones for one or two samples; bounds over histories are not tested at all",
 ["pid/ec/pid.cpp", "pid/util.cpp", "pid/pidcontroller.cpp"],
 [("ec::pid", "pid/ec/pid.cpp"), ("initializePIDStruct", "pid/util.cpp")],
 ["value returned by each loop evaluation"],
 [("pid_info_t", "gains, limits and running state of one loop", "pid/ec/pid.hpp")])

prop("C07", "Each loop computes the documented PID law, hysteresis included",
 "On each sample the output is proportional + integral + derivative + feed-forward terms of the configured gains with the configured sample period, with the integral advanced only by the current error, the derivative by the change of error since the previous sample, and the integral re-derived from the limited output when a slew limit is configured. With hysteresis configured, the law is run on a held input that is replaced only by an input above it by more than the positive or below it by more than the negative width; with set-point checking enabled instead, an input above the band around the set point runs the law, one below it forces zero and clears the integral, and one inside repeats the previous output. Loops never influence one another's state.",
 ["histories", "inputs", "configurations"],
 "all input/set point sequences up to the stated depth for every gain/limit/hysteresis/set-point-check combination in the stated grid, compared sample by sample with an independent reference",
 "existing tests check at most one step of the law with fixed gains and no test covers histories or hysteresis with set-point checking",
 ["pid/ec/pid.cpp", "pid/pidcontroller.cpp", "pid/util.cpp"],
 [("ec::pid", "pid/ec/pid.cpp"), ("PIDController::process/calPIDOutput", "pid/pidcontroller.cpp"), ("initializePIDStruct", "pid/util.cpp")],
 ["value handed to the output stage"])

prop("C08", "Thermal loops use the right input: hottest, least margin, or power sum",
 "A temperature or power loop uses the largest, a margin loop the smallest and a power-sum loop the sum of the current readings of all its inputs, ignoring readings that are not numbers, and if none is a number it uses its set point as input so that it requests no change. A margin derived from an absolute temperature is the configured limit minus the reading, per input. Each evaluation publishes the input that determined the value as that loop's leader, and the loop's own set point is the configured constant.",
 ["inputs", "configurations"],
 "all assignments of small value alphabets (numbers, ties, negatives, NaN) to up to three inputs, for each of the loop types and every conversion configuration",
 "pid_thermalcontroller_unittest samples a few two-input cases with mocks and no NaN/conversion mixtures",
 ["pid/thermalcontroller.cpp", "pid/thermalcontroller.hpp"],
 [("ThermalController::inputProc/setptProc/outputProc", "pid/thermalcontroller.cpp")],
 ["set point requests and debug interface of the loop"])

prop("C09", "Stepwise tables are applied exactly, with hysteresis and no drift",
 "A stepwise loop evaluates its table at the largest numeric reading of its inputs: the result is the output of the last table point whose reading is not above the input, or the first output when the input is below all points. The output changes only when the input has left the hysteresis band around the input that produced the current output (rising beyond the positive width or falling beyond the negative width), and is otherwise repeated. The result is requested as a set point, or as a ceiling when the loop is configured as one; table points beyond the configured count are never used.",
 ["histories", "inputs", "configurations"],
 "all input sequences up to the stated depth over values below, at, between and above the table points, for every table length up to the maximum, hysteresis combination and set point/ceiling choice",
 "pid_stepwisecontroller_unittest tests two or three samples of one table",
 ["pid/stepwisecontroller.cpp", "pid/ec/stepwise.cpp"],
 [("StepwiseController::process", "pid/stepwisecontroller.cpp"), ("ec::stepwise", "pid/ec/stepwise.cpp")],
 ["set point/ceiling requests"])

prop("C10", "A fan loop follows its slowest live fan and commands all its fans alike",
 "On every fan cycle in automatic mode each fan loop uses as feedback the smallest positive finite speed among its fans (zero when there is none), with the zone's target as set point, and sends one and the same duty, its output percentage, to every one of its fans, fans without a speed reading included. Every fan of the loop is commanded on every such cycle whatever the other fans report.",
 ["inputs", "histories", "configurations"],
 "all assignments of speeds (positive, zero, negative, NaN, infinite) to one to three fans over consecutive cycles and targets, with one or two fan loops per zone",
 "pid_fancontroller_unittest covers two fans and a few values with mocks, never the real zone and writers",
 ["pid/fancontroller.cpp", "pid/zone.cpp", "pid/pidloop.cpp"],
 [("FanController::inputProc/setptProc/outputProc", "pid/fancontroller.cpp"), ("processFans", "pid/zone.cpp")],
 ["values written to fans"])

prop("C11", "Manual mode: the daemon touches nothing; automatic mode restores every fan",
 "While a zone is in manual mode the daemon sends no command to any of its fans, however its sensors change or fail, and other zones keep running. When automatic mode is restored the next fan cycle sends the loop's output to every fan of the zone even if it equals what the daemon last sent, so that duties set by hand are overridden; redundant re-sends happen only then. The published manual property reads back what was last set.",
 ["histories", "schedules", "inputs"],
 "all interleavings of manual on/off requests, external fan writes and sensor changes with the cycles of two zones, up to the stated depth, including toggles between two cycles",
 "pid_zone_unittest only checks the flag getter; no test runs the loop through mode changes",
 ["pid/zone.cpp", "pid/pidloop.cpp", "pid/fancontroller.cpp", "dbus/dbuswrite.cpp"],
 [("setManualMode/manual/_redundantWrite", "pid/zone.cpp"), ("pidControlLoop", "pid/pidloop.cpp")],
 ["fan writes; Manual property"])

prop("C12", "Fan and thermal loops run at their configured rates without drift",
 "After start each zone evaluates its thermal loops once immediately and then runs a fan cycle exactly every configured fan interval measured from the start, however long the individual evaluations take; the number of thermal evaluations matches the configured ratio at every instant, the remainder being carried, not lost. Intervals default to 100 ms and 1000 ms when not configured, zones with different intervals do not affect one another, and time spent in manual mode adds no thermal evaluations.",
 ["schedules", "configurations", "histories"],
 "all pairs of fan/thermal intervals in the stated set (including thermal not a multiple of, equal to and shorter than the fan interval), with delays of late wake-ups and manual periods injected at every cycle up to the stated horizon",
 "no test runs the timer loop",
 ["pid/pidloop.cpp", "pid/zone.hpp", "pid/buildjson.cpp"],
 [("pidControlLoop", "pid/pidloop.cpp"), ("getCycleIntervalTime/getUpdateThermalsCycle", "pid/zone.cpp")],
 ["instants of fan writes and set point updates"])

prop("C13", "Reload and termination: one set of loops, no stale ones, clean exit",
 "A reload request replaces the running control loops by loops built from the current configuration: afterwards exactly one loop runs per configured zone, with no fan command from the old configuration, the published objects are those of the new configuration, and any number of requests in any timing leads to the same end state. A termination request stops all loops and makes the program exit successfully, also when it arrives during start-up or a pending reload. A reload or start whose configuration is not available yet is retried when it becomes available, and a broken configuration file ends the program with a failure instead of running uncontrolled.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all sequences of reload and terminate signals, configuration changes and waiting periods at the stated instants relative to the running cycles, with both configuration sources",
 "no test runs the program's main function or its signal handling",
 ["main.cpp", "pid/builder.cpp", "pid/pidloop.cpp"],
 [("restartControlLoops/tryRestartControlLoops/stopControlLoops/tryTerminateControlLoops", "main.cpp")],
 ["fan writes; published objects; exit status"])

prop("C14", "The JSON configuration is honoured value for value, defaults included",
 "For every valid configuration file each sensor, zone and loop is built with exactly the values given (type, paths, limits, timeouts, gains, limits, hysteresis, tables, failsafe percentages, acceptable-when-missing, intervals), omitted optional values (and intervals that are not positive) take their documented defaults, and values given are never applied to another sensor, zone or loop. Unknown keys are ignored; a file that is missing, malformed or lacks a mandatory value is rejected with an error rather than run with made-up values.",
 ["configurations", "inputs"],
 "every optional key present, absent and at boundary values, alone and in the stated combinations, plus every mandatory key removed one at a time",
 "pid_json/sensors_json unit tests check a few example documents; no absent-mandatory or cross-assignment coverage",
 ["pid/buildjson.cpp", "sensors/buildjson.cpp", "buildjson/buildjson.cpp", "pid/builder.cpp", "sensors/builder.cpp"],
 [("buildPIDsFromJson", "pid/buildjson.cpp"), ("buildSensorsFromJson", "sensors/buildjson.cpp"), ("parseValidateJson/validateJson", "buildjson/buildjson.cpp")],
 ["resulting sensor, zone and loop configurations"])

prop("C15", "The D-Bus configuration is honoured object for object",
 "For every set of configuration objects published on the bus, in any order of the bus's answers, the resulting zones, loops and sensors are exactly those the objects describe. A loop is made in every zone it names, a zone keeping its published ZoneIndex unless that number is taken and otherwise getting an unused one. Each element of Inputs stands for the published sensors its name (spaces as underscores) matches, several in path order; elements matching nothing are skipped without affecting the others, and TempToMargin belongs to the element at its position. Each fan is driven through its own control; fans and controls that do not pair up are refused. Values are taken from the object they belong to, unabridged, and omitted optional ones take their defaults; objects lacking mandatory values are refused. A SetPointOffset makes one loop per input. Objects naming profiles are used only while one of them is selected, or when none is selected.",
 ["configurations", "inputs", "histories"],
 "every subset/order of a small universe of configuration objects, names, profiles, output kinds and optional properties in the stated grid",
 "the D-Bus configuration builder has no test at all",
 ["dbus/dbusconfiguration.cpp", "dbus/dbusutil.cpp"],
 [("dbus_configuration::init", "dbus/dbusconfiguration.cpp"), ("findSensors/getZoneIndex", "dbus/dbusutil.cpp")],
 ["resulting sensor, zone and loop configurations"])

prop("C16", "Duties reach the fan hardware exactly, once, and are retried on failure",
 "A duty between 0 and 1 is translated to minimum + (maximum - minimum) x duty, truncated, for the fan's configured range and written to that fan's control only. On the bus a value equal to the one of the last request, if that was delivered, is not sent again unless forced; any changed value is sent, and after a request whose delivery failed the next one is sent whatever its value. File-backed controls receive every request.",
 ["inputs", "histories", "fault_sequences"],
 "all sequences of duties, forced flags and delivery failures up to the stated depth for percent and raw writers, bus and file back ends and a grid of ranges",
 "no existing test covers the writers",
 ["dbus/dbuswrite.cpp", "sysfs/sysfswrite.cpp", "sensors/pluggable.cpp", "interfaces.hpp"],
 [("DbusWrite(Percent)::write", "dbus/dbuswrite.cpp"), ("SysFsWrite(Percent)::write", "sysfs/sysfswrite.cpp")],
 ["bus property writes; file contents"])

prop("C17", "IPMI manual/failsafe commands act on the addressed zone or refuse",
 "For every request payload the handler either reads or sets the manual state, or reads the failsafe state, of exactly the zone number given (0 to 255), answering a read with that state in one byte, or returns an error and changes nothing. Requests that are too short or use an unknown sub-command are refused as invalid without touching the bus, bus failures, zones that do not exist and states that are not published are reported as errors, and no payload makes it read or write outside the message.",
 ["inputs", "fault_sequences"],
 "every sub-command byte, every zone byte, every mode byte, every payload length from 0 to the stated maximum, every bus outcome",
 "the IPMI handlers have no test",
 ["ipmi/manualcmds.cpp", "ipmi/dbus_mode.cpp", "ipmi/main_ipmi.cpp"],
 [("ZoneControlIpmiHandler::*", "ipmi/manualcmds.cpp"), ("DbusZoneControl::*", "ipmi/dbus_mode.cpp")],
 ["completion code, response bytes and bus calls"])

prop("C18", "Zone log rows always match the header and the values used",
 "With zone logging enabled every zone writes one header and then one row per fan cycle in automatic mode with the same number of columns in the same order: time in milliseconds, target, leader, then for each fan its scaled and raw speed and the duty and raw value last commanded, then for each temperature input its scaled and raw value, then the failsafe flag. Speeds are the ones the cycle read; target, leader and temperatures are those of the latest thermal evaluation before the cycle, duties those of the last command before it, and the flag is the state at its end. Rows are complete once the zone is gone, and zones log to separate files.",
 ["histories", "configurations"],
 "all zone shapes (number of fans and temperatures) and reading/failure/manual histories up to the stated depth",
 "no test looks at a log file",
 ["pid/zone.cpp", "pid/zone.hpp", "pid/pidloop.cpp"],
 [("initializeLog/updateFanTelemetry/writeLog", "pid/zone.cpp"), ("processSensorInputs", "pid/zone.hpp")],
 ["zone log file"])

prop("C19", "Failsafe messages are never duplicated, flooded or attributed wrongly",
 "A message submitted for a zone with its failsafe state is printed when the zone is in failsafe or just left it, unless the same location and reason was accepted since that state last changed or the configured number of messages was accepted for the zone within the last second. So each distinct failure is reported at most once per state, never more than the configured number per second, and a first failure after a quiet second always. Messages of one zone never consume the budget or the memory of another, a sensor's failure is submitted for every zone that uses it, and a running zone only prints the state it really is in: entering failsafe names the failed sensor, and leaving it is reported.",
 ["histories", "schedules"],
 "all sequences of (zone, state, location, reason, time step) operations up to the stated depth with several budgets",
 "no test covers the logger",
 ["failsafeloggers/failsafe_logger.cpp", "failsafeloggers/failsafe_logger_utility.hpp", "failsafeloggers/builder.cpp"],
 [("FailsafeLogger::outputFailsafeLog", "failsafeloggers/failsafe_logger.cpp"), ("outputFailsafeLogWithZone/Sensor", "failsafeloggers/failsafe_logger_utility.hpp")],
 ["messages printed"])

prop("C20", "Host-supplied sensors hold the last value written, with its time",
 "A sensor supplied by the host over the bus returns the last value the host wrote together with the time it was written, starts with value zero, is failed exactly when the last value is not a finite number or (in its zone) it has gone its configured timeout without an update, and each host sensor is published under its own name without affecting others.",
 ["histories", "schedules", "inputs"],
 "all sequences of writes (finite, zero, negative, NaN, infinite, repeated equal values), reads and time steps on two host sensors up to the stated depth",
 "sensor_host_unittest writes one value",
 ["sensors/host.cpp", "sensors/builder.cpp"],
 [("HostSensor::value/read/getFailed", "sensors/host.cpp")],
 ["sensor read(), getFailed(), published Value, zone failsafe state"])

prop("C21", "Zones are independent of one another",
 "What one zone does (its targets, failsafe state, fan commands, mode and published state) depends only on its own configuration, sensors and requests: adding another zone, or changing, failing or putting in manual mode anything in the other zone, leaves the first zone's sequence of fan commands and published states unchanged. Zones may share temperature sensors and each evaluates them with its own settings.",
 ["histories", "schedules", "configurations"],
 "all histories of events in one zone composed with all histories of events in another up to the stated depth, compared with the zone running alone",
 "no test builds two zones",
 ["pid/zone.cpp", "pid/builder.cpp", "pid/pidloop.cpp", "main.cpp"],
 [("buildZones", "pid/builder.cpp"), ("per-zone state", "pid/zone.hpp")],
 ["per-zone fan writes and published state"])

prop("C22", "Sensors expected to vanish with host power only fail while the host is on",
 "A sensor configured to be ignored while the host is off is not counted as failed for anything it reports while the host is known to be off (a configured timeout still counts), and is judged normally as soon as the host is on again; sensors without that option are always judged normally. The host is on exactly while its last reported state is Running; before any state could be read failures are not hidden. The decision follows every host state change in any order with the sensor's own changes.",
 ["histories", "schedules", "fault_sequences"],
 "all interleavings of host state changes, host-state service failures and sensor condition changes up to the stated depth for bus-fed and host-supplied sensors",
 "no test covers host state gating with real state changes",
 ["hoststatemonitor.hpp", "dbus/dbuspassive.cpp", "sensors/host.cpp", "sensors/builder.cpp"],
 [("HostStateMonitor", "hoststatemonitor.hpp"), ("getFailed", "dbus/dbuspassive.cpp, sensors/host.cpp")],
 ["sensor getFailed()", "zone failsafe state"])

prop("C23", "A failed fan redundancy group fails exactly its fans",
 "Every fan listed in a redundancy group whose published status is failed counts as failed, and stops counting when no group containing it is failed, whatever the order in which groups appear, disappear, change status or change membership. Fans outside failed groups and sensors that are not fans are unaffected.",
 ["histories", "configurations"],
 "all sequences of group appearance, status and membership events over two groups and three fans up to the stated depth, with initial states present on the bus",
 "no test covers redundancy",
 ["dbus/dbuspassiveredundancy.cpp", "dbus/dbuspassive.cpp"],
 [("DbusPassiveRedundancy", "dbus/dbuspassiveredundancy.cpp")],
 ["fan getFailed()"])

prop("C24", "Fans are left at the failsafe duty when control stops (offline option)",
 "With the offline-failsafe build option, whenever a zone's control loops are torn down (reload, configuration change or exit) every fan of the zone is left at the zone's failsafe duty by the last command of those loops, in manual mode and after duties set by hand too: the largest failsafe percentage of the sensors failed at that moment (one without a percentage counting with the zone's), or the zone's percentage when none is failed. A fan that refuses the command does not keep the others from getting theirs. Without the option, stopping sends no fan command at all.",
 ["configurations", "histories"],
 "all zone shapes and sensor failure histories in the stated grid, stopped after every cycle count, in both build variants",
 "the option is off in the tested build",
 ["pid/fancontroller.cpp", "main.cpp"],
 [("FanController::~FanController", "pid/fancontroller.cpp")],
 ["fan writes after stop"])

prop("C25", "Tuning set point files override the target only with a usable value",
 "With tuning enabled a zone's target is replaced by the value in the zone's own set point file if it holds an integer above 100, else by the value in the common file if that does, else it is left as computed; absent, empty or unparsable files and values of 100 or less never change the target. Changes of the files take effect at the next thermal evaluation, and without tuning the files are ignored.",
 ["inputs", "histories", "fault_sequences"],
 "all sequences of file contents (absent, empty, garbage, 0, 100, 101, large, negative, trailing text) of the common and the zone files over consecutive evaluations, with and without tuning and for several zones",
 "no test touches the tuning files",
 ["pid/zone.cpp", "pid/tuning.cpp"],
 [("fileParseRpm/determineMaxSetPointRequest", "pid/zone.cpp")],
 ["zone target"])

prop("C26", "Every relevant configuration change leads to exactly one reload per burst",
 "When the configuration comes from the bus, any change of a property of a zone, PID or stepwise configuration object or of the selected profile, and any sensor appearing or vanishing, leads to a reload with the then current configuration once changes have been quiet for two seconds; a burst of changes (less than two seconds apart) leads to one reload and never more, and changes of unrelated objects, or a sensor merely gaining associations, lead to none. No change is lost, including ones that arrive during a pending reload or before the first successful start; the fans follow the final configuration within 25 seconds of the last change.",
 ["schedules", "histories"],
 "all sequences of relevant and irrelevant change events with gaps below, at and above the quiet period up to the stated depth",
 "no test covers change handling",
 ["dbus/dbusconfiguration.cpp", "main.cpp"],
 [("eventHandler/createMatches", "dbus/dbusconfiguration.cpp")],
 ["published objects and fan commands after the burst"])

prop("C27", "A loop disabled over the bus requests nothing until it is re-enabled",
 "Each thermal loop's published enable switch decides whether its set point request counts: from the evaluation after it is switched off its requests have no influence on the target, from the evaluation after it is switched on they count again, and the other loops are unaffected. The inputs, outputs, set points, class and leaders published for temperature, margin and power loops are those of the latest evaluation.",
 ["histories", "schedules"],
 "all interleavings of enable/disable requests on up to three loops with evaluations and reading changes up to the stated depth",
 "pid_zone_unittest cannot build here and toggles a single loop once",
 ["pid/zone.cpp", "pid/builder.cpp", "pid/thermalcontroller.cpp"],
 [("addPidControlProcess/isPidProcessEnabled/updateThermalPowerDebugInterface", "pid/zone.cpp")],
 ["zone target; published loop properties"])

prop("C28", "Core loop logging is faithful and never floods or changes control",
 "With core logging enabled each loop's core log has one header and rows of the same column count whose values and time are those of the logged evaluation: a row is written for the first evaluation after a (re)load, when any value differs from the last row's, and otherwise only once 60 seconds have passed since the last row. The coefficient log has one header and one row per (re)load. The logs are named after the loop, in the directory of the zone logs or else the temporary directory. Enabling any logging never changes a fan command, and a name, file or directory that cannot be used disables only that log, without affecting control.",
 ["histories", "schedules", "configurations"],
 "all input histories up to the stated depth over values equal to, near and far from the previous ones with time steps below, at and above the periods",
 "no test looks at the core log",
 ["pid/ec/logging.cpp", "pid/ec/pid.cpp", "pid/util.cpp"],
 [("LogInit/LogPeek/LogContext/dumpContext", "pid/ec/logging.cpp")],
 ["core log file", "fan writes"])

prop("C29", "No input or schedule crashes, stops or wears out the daemon",
 "Whatever sensors, the bus, users and the host report or request, in any order and at any time, reloads and termination included, the running daemon never touches memory it does not own or has released, never performs an undefined operation, never ends by an exception and never stops controlling a zone for good because of one sensor, message or failing call; and it ends cleanly on SIGTERM. However often events and reloads are repeated, they leave it with no more bus subscriptions, published objects, open files or memory than a few repetitions do.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences of events of 17 kinds (reload, reconfiguration, objects vanishing, bad readings, alarms, mode requests, failing writes, host and redundancy changes, integer and partial messages, refused requests, unusable files) up to the stated depth with gaps below and above the cycle and the reload delay, for both configuration sources and option sets, under address and undefined-behaviour sanitizers",
 "tests run single classes with mocks and no sanitizer, never main()",
 ["main.cpp", "pid/zone.cpp", "dbus/dbuspassive.cpp", "dbus/dbusconfiguration.cpp", "pid/pidloop.cpp", "pid/ec/logging.cpp"],
 [("restartControlLoops/tryRestartControlLoops", "main.cpp"), ("pidControlLoop", "pid/pidloop.cpp"), ("handleSensorValue", "dbus/dbuspassive.cpp"), ("createMatches/eventHandler", "dbus/dbusconfiguration.cpp")],
 ["process state, fan commands, bus subscriptions, objects, descriptors and memory held"])

prop("C30", "Start-up takes the named configuration source and switches, no others",
 "The configuration is the file named on the command line, else config.json in the current directory, in /var/lib/swampd or in /usr/share/swampd, the first that exists, else the one published on the bus, and without one nothing is controlled; each reload looks again. Tuning, debugging, zone and core logging are each enabled by their option or their file in /etc/thermal.d and by nothing else, from start-up on; only tuning influences the fans, and logs appear only where asked for. A command line that cannot be honoured ends the program with a failure before anything is controlled. Zones and their loops are published below the fan control name and host sensors below the external sensor name, and stay so over reloads.",
 ["configurations", "histories"],
 "all combinations of command line forms, existing configuration files, bus configuration and changes of them before reloads; all combinations of the switches given by option, long option or file; all refused command lines of a list; up to three zones over up to two reloads",
 "no test runs main()",
 ["main.cpp", "pid/tuning.cpp", "sensors/builder.cpp", "pid/builder.cpp"],
 [("main/searchConfigurationPath/restartControlLoops", "main.cpp")],
 ["published objects", "fan writes", "files", "exit status"])

prop("C31", "Nothing that happens while the daemon starts or reloads is lost",
 "Whatever changes on the bus while the daemon starts or reloads, at any point between its bus operations (readings, availability and alarms of sensors, the host state, redundancy groups, zone configuration, selected profile, sensors appearing or vanishing, another reload request), is taken into account: once things are quiet, the published zones, their fail-safe state and the duties of the fans are those of the then current state, as if it had been so from the beginning. Bus calls that fail for a while during a start or reload only delay this; just alarms, redundancy groups and a host state that cannot be read count as absent or unknown until they are next reported.",
 ["schedules", "fault_sequences"],
 "every position of one event and of adjacent pairs of events of 11 kinds (both directions) among all bus operations of a start and of a reload, from a file and from the bus; every position and several lengths of failing calls for 11 states of the bus",
 "tests deliver no events during construction",
 ["hoststatemonitor.hpp", "main.cpp", "dbus/dbuspassive.cpp", "dbus/dbuspassiveredundancy.cpp", "dbus/dbusconfiguration.cpp"],
 [("startMonitoring/getInitialState", "hoststatemonitor.hpp"), ("createDbusPassive", "dbus/dbuspassive.cpp"), ("createMatches/init", "dbus/dbusconfiguration.cpp"), ("tryRestartControlLoops", "main.cpp")],
 ["published zones", "FailSafe property", "last fan writes"])

prop("C32", "After a reload the daemon behaves as one freshly started",
 "Once a reload is complete, everything the daemon does and publishes is determined by the current configuration, the current state of the sensors, fans, host and redundancy groups, and what happens from then on: the fan commands and their instants, the published zones, loops and host sensors with all their properties, the failsafe messages and the zone logs are those of a daemon freshly started at that instant in the same surroundings. Nothing of the time before shows: not earlier readings, failures, loop integrals, held outputs, manual mode, switched-off loops, refused fan commands, zones, sensors, loops, indices or settings of configurations loaded meanwhile, nor attempts to reload that failed. (Core logs are continued, see C28.)",
 ["histories", "schedules", "configurations", "fault_sequences"],
 "all pasts of up to the stated number of events of 15 kinds (readings, alarms, failures, host and group changes, mode and loop requests, refused fan commands, other configurations, failing reloads, profile), soon after one another or not, the last also during the delay of the reload, followed by a reload of the same or another configuration and 11 seconds of changes of every kind; from a file and from the bus, with and without logs",
 "no test reloads anything",
 ["main.cpp", "pid/builder.cpp", "sensors/builder.cpp", "dbus/dbusconfiguration.cpp", "pid/zone.hpp"],
 [("restartControlLoops/stopControlLoops", "main.cpp"), ("dbus_configuration::init", "dbus/dbusconfiguration.cpp"), ("buildZones", "pid/builder.cpp"), ("buildSensors", "sensors/builder.cpp")],
 ["fan writes", "published objects and properties", "failsafe messages", "zone logs"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")

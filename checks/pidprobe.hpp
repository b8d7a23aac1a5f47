// A real PID loop whose input and set point are chosen by the explorer.
#pragma once
#include "config.h"
#include "mc.hpp"
#include "vtime.hpp"

#include "pid/ec/logging.hpp"
#include "pid/ec/pid.hpp"
#include "pid/pidcontroller.hpp"
#include "pid/tuning.hpp"
#include "util.hpp"

#include <cmath>
#include <string>

namespace pp
{
using namespace pid_control;
class Loop : public PIDController
{
  public:
    Loop(const std::string& id, const ec::pidinfo& p) :
        PIDController(id, nullptr)
    {
        initializePIDStruct(getPIDInfo(), p);
    }
    double inputProc() override
    {
        return in;
    }
    double setptProc() override
    {
        return sp;
    }
    void outputProc(double v) override
    {
        out = v;
        ++outputs;
    }
    double step(double setpoint, double input)
    {
        sp = setpoint;
        in = input;
        process();
        return out;
    }
    double in = 0, sp = 0, out = 0;
    int outputs = 0;
};

inline std::string show(const ec::pidinfo& p)
{
    char b[512];
    snprintf(b, sizeof b,
             "P=%g I=%g D=%g ffG=%g ffO=%g ts=%g ilim=[%g,%g] olim=[%g,%g] "
             "slew=[%g,%g] hyst=+%g/-%g check=%d",
             p.proportionalCoeff, p.integralCoeff, p.derivativeCoeff,
             p.feedFwdGain, p.feedFwdOffset, p.ts, p.integralLimit.min,
             p.integralLimit.max, p.outLim.min, p.outLim.max, p.slewNeg,
             p.slewPos, p.positiveHysteresis, p.negativeHysteresis,
             p.checkHysterWithSetpt);
    return b;
}
} // namespace pp

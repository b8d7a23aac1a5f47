//@technique exhaustive enumeration of input/set point sequences over a configuration grid, bounds checked on every sample
//@level model_checking
//@sources only pid/ec/pid.cpp pid/ec/logging.cpp pid/pidcontroller.cpp pid/util.cpp pid/tuning.cpp
//@budget 120 800
//@assume inputs and set points are finite; slew limits have their documented signs
#include "pidprobe.hpp"

using namespace pp;

namespace
{
struct Cfg
{
    ec::pidinfo p;
};
void pickLimits(ec::pidinfo& p)
{
    static const std::vector<std::array<double, 4>> lim{
        {-5, 5, 0, 100},   // integral small, output wide
        {0, 100, 20, 60},  // output narrow
        {-1000, 1000, -40, -10},
        {10, 12, 0, 30},   // integral range excludes zero
        {0, 0, 30, 30},    // degenerate
    };
    auto& l = mc::pick(lim, "limits");
    p.integralLimit = {l[0], l[1]};
    p.outLim = {l[2], l[3]};
}
void bounds(const ec::pidinfo& p, ec::pid_info_t* i, double out, bool forced,
            bool first, double prev, int step)
{
    mc::compare(3);
    const double eps = 1e-9;
    if (!std::isfinite(out) || !std::isfinite(i->integral))
        mc::fail("sample %d: output %g integral %g; %s", step, out, i->integral,
                 show(p).c_str());
    if (forced)
    {
        if (out != 0)
            mc::fail("sample %d: output %g instead of the forced zero; %s",
                     step, out, show(p).c_str());
        return;
    }
    if (out < p.outLim.min - eps || out > p.outLim.max + eps)
        mc::fail("sample %d: output %.12g leaves its limits; %s", step, out,
                 show(p).c_str());
    if (i->integral < p.integralLimit.min - eps ||
        i->integral > p.integralLimit.max + eps)
    {
        // without integral gain or slew there is no integral at all
        if (!(p.integralCoeff == 0 && i->integral == 0))
            mc::fail("sample %d: integral %.12g leaves its limits; %s", step,
                     i->integral, show(p).c_str());
    }
    if (p.integralCoeff == 0 && p.slewNeg == 0 && p.slewPos == 0)
    {
        double zero = std::min(std::max(0.0, p.integralLimit.min),
                               p.integralLimit.max);
        if (i->integral != 0 && std::abs(i->integral - zero) > eps)
            mc::fail("sample %d: integral %.12g accumulated without gain; %s",
                     step, i->integral, show(p).c_str());
    }
    if (!first)
    {
        double d = out - prev;
        if (p.slewPos != 0 && d > p.slewPos * p.ts + eps)
            mc::fail("sample %d: output rose by %.12g; %s", step, d,
                     show(p).c_str());
        if (p.slewNeg != 0 && d < p.slewNeg * p.ts - eps)
            mc::fail("sample %d: output fell by %.12g; %s", step, -d,
                     show(p).c_str());
    }
    if (out == p.outLim.min || out == p.outLim.max)
        mc::cover("output limited");
    else
        mc::cover("output free");
}
uint64_t hash(ec::pid_info_t* i)
{
    return mc::hashD(i->integral,
                     mc::hashD(i->lastOutput, mc::hashD(i->lastError, 3)));
}

void run(ec::pidinfo p, int depth, const std::vector<double>& ins,
         const std::vector<double>& sps)
{
    Loop l("loop", p);
    double prev = 0;
    bool first = true;
    // set point checking: zero is forced below the band, and the previous
    // output (possibly that zero) repeated inside it
    bool zeroed = true;
    double last = std::nan("");
    (void)last;
    for (int s = 0; s < depth; ++s)
    {
        double sp = mc::pick(sps, "set point");
        double in = mc::pick(ins, "input");
        mc::op();
        double out = l.step(sp, in);
        bool forced = false, hold = false;
        if (p.checkHysterWithSetpt)
        {
            if (in > sp + p.positiveHysteresis)
            {}
            else if (in < sp - p.negativeHysteresis)
                forced = true;
            else
                hold = true;
        }
        if (forced)
        {
            zeroed = true;
            bounds(p, l.getPIDInfo(), out, true, false, 0, s);
        }
        else if (hold)
        {
            mc::compare();
            if (!mc::near(out, prev))
                mc::fail("sample %d: output %g not held at %g", s, out, prev);
        }
        else
        {
            // the rate is only meaningful against an output of the law; after
            // a forced zero the output climbs from zero, within its limits
            // only once it has got there
            if (p.checkHysterWithSetpt && zeroed && !first &&
                (p.slewNeg != 0 || p.slewPos != 0))
            {
                mc::compare();
                double d = out - prev;
                if (!std::isfinite(out) ||
                    (p.slewPos != 0 && d > p.slewPos * p.ts + 1e-9) ||
                    (p.slewNeg != 0 && d < p.slewNeg * p.ts - 1e-9))
                    mc::fail("sample %d: output moved by %g from a forced "
                             "zero; %s",
                             s, d, show(p).c_str());
                if (out >= p.outLim.min && out <= p.outLim.max)
                    zeroed = false;
            }
            else
            {
                zeroed = false;
                bounds(p, l.getPIDInfo(), out, false, first, prev, s);
            }
            first = false;
        }
        prev = out;
        mc::state(hash(l.getPIDInfo()));
    }
    mc::outcome(mc::hashD(prev, 1));
}

// the whole grid of gains and limits
void grid()
{
    ec::pidinfo p;
    static const std::vector<double> P{0, 1, -2}, I{0, 0.5, -4}, D{0, 0.25},
        ff{0, 1}, ts{1, 0.125}, sl{0, 8};
    p.proportionalCoeff = mc::pick(P, "P");
    p.integralCoeff = mc::pick(I, "I");
    p.derivativeCoeff = mc::pick(D, "D");
    p.feedFwdGain = mc::pick(ff, "ff");
    p.feedFwdOffset = 3;
    p.ts = mc::pick(ts, "ts");
    p.slewPos = mc::pick(sl, "slew up");
    p.slewNeg = -mc::pick(sl, "slew down");
    pickLimits(p);
    static const std::vector<double> ins{0, 40, 1e6, -300}, sps{40};
    run(p, mc::thorough() ? 7 : 6, ins, sps);
}
MC_SUITE("grid", grid, 1 << 20, 1 << 20, false,
         {"output limited", "output free"});

// moving set points
void setpoints()
{
    ec::pidinfo p;
    static const std::vector<double> P{0.5, -2}, I{0, 1}, sl{0, 4};
    p.proportionalCoeff = mc::pick(P, "P");
    p.integralCoeff = mc::pick(I, "I");
    p.derivativeCoeff = 0.5;
    p.feedFwdGain = 0.25;
    p.ts = 0.5;
    p.slewPos = mc::pick(sl, "slew up");
    p.slewNeg = -mc::pick(sl, "slew down") * 2;
    pickLimits(p);
    static const std::vector<double> ins{0, 55, 200}, sps{50, 0, 1000};
    run(p, mc::thorough() ? 6 : 5, ins, sps);
}
MC_SUITE("setpoints", setpoints, 1 << 20, 1 << 20, false,
         {"output limited", "output free"});

// hysteresis of both kinds
void hysteresis()
{
    ec::pidinfo p;
    static const std::vector<double> P{0.5, -2}, I{0, 1}, sl{0, 4}, hy{0, 5};
    p.proportionalCoeff = mc::pick(P, "P");
    p.integralCoeff = mc::pick(I, "I");
    p.ts = 1;
    p.slewPos = mc::pick(sl, "slew up");
    p.slewNeg = -mc::pick(sl, "slew down") * 2;
    p.positiveHysteresis = mc::pick(hy, "positive hysteresis");
    p.negativeHysteresis = mc::pick(hy, "negative hysteresis");
    p.checkHysterWithSetpt = mc::choose(2, "check with set point");
    pickLimits(p);
    static const std::vector<double> ins{50, 54, 58, 47, 40, 90}, sps{50};
    run(p, mc::thorough() ? 7 : 5, ins, sps);
}
MC_SUITE("hysteresis", hysteresis, 1 << 20, 1 << 20, false,
         {"output limited", "output free"});

// wind-up: a long time at one side, then the other, all switching instants
void windup()
{
    ec::pidinfo p;
    static const std::vector<double> I{0.5, 4, -4}, sl{0, 8};
    p.proportionalCoeff = 0.25;
    p.integralCoeff = mc::pick(I, "I");
    p.ts = 1;
    p.slewPos = mc::pick(sl, "slew up");
    p.slewNeg = -mc::pick(sl, "slew down");
    pickLimits(p);
    int n = mc::thorough() ? 300 : 60;
    int a = mc::choose(n, "first switch"), b = mc::choose(8, "second switch");
    Loop l("loop", p);
    double prev = 0;
    for (int s = 0; s < n; ++s)
    {
        mc::op();
        double in = s < a ? 0 : s < a + b * 5 ? 90 : 20;
        double out = l.step(40, in);
        bounds(p, l.getPIDInfo(), out, false, s == 0, prev, s);
        prev = out;
        mc::state(hash(l.getPIDInfo()));
    }
    mc::outcome(mc::hashD(prev, 1));
}
MC_SUITE("windup", windup, 1 << 20, 1 << 20, false,
         {"output limited", "output free"});
} // namespace

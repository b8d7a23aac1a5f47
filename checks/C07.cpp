//@technique exhaustive enumeration of input/set point sequences, every sample compared with a reference PID law
//@level model_checking
//@sources only pid/ec/pid.cpp pid/ec/logging.cpp pid/pidcontroller.cpp pid/util.cpp pid/tuning.cpp
//@budget 120 800
//@assume inputs and set points are finite; equality up to a relative 1e-9
#include "pidprobe.hpp"

using namespace pp;

namespace
{
// The documented law, written independently.
struct Ref
{
    ec::pidinfo p;
    bool started = false;
    double integral = 0, lastErr = 0, lastOut = 0;
    bool haveHeld = false;
    double held = 0;

    static double lim(double v, const ec::limits_t& l)
    {
        return v < l.min ? l.min : v > l.max ? l.max : v;
    }
    double law(double sp, double in)
    {
        double e = sp - in;
        double prop = p.proportionalCoeff * e;
        double integ = 0;
        if (p.integralCoeff != 0)
            integ = lim(integral + e * p.integralCoeff * p.ts, p.integralLimit);
        double deriv = p.derivativeCoeff * (e - lastErr) / p.ts;
        double ff = p.feedFwdGain * (sp + p.feedFwdOffset);
        double out = lim(prop + integ + deriv + ff, p.outLim);
        if (started && (p.slewNeg != 0 || p.slewPos != 0))
        {
            if (p.slewNeg != 0)
                out = std::max(out, lastOut + p.slewNeg * p.ts);
            if (p.slewPos != 0)
                out = std::min(out, lastOut + p.slewPos * p.ts);
            integ = out - prop;
        }
        integral = lim(integ, p.integralLimit);
        started = true;
        lastErr = e;
        return lastOut = out;
    }
    double step(double sp, double in)
    {
        if (p.checkHysterWithSetpt)
        {
            if (in > sp + p.positiveHysteresis)
                return law(sp, in);
            if (in < sp - p.negativeHysteresis)
            {
                integral = 0;
                return lastOut = 0;
            }
            return lastOut;
        }
        if (p.positiveHysteresis == 0 && p.negativeHysteresis == 0)
            return law(sp, in);
        if (!haveHeld || in - held > p.positiveHysteresis ||
            held - in > p.negativeHysteresis)
        {
            held = in;
            haveHeld = true;
        }
        return law(sp, held);
    }
};

void same(Loop& l, Ref& r, double sp, double in, int s, const char* which)
{
    double want = r.step(sp, in);
    double got = l.step(sp, in);
    mc::compare();
    if (!mc::near(got, want, 1e-9))
        mc::fail("%s sample %d (set point %g, input %g): output %.12g, the law "
                 "gives %.12g; %s",
                 which, s, sp, in, got, want, show(r.p).c_str());
}
uint64_t hash(const Ref& r)
{
    return mc::hashD(r.integral,
                     mc::hashD(r.lastOut, mc::hashD(r.lastErr,
                                                    mc::hashD(r.held, 5))));
}
void wide(ec::pidinfo& p, bool zero = false)
{
    static const std::array<double, 4> lim[]{
        {-500, 500, -10000, 10000},
        {-6, 9, 0, 90},
        {0, 40, -20, 30},
        {3, 20, 0, 70}}; // zero is no value of the integral
    auto& l = lim[mc::choose(zero ? 3 : 4, "limits")];
    p.integralLimit = {l[0], l[1]};
    p.outLim = {l[2], l[3]};
}

void gains()
{
    ec::pidinfo p;
    static const std::vector<double> P{0, 1.5, -2}, I{0, 0.5, -4},
        D{0, 0.25, -1}, ff{0, 0.75}, ts{1, 0.125, 2}, sl{0, 8};
    p.proportionalCoeff = mc::pick(P, "P");
    p.integralCoeff = mc::pick(I, "I");
    p.derivativeCoeff = mc::pick(D, "D");
    p.feedFwdGain = mc::pick(ff, "ff");
    p.feedFwdOffset = p.feedFwdGain ? -3 : 7;
    p.ts = mc::pick(ts, "ts");
    p.slewPos = mc::pick(sl, "slew up");
    p.slewNeg = -mc::pick(sl, "slew down") * 1.25;
    wide(p);
    static const std::vector<double> ins{40, 33, 61, -9};
    Loop l("loop", p);
    Ref r{p};
    int depth = mc::thorough() ? 7 : 6;
    for (int s = 0; s < depth; ++s)
    {
        double in = mc::pick(ins, "input");
        mc::op();
        same(l, r, 40, in, s, "loop");
        mc::state(hash(r));
    }
    mc::outcome(mc::hashD(r.lastOut, 1));
}
MC_SUITE("gains", gains);

void setpoints()
{
    ec::pidinfo p;
    static const std::vector<double> P{1.5, -2}, I{0, 0.5}, D{0, 0.25},
        sl{0, 8};
    p.proportionalCoeff = mc::pick(P, "P");
    p.integralCoeff = mc::pick(I, "I");
    p.derivativeCoeff = mc::pick(D, "D");
    p.feedFwdGain = 0.5;
    p.feedFwdOffset = 4;
    p.ts = 0.5;
    p.slewPos = mc::pick(sl, "slew up");
    p.slewNeg = -mc::pick(sl, "slew down");
    wide(p);
    static const std::vector<double> ins{40, 25, 90}, sps{40, 70, -5};
    Loop l("loop", p);
    Ref r{p};
    int depth = mc::thorough() ? 6 : 5;
    for (int s = 0; s < depth; ++s)
    {
        double sp = mc::pick(sps, "set point");
        double in = mc::pick(ins, "input");
        mc::op();
        same(l, r, sp, in, s, "loop");
        mc::state(hash(r));
    }
    mc::outcome(mc::hashD(r.lastOut, 1));
}
MC_SUITE("setpoints", setpoints);

void hysteresis()
{
    ec::pidinfo p;
    static const std::vector<double> P{-2}, I{0, -0.5, 0.25}, D{0, 0.25}, sl{0, 8};
    static const std::vector<std::pair<double, double>> hy{
        {0, 0}, {5, 0}, {0, 5}, {5, 3}, {2, 8}};
    p.proportionalCoeff = mc::pick(P, "P");
    p.integralCoeff = mc::pick(I, "I");
    p.derivativeCoeff = mc::pick(D, "D");
    p.feedFwdGain = 1;
    p.feedFwdOffset = 0;
    p.ts = 1;
    double s8 = mc::pick(sl, "slew");
    p.slewPos = s8;
    p.slewNeg = -s8;
    auto& h = mc::pick(hy, "hysteresis");
    p.positiveHysteresis = h.first;
    p.negativeHysteresis = h.second;
    p.checkHysterWithSetpt = mc::choose(2, "check with set point");
    wide(p, true);
    // around set point 50 and around each other: inside, at, beyond the widths
    static const std::vector<double> ins{50, 55, 55.5, 60, 45, 47, 46.5, 41};
    Loop l("loop", p);
    Ref r{p};
    int depth = mc::thorough() ? 7 : 6;
    for (int s = 0; s < depth; ++s)
    {
        double in = mc::pick(ins, "input");
        mc::op();
        same(l, r, 50, in, s, "loop");
        if (p.checkHysterWithSetpt)
        {
            mc::cover(in > 50 + h.first    ? "above band"
                      : in < 50 - h.second ? "below band"
                                           : "inside band");
        }
        mc::state(hash(r));
    }
    mc::outcome(mc::hashD(r.lastOut, 1));
}
MC_SUITE("hysteresis", hysteresis, 1 << 20, 1 << 20, false,
         {"above band", "below band", "inside band"});

// two loops sampled in every interleaving never influence one another
void two()
{
    ec::pidinfo p, q;
    p.proportionalCoeff = -2;
    p.integralCoeff = -0.5;
    p.derivativeCoeff = 0.25;
    p.ts = 1;
    q = p;
    q.proportionalCoeff = 3;
    q.positiveHysteresis = 4;
    q.negativeHysteresis = 2;
    p.integralLimit = q.integralLimit = {-100, 100};
    p.outLim = q.outLim = {-1000, 1000};
    int v = mc::choose(3, "shape");
    if (v == 1)
        p.slewPos = 5, p.slewNeg = -5;
    if (v == 2)
        p.checkHysterWithSetpt = true, p.positiveHysteresis = 1;
    Loop a("a", p), b("b", q);
    Ref ra{p}, rb{q};
    static const std::vector<double> ins{30, 45, 62};
    int depth = mc::thorough() ? 8 : 6;
    for (int s = 0; s < depth; ++s)
    {
        bool second = mc::choose(2, "which loop");
        double in = mc::pick(ins, "input");
        mc::op();
        if (second)
            same(b, rb, 50, in, s, "loop b");
        else
            same(a, ra, 40, in, s, "loop a");
        mc::state(mc::mix(hash(ra), hash(rb)));
    }
    mc::outcome(mc::hashD(ra.lastOut, mc::hashD(rb.lastOut, 1)));
}
MC_SUITE("two", two);
} // namespace

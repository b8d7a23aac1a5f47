//@technique exhaustive enumeration of reading histories through real stepwise loops against a reference table and hysteresis
//@level model_checking
//@budget 60 500
//@assume table readings are in ascending order; what is requested while no input has a numeric reading is not specified
#include "world.hpp"

using namespace w;

namespace
{
struct Table
{
    std::vector<double> r, o;
    double operator()(double in) const
    {
        double v = o[0];
        for (size_t i = 0; i < r.size(); ++i)
            if (!(r[i] > in))
                v = o[i];
        return v;
    }
};
// Held (input, output) pairs the loop may be in: one, except after a stretch
// without any numeric reading, when it may have started afresh.
struct Ref
{
    Table t;
    double pos, neg;
    struct St
    {
        bool fresh = true;
        double in = 0, out = 0;
    };
    std::vector<St> cand{St{}};

    St next(const St& s, double in) const
    {
        if (s.fresh || in - s.in > pos || s.in - in > neg)
            return {false, in, t(in)};
        return s;
    }
    void gap()
    {
        bool f = false;
        for (auto& c : cand)
            f |= c.fresh;
        if (!f)
            cand.push_back(St{});
    }
    // returns true when `got` is what the loop must request
    bool observe(double in, double got, double& want)
    {
        std::vector<St> keep;
        for (auto& c : cand)
        {
            St n = next(c, in);
            want = n.out;
            if (mc::near(n.out, got))
                keep.push_back(n);
        }
        if (keep.empty())
            return false;
        // equal outputs from different held inputs stay possible
        cand = keep;
        return true;
    }
};
struct Sw
{
    std::string name;
    std::vector<std::string> in;
    bool ceiling;
    Ref ref;
};
struct Scene
{
    World wd;
    std::vector<Sw> loops;
    std::map<std::string, double> now;
    int64_t t = 0;
    const int64_t zid = 1;
    static constexpr double top = 50000;
    void make()
    {
        wd.fan("Fan");
        wd.zone(zid, 0, 50, 1000, 1000);
        bool ceil = false;
        for (auto& l : loops)
        {
            for (auto& i : l.in)
                if (!now.count(i))
                {
                    wd.ext(i, "temp");
                    now[i] = NaN;
                }
            wd.stepwise(zid, l.name, l.in, l.ref.t.r, l.ref.t.o, l.ceiling,
                        l.ref.pos, l.ref.neg);
            ceil |= l.ceiling;
        }
        if (ceil)
        {
            wd.ext("top", "temp");
            wd.loop(zid, "high", "temp", {"top"}, directThermal());
        }
        wd.loop(zid, "zz_fan", "fan", {"Fan"}, directFan());
        wd.build();
        if (ceil)
            wd.value("top", top);
        // the evaluation at start sees no numbers at all
        for (auto& [n, v] : now)
            wd.value(n, NaN);
        for (auto& l : loops)
            l.ref.gap();
        wd.start();
        wd.runUntil(t = vt::sec);
    }
    void set(const std::string& s, double v)
    {
        now[s] = v;
        wd.value(s, v);
    }
    double maxOf(const Sw& l)
    {
        double m = NaN;
        for (auto& i : l.in)
            if (!std::isnan(now[i]) && !(m >= now[i]))
                m = now[i];
        return m;
    }
    // the loop under observation decides the target alone
    void evaluate(int step)
    {
        wd.runUntil(t += vt::sec);
        double got = wd.z(zid)->getMaxSetPointRequest();
        // a single loop, or a ceiling below an unlimited request
        auto& l = loops[0];
        double m = maxOf(l);
        if (std::isnan(m))
        {
            l.ref.gap();
            mc::cover("no number");
            return;
        }
        mc::compare();
        double want = 0;
        bool first = l.ref.cand.size() == 1 && l.ref.cand[0].fresh;
        if (!l.ref.observe(m, got, want))
            mc::fail("evaluation %d: %s requested %g at input %g, expected %g "
                     "(%zu points, hysteresis +%g/-%g, held input %g)",
                     step, l.ceiling ? "ceiling table" : "table", got, m, want,
                     l.ref.t.r.size(), l.ref.pos, l.ref.neg,
                     first ? NaN : l.ref.cand[0].in);
        mc::cover(l.ref.cand[0].in == m ? "applied" : "held");
        mc::state(mc::hashD(l.ref.cand[0].in,
                            mc::hashD(l.ref.cand[0].out, l.ref.t.r.size())));
        mc::outcome(mc::hashD(got, l.ceiling));
    }
};

Table table(int k)
{
    switch (k)
    {
        case 0: return {{30, 50, 70}, {20, 45, 90}};
        case 1: return {{40}, {55}};
        case 2: return {{-10, 0, 0.5, 60}, {80, 10, 65, 30}};
        case 3: return {{30, 40, 40, 60}, {10, 20, 35, 99}};
    }
    Table t;
    // a full table, or one point short of it
    int n = k == 4 ? 20 : 19;
    for (int i = 0; i < n; ++i)
    {
        t.r.push_back(20 + 3 * i);
        t.o.push_back(10 + 4 * i);
    }
    return t;
}

// every table at readings on, just below and just above every point
void tables()
{
    Scene s;
    Table t = table(mc::choose(6, "table"));
    bool ceil = mc::choose(2, "ceiling");
    s.loops.push_back({"T", {"in"}, ceil, {t, 0, 0}});
    s.make();
    for (int d = 0; d < 2; ++d)
    {
        int p = mc::choose(static_cast<int>(t.r.size()) + 1, "point");
        int k = mc::choose(3, "offset");
        double v = p < static_cast<int>(t.r.size())
                       ? t.r[p] + (k - 1) * 0.0625
                       : (k == 0 ? -1e9 : k == 1 ? 1e9 : INF);
        mc::op();
        s.set("in", v);
        s.evaluate(d);
    }
}
MC_SUITE("tables", tables, 1 << 20, 1 << 20, false, {"applied"});

// every history of readings with hysteresis
void histories()
{
    Scene s;
    static const std::vector<std::pair<double, double>> hy{
        {0, 0}, {4, 0}, {0, 4}, {4, 2}, {2, 6}};
    auto& h = mc::pick(hy, "hysteresis");
    bool ceil = mc::choose(2, "ceiling");
    s.loops.push_back(
        {"T", {"in"}, ceil,
         {{{48, 50, 52, 54, 56}, {10, 20, 31, 43, 56}}, h.first, h.second}});
    s.make();
    static const std::vector<double> v{50, 54, 54.5, 52, 48, 47.5, 46, 44, NaN};
    int depth = mc::thorough() ? 6 : 5;
    for (int d = 0; d < depth; ++d)
    {
        mc::op();
        s.set("in", mc::pick(v, "reading"));
        s.evaluate(d);
    }
}
MC_SUITE("histories", histories, 1 << 20, 1 << 20, false,
         {"applied", "held", "no number"});

// slow drift in steps below the widths must not be swallowed
void drift()
{
    Scene s;
    s.loops.push_back(
        {"T", {"in"}, false,
         {{{40, 45, 50, 55, 60}, {10, 20, 31, 43, 56}}, 3, 2}});
    s.make();
    double v = 50;
    s.set("in", v);
    s.evaluate(-1);
    int depth = mc::thorough() ? 11 : 9;
    for (int d = 0; d < depth; ++d)
    {
        static const std::vector<double> st{1, -1, 2.5};
        v += mc::pick(st, "step");
        mc::op();
        s.set("in", v);
        s.evaluate(d);
    }
}
MC_SUITE("drift", drift, 1 << 20, 1 << 20, false, {"applied", "held"});

// the largest numeric reading of several inputs counts
void inputs()
{
    Scene s;
    bool hyst = mc::choose(2, "hysteresis");
    int n = 2 + mc::choose(2, "inputs");
    std::vector<std::string> names{"s1", "s10", "s"};
    names.resize(n);
    s.loops.push_back({"T", names, false,
                       {{{0, 20, 40, 60}, {11, 22, 33, 44}}, hyst ? 5. : 0.,
                        hyst ? 3. : 0.}});
    s.make();
    static const std::vector<double> v{25, NaN, 61, -10, 58};
    int depth = mc::thorough() ? 3 : 2;
    for (int d = 0; d < depth; ++d)
    {
        for (auto& i : names)
            s.set(i, mc::pick(v, "reading"));
        mc::op();
        s.evaluate(d);
    }
}
MC_SUITE("inputs", inputs, 1 << 20, 1 << 20, false,
         {"applied", "held", "no number"});

// two tables on one sensor keep their own points, widths and memory, next to
// a ceiling: the target is the larger request, limited by the ceiling
void pair()
{
    World wd;
    wd.fan("Fan");
    wd.ext("in", "temp");
    wd.zone(1, 0, 50, 1000, 1000);
    Ref a{{{30, 50, 70}, {20, 40, 80}}, 6, 0};
    Ref b{{{40, 52, 60}, {30, 35, 90}}, 0, 6};
    Ref c{{{30, 55}, {100, 60}}, 2, 2};
    wd.stepwise(1, "A", {"in"}, a.t.r, a.t.o, false, a.pos, a.neg);
    wd.stepwise(1, "B", {"in"}, b.t.r, b.t.o, false, b.pos, b.neg);
    wd.stepwise(1, "C", {"in"}, c.t.r, c.t.o, true, c.pos, c.neg);
    wd.loop(1, "zz_fan", "fan", {"Fan"}, directFan());
    wd.build();
    static const std::vector<double> v{45, 51, 56, 62, 71, 49, 38};
    double in = mc::pick(v, "reading");
    wd.value("in", in);
    wd.start();
    int64_t t = vt::sec;
    int depth = mc::thorough() ? 6 : 5;
    for (int d = 0; d < depth; ++d)
    {
        if (d)
            wd.value("in", in = mc::pick(v, "reading"));
        mc::op();
        if (d == 0)
            wd.runUntil(0);
        else
            wd.runUntil(t += vt::sec);
        for (auto* r : {&a, &b, &c})
            r->cand[0] = r->next(r->cand[0], in);
        double want = std::min(std::max(a.cand[0].out, b.cand[0].out),
                               c.cand[0].out);
        double got = wd.z(1)->getMaxSetPointRequest();
        mc::compare();
        if (!mc::near(got, want))
            mc::fail("evaluation %d at %g: target %g, expected %g (tables "
                     "request %g and %g, ceiling %g)",
                     d, in, got, want, a.cand[0].out, b.cand[0].out,
                     c.cand[0].out);
        mc::cover("applied");
        mc::state(mc::hashD(a.cand[0].in,
                            mc::hashD(b.cand[0].in, mc::hashD(c.cand[0].in,
                                                              9))));
        mc::outcome(mc::hashD(got, 1));
    }
}
MC_SUITE("pair", pair, 1 << 20, 1 << 20, false, {"applied"});
} // namespace

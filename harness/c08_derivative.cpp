//@ property C08
//@ theory real
//@ modes debug release
//@ reach scalar array repeated trial stateful tiny
//@ bounds NSTEPS completed steps (quick 4, thorough 6) at arbitrary increasing times (gaps 1/64..16, or all times and inputs 2^-30 times as large), any inputs and initial output in [-100,100], scalars and arrays of length 2, up to 2 further evaluations between completed steps at arbitrary later instants or at the instant of the last completed step; the derivative of a state inside a model advanced by Euler and RK4
//@ assume rounding is outside the REAL theory: compared up to 1e-6
//@ quick -DNSTEPS=4
//@ thorough -DNSTEPS=6
#include "common.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/integrator.hpp"
#include "src/block/submodel.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/simulator.hpp"
using namespace pooya;

// the block evaluated directly: completed steps (post_step) with trial evaluations in between
template<typename T, typename Sig>
static void direct(Sig in, Sig out, int n)
{
    // times and inputs may all be tiny: the quotients are not
    const double scale = pse_choice("scale", 2) ? 1.0 / (1 << 30) : 1;
    if (scale < 1) pse_reach("tiny");
    Array y0 = sym_array("y0", n);
    DerivativeT<T> d(unarr<T>(y0));
    d.connect({in}, {out});
    auto evaluate = [&](double t_, const Array& x_) -> Array
    {
        double t = t_ * scale;
        Array x  = x_ * scale;
        in->clear();
        out->clear();
        in = unarr<T>(x);
        d._mark_unprocessed();
        d.process(t);
        pse_assert(out->assigned(), "derivative output assigned");
        return arr(out->get_value());
    };
    double t_last = 0;
    Array x_last(n), y_last(n);
    for (int k = 0; k <= NSTEPS; k++)
    {
        double t = k == 0 ? pse_double_in("t", -8, 8) : t_last + pse_double_in("dt", 1.0 / 64, 16);
        if (k > 0)
        {
            int trials = pse_choice("trials", 3);
            if (trials == 1)
            {
                // at the instant of the last completed step, whatever the input is now
                Array y = evaluate(t_last, sym_array(nm("r", k).c_str(), n));
                pse_assert(eq(y, y_last), "at the instant of the last completed step the output is repeated");
                pse_reach("repeated");
            }
            if (trials == 2)
            {
                double tt = t_last + pse_double_in("dtt", 1.0 / 64, 16);
                Array x   = sym_array(nm("s", k).c_str(), n);
                Array y   = evaluate(tt, x);
                Array e   = x_last + y * (tt - t_last);
                pse_assert(eq(e, x), "difference quotient at a trial evaluation");
                pse_reach("trial");
            }
        }
        Array x = sym_array(nm("x", k).c_str(), n);
        Array y = evaluate(t, x);
        if (k == 0) pse_assert(eq(y, y0), "the initial value until the first step is completed");
        else
        {
            Array e = x_last + y * (t - t_last);
            pse_assert(eq(e, x), "difference quotient since the last completed step");
        }
        d.post_step(t * scale);
        t_last = t;
        x_last = x;
        y_last = y;
    }
}

// the derivative feeds an integrator: it is evaluated again at the instant of the last completed step
static void stateful()
{
    Submodel top(nullptr, "top");
    ScalarSignal u("u"), d("d"), x("x");
    double y0 = sym("y0"), x0 = sym("x0");
    double p = sym("p"), q = sym("q"), r = sym("r", 1);
    auto uf = [=](double t) { return p + q * t + r * t * t; };
    Source src(uf, &top, "src");
    Derivative der(y0, &top, "der");
    Integrator in(x0, &top, "int");
    src.connect({}, {u});
    der.connect({u}, {d});
    in.connect({d}, {x});
    Euler eu;
    Rk4 rk;
    bool euler = pse_choice("stepper", 2) == 0;
    Simulator sim(top, nullptr, euler ? static_cast<StepperBase*>(&eu) : &rk);
    double t = 0, dprev = y0, xprev = x0;
    sim.init(0);
    pse_assert(pse_and(eq(double(d), y0), eq(double(x), x0)), "stateful: initial values");
    for (int k = 1; k <= 2; k++)
    {
        double h = pse_double_in("h", 0.125, 2);
        sim.run(t + h, 1e-3, 10);
        double quot = (uf(t + h) - uf(t));
        pse_assert(eq(double(d) * h, quot), "stateful: difference quotient of the completed steps");
        double mid = (uf(t + h / 2) - uf(t)) / (h / 2), fin = quot / h;
        double xe = euler ? xprev + h * dprev : xprev + h * (dprev + 4 * mid + fin) / 6;
        pse_assert(eq(double(x), xe), "stateful: the stepper sees the repeated output at the start of the step");
        t += h;
        dprev = d;
        xprev = x;
    }
    pse_reach("stateful");
}

void pse_main()
{
    switch (pse_choice("kind", 3))
    {
    case 0:
        direct<double>(ScalarSignal("in"), ScalarSignal("out"), 1);
        pse_reach("scalar");
        break;
    case 1:
        direct<Array>(ArraySignal(2, "in"), ArraySignal(2, "out"), 2);
        pse_reach("array");
        break;
    case 2: stateful(); break;
    }
}

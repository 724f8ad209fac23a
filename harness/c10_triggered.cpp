//@ property C10
//@ theory real
//@ modes debug release
//@ reach scalar array restarted kept self split
//@ bounds one triggered integrator (scalar, array of length 2), NSTEPS runs (quick 3, thorough 4), a symbolic trigger at every completed step and another one at the evaluations in between, symbolic inputs and initial value, Euler, RK4, and a stepper that first asks for a shorter step; plain and fast simulator; triggers given from outside or computed from the state itself
//@ quick -DNSTEPS=3
//@ thorough -DNSTEPS=4
#include "models.hpp"
using namespace pooya;

// Euler steps, but every attempt longer than a quarter is refused once
class Splitting : public StepperBase
{
public:
    Array k;
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        double h = t1 - t0;
        k        = cb(t0, v0);
        cb(t0 + h / 2, v0 + h / 2 * k);
        v1    = v0 + h * k;
        new_h = h > 0.25 ? 0.25 : h;
    }
};

template<typename T, typename Sig>
static void external(Sig x, Sig u, int n)
{
    Array x0 = sym_array("ic", n), u0 = sym_array("u", n), u1 = sym_array("w", n, 10);
    bool b[NSTEPS + 1], c[NSTEPS + 1];
    for (int i = 0; i <= NSTEPS; i++)
    {
        b[i] = pse_bool(nm("b", i).c_str());
        c[i] = pse_bool(nm("c", i).c_str());
    }
    int stk = pse_choice("stepper", 3); // Euler, RK4, splitting
    int sk  = pse_choice("simulator", 2);
    BoolSignal tr("trigger");
    Submodel top(nullptr, "top");
    TriggeredIntegratorT<T> ti(unarr<T>(x0), &top, "ti");
    ti.connect({{"in", u}, {"trigger", tr}}, {x});
    // completed steps at 0, 0.5, 1, ... ; the splitting stepper completes steps at the quarters too
    auto trig = [&](double t) -> bool
    {
        for (int i = 0; i <= NSTEPS; i++)
        {
            if (t == 0.5 * i) return b[i];
            if (t < 0.5 * i) return c[i];
        }
        return false;
    };
    auto in = [&](double t) -> Array { return u0 + u1 * t; };
    auto cb = [&](Block&, double t)
    {
        u  = unarr<T>(in(t));
        tr = trig(t);
    };
    Euler eu;
    Rk4 rk;
    Splitting sp;
    StepperBase* st = stk == 0 ? static_cast<StepperBase*>(&eu) : stk == 1 ? static_cast<StepperBase*>(&rk) : &sp;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 0) sim = std::make_unique<Simulator>(top, cb, st);
    else sim = std::make_unique<FastSimulator>(top, cb, st);
    sim->init(0);
    pse_assert(same(arr(x->get_value()), x0), "starts from the initial condition");
    Array v = x0;
    auto advance = [&](double t, double h, bool triggered)
    {
        Array k = stk == 1 ? Array((in(t) + 4 * in(t + h / 2) + in(t + h)) / 6) : in(t);
        for (int i = 0; i < n; i++) v[i] = pse_ite(triggered, 0.0, v[i]) + h * k[i];
    };
    for (int k = 1; k <= NSTEPS; k++)
    {
        double t = 0.5 * (k - 1);
        sim->run(0.5 * k, 1e-3, 10);
        if (stk == 2)
        {
            advance(t, 0.25, b[k - 1]);
            advance(t + 0.25, 0.25, c[k]);
            pse_reach("split");
        }
        else
            advance(t, 0.5, b[k - 1]);
        pse_assert(eq(arr(x->get_value()), v), "restarts from zero exactly after a completed step with the trigger set");
    }
    pse_reach(b[0] ? "restarted" : "kept");
}

// the trigger is computed from the state: a saw tooth
static void self()
{
    double x0 = sym("ic", 2), rate = sym("rate", 4), lim = sym("lim", 2);
    ScalarSignal x("x"), u("u");
    BoolSignal tr("trigger");
    Submodel top(nullptr, "top");
    TriggeredIntegrator ti(x0, &top, "ti");
    Function cmp([lim](double, const Bus& in, const Bus& out) { BoolSignal(out.at(0)) = double(ScalarSignal(in.at(0))) > lim; }, &top, "cmp");
    cmp.connect({x}, {tr});
    ti.connect({{"in", u}, {"trigger", tr}}, {x});
    Euler eu;
    Simulator sim(top, [&](Block&, double) { u = rate; }, &eu);
    sim.init(0);
    double v = x0;
    for (int k = 1; k <= NSTEPS; k++)
    {
        sim.run(0.5 * k, 1e-3, 10);
        v = pse_ite(v > lim, 0, v) + 0.5 * rate;
        pse_assert(eq(double(x), v), "saw tooth");
    }
    pse_reach("self");
}

void pse_main()
{
    switch (pse_choice("kind", 3))
    {
    case 0:
        external<double>(ScalarSignal("x"), ScalarSignal("u"), 1);
        pse_reach("scalar");
        break;
    case 1:
        external<Array>(ArraySignal(2, "x"), ArraySignal(2, "u"), 2);
        pse_reach("array");
        break;
    case 2: self(); break;
    }
}

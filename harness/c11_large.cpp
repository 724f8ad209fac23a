//@ property C11
//@ theory real
//@ modes debug release
//@ reach euler rk4 long
//@ bounds larger instances: Euler and RK4 called directly with 8, 17 and 33 state components, each component with a derivative of its own, linear (Euler: arbitrary at the start) in time with symbolic coefficients; 10 steps in a row with one object; arbitrary start time and step length
#include "tableau.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/rk4.hpp"
using namespace pooya;

void pse_main()
{
    static const int dims[] = {8, 17, 33};
    int n   = dims[pse_choice("n", 3)];
    bool rk = pse_choice("stepper", 2) == 1;
    Euler eu;
    Rk4 r4;
    StepperBase& st = rk ? static_cast<StepperBase&>(r4) : eu;
    Array p = sym_array("p", n, 10), q = sym_array("q", n, 10), v = sym_array("v", n);
    if (pse_choice("long", 2))
    {
        // ten steps of a quarter in a row
        double t = 0;
        Array e  = v;
        for (int k = 0; k < 10; k++)
        {
            Trace tr = run_step(st, t, v, t + 0.25, [&](int, double s, const Array&) { return Array(p + q * s); });
            e        = e + 0.25 * p + q * (rk ? 0.25 * (t + 0.125) : 0.25 * t);
            t        = t + 0.25;
            v        = tr.v1;
            pse_assert(eq(v, e), "every component of every step");
        }
        pse_reach("long");
        return;
    }
    double t0 = sym("t0", 50), h = pse_double_in("h", 1e-6, 16);
    Trace tr = run_step(st, t0, v, t0 + h, [&](int, double s, const Array&) { return Array(p + q * (s - t0)); });
    Array e(n);
    for (int i = 0; i < n; i++) e[i] = v[i] + h * p[i] + (rk ? h * h / 2 * q[i] : 0 * q[i]);
    pse_assert(tr.v1.rows() == n && eq(tr.v1, e), "every component advances by its own derivative");
    pse_assert(pse_close(tr.new_h, h, TOL), "suggests the same step length");
    pse_reach(rk ? "rk4" : "euler");
}

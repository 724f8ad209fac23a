//@ property C11
//@ theory real
//@ modes debug release
//@ reach euler rk4 structure polynomial linear reuse
//@ bounds Euler and RK4 called directly; 1..3 state components; start time in [-50,50], step length in [1e-6,16], states and derivatives in [-100,100], polynomial coefficients in [-10,10]; linear systems of 1 and 2 (thorough 3) components with coefficients in [-4,4], step in [1e-6,4]; one stepper object used for two steps of different dimensions
//@ assume for RK4 the order on arbitrary smooth derivatives follows from the order conditions of the tableau that the solver shows it to implement (Butcher's theory, not re-proved); constants within 1e-15 of a small fraction mean that fraction
//@ quick -DNLIN=2
//@ thorough -DNLIN=3
#include "tableau.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/rk4.hpp"
using namespace pooya;

static void euler(int n, Euler& st)
{
    double t0 = sym("t0", 50), h = pse_double_in("h", 1e-6, 16);
    Array v0 = sym_array("v", n), k = sym_array("k", n), other = sym_array("o", n);
    Trace tr = run_step(st, t0, v0, t0 + h,
                        [&](int, double t, const Array& v)
                        {
                            bool at_start = pse_and(pse_close(t, t0, 0), eq(v, v0));
                            Array r(n);
                            for (int i = 0; i < n; i++) r[i] = pse_ite(at_start, k[i], other[i]);
                            return r;
                        });
    pse_assert(tr.v1.rows() == n && eq(tr.v1, Array(v0 + h * k)), "state plus step length times the derivative at the start");
    pse_assert(pse_close(tr.new_h, h, TOL), "suggests the same step length");
    pse_assert(inside(tr, t0, t0 + h), "the derivative is evaluated only inside the step");
    pse_reach("euler");
}

void pse_main()
{
    int n = 1 + pse_choice("n", 3);
    switch (pse_choice("case", 6))
    {
    case 0:
    {
        Euler st;
        euler(n, st);
        break;
    }
    case 1:
    {
        Rk4 st;
        Tableau T = extract(st);
        check_order4(T);
        check_structure(st, T, n, "a Runge-Kutta step for every state, time, length and derivative");
        pse_reach("structure");
        break;
    }
    case 2:
    {
        Rk4 st;
        check_polynomial(st, n);
        pse_reach("polynomial");
        break;
    }
    case 3:
    {
        if (n > NLIN) return;
        Rk4 st;
        check_linear(st, n, 4);
        pse_reach("linear");
        break;
    }
    case 4:
    {
        Rk4 st;
        double t0 = sym("t0", 50), h = pse_double_in("h", 1e-6, 16);
        Array v0 = sym_array("v", n), k = sym_array("k", n);
        Trace tr = run_step(st, t0, v0, t0 + h, [&](int, double, const Array&) { return k; });
        pse_assert(pse_close(tr.new_h, h, TOL), "suggests the same step length");
        pse_assert(eq(tr.v1, Array(v0 + h * k)), "exact for constant derivatives");
        pse_reach("rk4");
        break;
    }
    case 5:
    {
        // an object that was used for another dimension before
        Rk4 rk;
        Euler eu;
        int m     = 1 + pse_choice("m", 3);
        Array w0  = sym_array("w", m);
        bool euf  = pse_choice("kind", 2) == 0;
        run_step(euf ? static_cast<StepperBase&>(eu) : rk, 0, w0, 1, [&](int, double t, const Array& v) { return Array(v * 0.5 + t); });
        if (euf) euler(n, eu);
        else check_polynomial(rk, n);
        pse_reach("reuse");
        break;
    }
    }
}

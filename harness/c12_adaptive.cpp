//@ property C12
//@ theory real
//@ modes debug release
//@ reach structure polynomial linear half same twice zero monotone reuse
//@ bounds RKF45 called directly; 1..NMAX state components (quick 3, thorough 4); start time in [-50,50], step length in [1e-6,16], states and derivatives in [-100,100], polynomial coefficients in [-10,10]; linear systems of 1 component with coefficients in [-4,4]; one object used for two steps of different dimensions
//@ assume the order on arbitrary smooth derivatives follows from the order conditions of the tableau that the solver shows it to implement; constants within 1e-15 of a small fraction mean that fraction
//@ quick -DNLIN=1 -DNMAX=3
//@ thorough -DNLIN=1 -DNMAX=4
#include "tableau.hpp"
#include "src/solver/rkf45.hpp"
using namespace pooya;

// the largest component of the difference between the fourth- and the fifth-order solutions (Fehlberg), per step length
static double error(const std::vector<Array>& K, int n)
{
    static const double d[6] = {1. / 360, 0, -128. / 4275, -2197. / 75240, 1. / 50, 2. / 55};
    double m = 0;
    for (int c = 0; c < n; c++)
    {
        double e = 0;
        for (int i = 0; i < 6; i++)
            if (d[i] != 0) e = e + d[i] * K[i][c];
        e = pse_ite(e < 0, -e, e);
        m = pse_ite(e > m, e, m);
    }
    return m;
}

static Trace step(Rkf45& st, double t0, const Array& v0, double h, const std::vector<Array>& K)
{
    return run_step(st, t0, v0, t0 + h, [&](int i, double, const Array&) { return K[i < 6 ? i : 5]; });
}

static void suggestion(int n, Rkf45& st)
{
    double t0 = sym("t0", 50), h = pse_double_in("h", 1e-6, 16);
    Array v0 = sym_array("v", n);
    std::vector<Array> K;
    for (int i = 0; i < 6; i++) K.push_back(sym_array(nm("k", i).c_str(), n));
    Trace tr = step(st, t0, v0, h, K);
    pse_assert(tr.t.size() == 6, "six evaluations");
    double e = error(K, n); // max difference = h e; s^4 = 0.001 h / (2 h e)
    // s^4 < 0.75^4: half; s^4 > 1.5^4: twice
    bool half  = 0.001 < 2 * 0.31640625 * e;
    bool twice = pse_and(e > 0, 0.001 > 2 * 5.0625 * e);
    // the thresholds themselves are left to rounding
    bool edge = pse_or(pse_and(e > 0.99999 * 0.001 / (2 * 0.31640625), e < 1.00001 * 0.001 / (2 * 0.31640625)),
                       pse_and(e > 0.99999 * 0.001 / (2 * 5.0625), e < 1.00001 * 0.001 / (2 * 5.0625)));
    pse_assume(pse_not(edge));
    double ex = pse_ite(half, h / 2, pse_ite(twice, 2 * h, h));
    pse_assert(pse_same(tr.new_h, ex), "half, the same or twice the step according to the error estimate");
    if (pse_fork(half)) pse_reach("half");
    else if (pse_fork(twice)) pse_reach("twice");
    else if (pse_fork(e > 0)) pse_reach("same");
    else pse_reach("zero");
}

void pse_main()
{
    int n = 1 + pse_choice("n", NMAX);
    switch (pse_choice("case", 6))
    {
    case 0:
    {
        Rkf45 st;
        Tableau T = extract(st);
        check_order4(T);
        check_structure(st, T, n, "a Runge-Kutta step for every state, time, length and derivative");
        pse_reach("structure");
        break;
    }
    case 1:
    {
        Rkf45 st;
        check_polynomial(st, n);
        pse_reach("polynomial");
        break;
    }
    case 2:
    {
        if (n > NLIN) return;
        Rkf45 st;
        check_linear(st, n, 5);
        pse_reach("linear");
        break;
    }
    case 3:
    {
        Rkf45 st;
        suggestion(n, st);
        break;
    }
    case 4:
    {
        // a larger error never yields a larger suggestion
        if (n > 1) return;
        Rkf45 a, b;
        double h = pse_double_in("h", 1e-6, 16);
        Array v0 = sym_array("v", 1);
        std::vector<Array> K, M;
        for (int i = 0; i < 6; i++) K.push_back(sym_array(nm("k", i).c_str(), 1));
        for (int i = 0; i < 6; i++) M.push_back(sym_array(nm("m", i).c_str(), 1));
        Trace x = step(a, 0, v0, h, K), y = step(b, 0, v0, h, M);
        double ex = error(K, 1), ey = error(M, 1);
        pse_assume(pse_and(ex > 1e-9, ey >= 1.00001 * ex));
        pse_assert(y.new_h <= x.new_h, "a larger error never yields a larger suggestion");
        pse_reach("monotone");
        break;
    }
    case 5:
    {
        Rkf45 st;
        int m    = 1 + pse_choice("m", 3);
        Array w0 = sym_array("w", m);
        std::vector<Array> K;
        for (int i = 0; i < 6; i++) K.push_back(Array::Constant(m, double(i)));
        step(st, 0, w0, 1, K);
        check_polynomial(st, n);
        pse_reach("reuse");
        break;
    }
    }
}

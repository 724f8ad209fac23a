//@ property C12
//@ theory real
//@ modes debug release
//@ reach polynomial worst half same twice
//@ bounds larger instances: RKF45 called directly with 8 and 17 state components; derivatives linear in time with symbolic coefficients; one component (the first, one in the middle, the last) with an arbitrary error estimate of either sign, all others with none or with a smaller one of given size
#include "tableau.hpp"
#include "src/solver/rkf45.hpp"
using namespace pooya;

void pse_main()
{
    int n = pse_choice("n", 2) ? 17 : 8;
    Rkf45 st;
    double t0 = sym("t0", 50), h = pse_double_in("h", 1e-6, 16);
    if (pse_choice("what", 2) == 0)
    {
        Array p = sym_array("p", n, 10), q = sym_array("q", n, 10), v = sym_array("v", n);
        Trace tr = run_step(st, t0, v, t0 + h, [&](int, double s, const Array&) { return Array(p + q * (s - t0)); });
        bool ok  = tr.v1.rows() == n;
        for (int i = 0; i < n && ok; i++) pse_assert(eq(tr.v1[i], v[i] + h * p[i] + h * h / 2 * q[i]), "every component advances by its own derivative");
        pse_assert(ok, "as many components");
        pse_reach("polynomial");
        return;
    }
    // k1 alone differs: the error per step length is |k1 - others| / 360
    int worst   = (n - 1) * pse_choice("worst", 3) / 2;
    double base = pse_choice("base", 2) ? 0.1 : 0, d = sym("d", 10.0), v0 = sym("v");
    double ad = pse_ite(d < 0, -d, d);
    pse_assume(ad > base);
    Trace tr = run_step(st, t0, Array(Array::Constant(n, v0)), t0 + h,
                        [&](int i, double, const Array&)
                        {
                            Array k = Array::Constant(n, 1.0);
                            if (i == 0)
                                for (int j = 0; j < n; j++) k[j] = 1.0 + (j == worst ? d : j % 2 ? base : -base);
                            return k;
                        });
    double e   = ad / 360;
    bool half  = 0.001 < 2 * 0.31640625 * e;
    bool twice = pse_and(e > 0, 0.001 > 2 * 5.0625 * e);
    bool edge  = pse_or(pse_and(e > 0.99999 * 0.001 / (2 * 0.31640625), e < 1.00001 * 0.001 / (2 * 0.31640625)),
                        pse_and(e > 0.99999 * 0.001 / (2 * 5.0625), e < 1.00001 * 0.001 / (2 * 5.0625)));
    pse_assume(pse_not(edge));
    pse_assert(pse_same(tr.new_h, pse_ite(half, h / 2, pse_ite(twice, 2 * h, h))), "the component with the largest error decides");
    pse_reach("worst");
    if (pse_fork(half)) pse_reach("half");
    else if (pse_fork(twice)) pse_reach("twice");
    else pse_reach("same");
}

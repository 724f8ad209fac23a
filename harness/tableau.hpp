// Explicit Runge-Kutta tableaus read off a stepper, and their order conditions. Used by C11 and C12.
#pragma once
#include "common.hpp"
#include "src/solver/stepper_base.hpp"
#include <functional>

using pooya::Array;

// the evaluations made in one step
struct Trace
{
    std::vector<double> t;
    std::vector<Array> v, k;
    Array v1;
    double new_h{0};
};

inline Trace run_step(pooya::StepperBase& st, double t0, const Array& v0, double t1, std::function<Array(int, double, const Array&)> f)
{
    Trace tr;
    tr.k.reserve(16); // the stepper is given references
    auto cb = [&](double t, const Array& v) -> const Array&
    {
        pse_assert(tr.k.size() < 16, "evaluations per step");
        if (tr.k.size() >= 16) pse_stop();
        tr.t.push_back(t);
        tr.v.push_back(v);
        tr.k.push_back(f(int(tr.k.size()), t, v));
        return tr.k.back();
    };
    Array w0 = v0;
    st.step(cb, t0, v0, t1, tr.v1, tr.new_h);
    pse_assert(same(v0, w0), "the previous state is left alone");
    return tr;
}

// all evaluations lie within the step
inline bool inside(const Trace& tr, double t0, double t1)
{
    bool ok = true;
    for (double t : tr.t) ok = pse_and(ok, pse_and(t >= t0, t <= t1));
    return ok;
}

struct Tableau
{
    int s{0};
    double a[16][16]{}, b[16]{}, c[16]{};
};

// read off with unit derivatives in unit steps (concrete)
inline Tableau extract(pooya::StepperBase& st)
{
    Tableau T;
    Array z(1);
    z[0]       = 0;
    Trace base = run_step(st, 0, z, 1, [&](int, double, const Array&) { return z; });
    T.s        = int(base.t.size());
    for (int i = 0; i < T.s; i++) T.c[i] = base.t[i];
    for (int j = 0; j < T.s; j++)
    {
        Trace tr = run_step(st, 0, z, 1,
                            [&](int i, double, const Array&)
                            {
                                Array k(1);
                                k[0] = i == j ? 1 : 0;
                                return k;
                            });
        pse_assert(int(tr.t.size()) == T.s, "the same number of evaluations in every step");
        for (int i = 0; i < T.s && i < int(tr.v.size()); i++) T.a[i][j] = tr.v[i][0];
        T.b[j] = tr.v1[0];
    }
    return T;
}

// the step is v0 + h sum b_i k_i with stages at t0 + c_i h, v0 + h sum a_ij k_j: for all states, times, step lengths
// and derivatives
inline void check_structure(pooya::StepperBase& st, const Tableau& T, int n, const char* msg)
{
    double t0 = sym("t0", 50), h = pse_double_in("h", 1e-6, 16);
    Array v0 = sym_array("v", n);
    std::vector<Array> K;
    for (int i = 0; i < T.s; i++) K.push_back(sym_array(nm("k", i).c_str(), n));
    Trace tr = run_step(st, t0, v0, t0 + h, [&](int i, double, const Array&) { return i < T.s ? K[i] : K[0]; });
    pse_assert(int(tr.t.size()) == T.s, "the same number of evaluations in every step");
    pse_assert(tr.v1.rows() == n, "size of the new state");
    bool ok = true;
    for (int i = 0; i < T.s && i < int(tr.t.size()); i++)
    {
        ok       = pse_and(ok, eq(tr.t[i], t0 + T.c[i] * h));
        Array vi = v0;
        for (int j = 0; j < T.s; j++)
            if (T.a[i][j] != 0) vi = vi + h * T.a[i][j] * K[j];
        ok = pse_and(ok, eq(tr.v[i], vi));
    }
    Array r = v0;
    for (int j = 0; j < T.s; j++)
        if (T.b[j] != 0) r = r + h * T.b[j] * K[j];
    ok = pse_and(ok, eq(tr.v1, r));
    pse_assert(ok, msg);
    pse_assert(inside(tr, t0, t0 + h), "the derivative is evaluated only inside the step");
}

inline bool near(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }

// order conditions up to order 4 (concrete)
inline void check_order4(const Tableau& T)
{
    int s = T.s;
    auto S = [&](auto f)
    {
        double r = 0;
        for (int i = 0; i < s; i++) r += T.b[i] * f(i);
        return r;
    };
    auto A = [&](int i, auto f)
    {
        double r = 0;
        for (int j = 0; j < s; j++) r += T.a[i][j] * f(j);
        return r;
    };
    auto c = [&](int i) { return T.c[i]; };
    for (int i = 0; i < s; i++)
        pse_assert(near(A(i, [](int) { return 1.0; }), c(i)), "stage times agree with the stage values");
    pse_assert(near(S([](int) { return 1.0; }), 1), "order 1");
    pse_assert(near(S(c), 1. / 2), "order 2");
    pse_assert(near(S([&](int i) { return c(i) * c(i); }), 1. / 3), "order 3a");
    pse_assert(near(S([&](int i) { return A(i, c); }), 1. / 6), "order 3b");
    pse_assert(near(S([&](int i) { return c(i) * c(i) * c(i); }), 1. / 4), "order 4a");
    pse_assert(near(S([&](int i) { return c(i) * A(i, c); }), 1. / 8), "order 4b");
    pse_assert(near(S([&](int i) { return A(i, [&](int j) { return c(j) * c(j); }); }), 1. / 12), "order 4c");
    pse_assert(near(S([&](int i) { return A(i, [&](int j) { return A(j, c); }); }), 1. / 24), "order 4d");
}

// exact for derivatives that are polynomials of degree at most 3 in time
inline void check_polynomial(pooya::StepperBase& st, int n, double hmax = 16)
{
    double t0 = sym("t0", 50), h = pse_double_in("h", 1e-6, hmax);
    Array v0 = sym_array("v", n);
    std::vector<Array> p;
    for (int d = 0; d < 4; d++) p.push_back(sym_array(nm("p", d).c_str(), n, 10));
    Trace tr = run_step(st, t0, v0, t0 + h,
                        [&](int, double t, const Array&)
                        {
                            double s = t - t0; // coefficients of powers of (t - t0)
                            return Array(p[0] + p[1] * s + p[2] * s * s + p[3] * s * s * s);
                        });
    Array e = v0 + p[0] * h + p[1] * h * h / 2 + p[2] * h * h * h / 3 + p[3] * h * h * h * h / 4;
    pse_assert(eq(tr.v1, e), "exact for polynomials of degree three in time");
    pse_assert(inside(tr, t0, t0 + h), "the derivative is evaluated only inside the step");
}

// linear systems: the exponential series up to the fourth power of the step, then a multiple of the fifth
inline void check_linear(pooya::StepperBase& st, int n, int maxpow)
{
    double h = pse_double_in("h", 1e-6, 4), t0 = sym("t0", 50);
    Array v0 = sym_array("v", n, 10);
    std::vector<Array> L; // rows
    for (int i = 0; i < n; i++) L.push_back(sym_array(nm("l", i).c_str(), n, 4));
    auto mul = [&](const Array& x)
    {
        Array y(n);
        for (int i = 0; i < n; i++)
        {
            double a = 0;
            for (int j = 0; j < n; j++) a = a + L[i][j] * x[j];
            y[i] = a;
        }
        return y;
    };
    // the multiple of the fifth power, from v' = v
    double c5 = 0;
    if (maxpow > 4)
    {
        Array one(1);
        one[0]   = 1;
        Trace tr = run_step(st, 0, one, 1, [](int, double, const Array& v) { return v; });
        c5       = tr.v1[0] - (1 + 1 + 1. / 2 + 1. / 6 + 1. / 24);
    }
    Trace tr = run_step(st, t0, v0, t0 + h, [&](int, double, const Array& v) { return mul(v); });
    Array e = v0, z = v0;
    double hp = 1, f = 1;
    for (int k = 1; k <= maxpow; k++)
    {
        z  = mul(z);
        hp = hp * h;
        f  = f / k;
        e  = e + z * ((k <= 4 ? f : c5) * hp);
    }
    pse_assert(eq(tr.v1, e), "the exponential series through the fourth power of the step");
}

//@ property C10
//@ theory real
//@ modes debug release
//@ reach euler rk4 plain reuse fast array
//@ bounds larger instances: 6 triggered integrators (3 scalar, 3 of arrays of lengths 2, 9 and 17) with triggers of their own beside an integrator, 16 runs; trigger k of run r is given by 4 patterns (alternating, bursts, all at once, one symbolic trigger at run 9); symbolic initial values and constant derivatives; Euler and RK4, all simulators
#include "models.hpp"
using namespace pooya;

void pse_main()
{
    static const int LEN[] = {0, 2, 0, 9, 17, 0};
    constexpr int N        = 6;
    int stk = pse_choice("stepper", 2), sk = pse_choice("simulator", 3), pattern = pse_choice("pattern", 4);
    bool some = pse_bool("some");
    Submodel top(nullptr, "top");
    std::vector<ScalarSignal> x, u;
    std::vector<ArraySignal> xa, ua;
    std::vector<BoolSignal> tr;
    std::vector<Array> v, c, ic;
    std::vector<std::unique_ptr<Block>> b(N);
    for (int k = 0; k < N; k++)
    {
        int n = LEN[k] ? LEN[k] : 1;
        x.push_back(ScalarSignal(nm("x", k))), u.push_back(ScalarSignal(nm("u", k)));
        xa.push_back(ArraySignal(n, nm("xa", k))), ua.push_back(ArraySignal(n, nm("ua", k)));
        tr.push_back(BoolSignal(nm("tr", k)));
        ic.push_back(sym_array(nm("v", k).c_str(), n));
        c.push_back(sym_array(nm("c", k).c_str(), n));
        if (LEN[k])
        {
            b[k] = std::make_unique<TriggeredIntegratorA>(ic[k], &top, nm("ia", k));
            b[k]->connect({{"in", ua[k]}, {"trigger", tr[k]}}, {xa[k]});
        }
        else
        {
            b[k] = std::make_unique<TriggeredIntegrator>(ic[k][0], &top, nm("i", k));
            b[k]->connect({{"in", u[k]}, {"trigger", tr[k]}}, {x[k]});
        }
    }
    v = ic;
    ScalarSignal w("w");
    double w0 = sym("w0"), wc = 1;
    Integrator in(w0, &top, "in");
    in.connect({u[0]}, {w});
    int now   = 0;
    auto trig = [&](int r, int k) -> bool
    {
        if (pattern == 0) return (r + k) % 2 == 1;
        if (pattern == 1) return (r / (k + 1)) % 3 == 1;
        if (pattern == 2) return r % 5 == 4;
        return r == 9 && k % 2 ? some : r == 3 + k;
    };
    auto cb = [&](Block&, double)
    {
        for (int k = 0; k < N; k++)
        {
            if (LEN[k]) ua[k] = c[k];
            else u[k] = c[k][0];
            tr[k] = trig(now, k);
        }
    };
    Euler eu;
    Rk4 rk;
    StepperBase* st = stk ? static_cast<StepperBase*>(&rk) : &eu;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb, st);
    else sim = std::make_unique<Simulator>(top, cb, st, sk == 1);
    wc = c[0][0];
    for (int r = 0; r <= 16; r++)
    {
        now = r;
        if (r == 0) sim->init(0);
        else sim->run(0.25 * r, 1e-3, 1);
        bool ok = true;
        for (int k = 0; k < N; k++)
        {
            if (r) // the run starts from the state of the step before, zero if it was triggered there
            {
                bool restarted = trig(r - 1, k);
                for (int i = 0; i < v[k].rows(); i++) v[k][i] = pse_ite(restarted, 0.0, v[k][i]) + 0.25 * c[k][i];
            }
            ok = pse_and(ok, LEN[k] ? eq(xa[k]->get_value(), v[k]) : eq(x[k]->get_value(), v[k][0]));
        }
        pse_assert(ok, "a triggered integrator restarts from zero after a triggered step, the others go on");
        pse_assert(eq(w->get_value(), w0 + 0.25 * r * wc), "an integrator beside them goes on");
    }
    static const char* sims[] = {"plain", "reuse", "fast"};
    pse_reach(stk ? "rk4" : "euler"), pse_reach(sims[sk]), pse_reach("array");
}

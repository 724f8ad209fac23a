//@ property C09
//@ theory real
//@ modes debug release
//@ reach euler rk4 plain reuse fast
//@ bounds larger instances: 12 integrators, scalars and arrays of lengths 1, 2, 3, 5, 8 and 17 mixed (42 state components), created forwards or backwards, flat, in 4 submodels or each nested in the next; symbolic initial values, derivatives constant in time (symbolic); Euler and RK4, 4 runs, all simulators
#include "models.hpp"
using namespace pooya;

void pse_main()
{
    static const int LEN[] = {0, 1, 5, 8, 0, 17, 3, 2, 0, 0, 1, 1}; // 0: scalar
    constexpr int N        = 12;
    int stk = pse_choice("stepper", 2), sk = pse_choice("simulator", 3), nest = pse_choice("nest", 3);
    bool rev = pse_choice("reverse", 2) == 1;
    Submodel top(nullptr, "top");
    std::vector<std::unique_ptr<Submodel>> subs;
    for (int k = 0; k < N; k++) subs.push_back(std::make_unique<Submodel>(nest == 2 && k ? subs.back().get() : &top, nm("s", k)));
    auto parent = [&](int k) -> Submodel* { return nest == 0 ? &top : nest == 1 ? subs[k % 4].get() : subs[k].get(); };
    std::vector<ScalarSignal> x, u;
    std::vector<ArraySignal> xa, ua;
    std::vector<Array> v, c;
    for (int k = 0; k < N; k++)
    {
        int n = LEN[k] ? LEN[k] : 1;
        x.push_back(ScalarSignal(nm("x", k))), u.push_back(ScalarSignal(nm("u", k)));
        xa.push_back(ArraySignal(n, nm("xa", k))), ua.push_back(ArraySignal(n, nm("ua", k)));
        v.push_back(sym_array(nm("v", k).c_str(), n));
        c.push_back(sym_array(nm("c", k).c_str(), n));
    }
    std::vector<std::unique_ptr<Block>> b(N);
    for (int q = 0; q < N; q++)
    {
        int k = rev ? N - 1 - q : q;
        if (LEN[k])
        {
            b[k] = std::make_unique<IntegratorA>(v[k], parent(k), nm("ia", k));
            b[k]->connect({ua[k]}, {xa[k]});
        }
        else
        {
            b[k] = std::make_unique<Integrator>(v[k][0], parent(k), nm("i", k));
            b[k]->connect({u[k]}, {x[k]});
        }
    }
    // the derivative of a component is its constant
    auto cb = [&](Block&, double)
    {
        for (int k = 0; k < N; k++)
            if (LEN[k]) ua[k] = c[k];
            else u[k] = c[k][0];
    };
    Euler eu;
    Rk4 rk;
    StepperBase* st = stk ? static_cast<StepperBase*>(&rk) : &eu;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb, st);
    else sim = std::make_unique<Simulator>(top, cb, st, sk == 1);
    for (int r = 0; r <= 4; r++)
    {
        if (r == 0) sim->init(0);
        else sim->run(0.5 * r, 1e-3, 1);
        bool ok = true;
        for (int k = 0; k < N; k++)
        {
            if (r) v[k] = v[k] + 0.5 * c[k];
            pse_assert(LEN[k] ? xa[k]->assigned() : x[k]->assigned(), "the state is assigned");
            ok = pse_and(ok, LEN[k] ? eq(xa[k]->get_value(), v[k]) : eq(x[k]->get_value(), v[k][0]));
        }
        pse_assert(ok, r ? "every state advances by its own derivative" : "every state starts from its own initial value");
    }
    static const char* sims[] = {"plain", "reuse", "fast"};
    pse_reach(stk ? "rk4" : "euler"), pse_reach(sims[sk]);
}

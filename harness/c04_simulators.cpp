//@ property C04
//@ theory real
//@ modes debug release
//@ reach reuse fast feedback mixed discrete triggered chain bus euler rk4
//@ bounds 6 models of 5 blocks (see models.hpp), with and without states, all 120 creation orders, plain simulator against the reusing and the fast one, initialization and NSTEPS runs (quick 2, thorough 4), symbolic initial values, inputs and triggers, Euler and RK4
//@ quick -DNSTEPS=2
//@ thorough -DNSTEPS=4
#include "models.hpp"
static const double times[] = {0, 0.5, 1, 1.625, 2.25};

void pse_main()
{
    Params P;
    int kind = pse_choice("model", NUM_MODELS);
    int st   = pse_choice("stepper", kind == 2 ? 1 : 2);
    int sk   = 1 + pse_choice("simulator", 2);
    auto ref = make_model(kind, P);
    auto mod = make_model(kind, P);
    int n    = ref->size();
    auto perm = choose_permutation(n);
    for (int i = 0; i < n; i++)
    {
        ref->make(perm[i], &ref->top);
        mod->make(perm[i], &mod->top);
    }
    auto s1 = make_stepper(st), s2 = make_stepper(st);
    auto sim1 = make_simulator(0, *ref, s1.get());
    auto sim2 = make_simulator(sk, *mod, s2.get());
    for (int k = 0; k <= NSTEPS; k++)
    {
        if (k == 0)
        {
            sim1->init(times[0]);
            sim2->init(times[0]);
        }
        else
        {
            sim1->run(times[k], 1e-3, 1);
            sim2->run(times[k], 1e-3, 1);
        }
        std::vector<double> a, b;
        ref->read(a);
        mod->read(b);
        compare(a, b, sk == 1 ? "the simulator that reuses its order agrees with the plain one" : "the fast simulator agrees with the plain one");
    }
    pse_reach(kind == 0 ? "feedback" : kind == 1 ? "mixed" : kind == 2 ? "discrete" : kind == 3 ? "triggered" : kind == 4 ? "chain" : "bus");
    pse_reach(sk == 1 ? "reuse" : "fast");
    pse_reach(st == 0 ? "euler" : "rk4");
}

//@ property C03
//@ theory real
//@ modes debug release
//@ reach feedback mixed discrete triggered chain bus plain reuse fast
//@ bounds 6 models of 5 blocks (integrators of scalars and arrays, triggered integrator, gain, add, subtract, memory, delay, derivative, function, pipe, bus memory, bus pipe), all 120 creation orders, initialization and NSTEPS runs (quick 3, thorough 4), symbolic initial values, inputs and triggers, Euler and RK4, every simulator (Euler only, except for the plain one)
//@ quick -DNSTEPS=3 -DNST=2
//@ thorough -DNSTEPS=4 -DNST=2
#include "models.hpp"
static const double times[] = {0, 0.5, 1, 1.625, 2.25};

void pse_main()
{
    Params P;
    int kind = pse_choice("model", NUM_MODELS);
    int sk   = pse_choice("simulator", 3);
    int st   = sk == 0 ? pse_choice("stepper", NST) : 0;
    auto ref = make_model(kind, P);
    auto mod = make_model(kind, P);
    int n    = ref->size();
    auto perm = choose_permutation(n);
    for (int i = 0; i < n; i++) ref->make(i, &ref->top);
    for (int i = 0; i < n; i++) mod->make(perm[i], &mod->top);
    auto s1 = make_stepper(st), s2 = make_stepper(st);
    auto sim1 = make_simulator(sk, *ref, s1.get());
    auto sim2 = make_simulator(sk, *mod, s2.get());
    for (int k = 0; k <= NSTEPS; k++)
    {
        if (k == 0)
        {
            sim1->init(times[0]);
            sim2->init(times[0]);
        }
        else
        {
            sim1->run(times[k], 1e-3, 1);
            sim2->run(times[k], 1e-3, 1);
        }
        std::vector<double> a, b;
        ref->read(a);
        mod->read(b);
        compare(a, b, "same values whatever the order of the blocks");
    }
    pse_reach(kind == 0 ? "feedback" : kind == 1 ? "mixed" : kind == 2 ? "discrete" : kind == 3 ? "triggered" : kind == 4 ? "chain" : "bus");
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
}

//@ property C04
//@ theory real
//@ modes debug release
//@ reach again takeover
//@ bounds a simulation taken over: one of the 3 simulators initializes the model and runs it once, then either the same simulator is initialized again at a later time or another one (any of the 3) takes over, and NSTEPS more runs (quick 1, thorough 3); compared with the plain simulator doing the same; 6 models, two creation orders, Euler and (thorough) RK4
//@ quick -DNSTEPS=1
//@ thorough -DNSTEPS=3
#include "models.hpp"
static const double times[] = {0, 0.5, 1.125, 1.625, 2.25, 2.5};

void pse_main()
{
    Params P;
    int kind   = pse_choice("model", NUM_MODELS);
    int st     = NSTEPS > 1 && kind != 2 ? pse_choice("stepper", 2) : 0;
    int first  = pse_choice("first", 3);
    int second = pse_choice("second", 4); // 3: the first one again
    bool rev   = pse_choice("reverse", 2);
    auto ref   = make_model(kind, P);
    auto mod   = make_model(kind, P);
    int n      = ref->size();
    for (int i = 0; i < n; i++)
    {
        ref->make(rev ? n - 1 - i : i, &ref->top);
        mod->make(rev ? n - 1 - i : i, &mod->top);
    }
    auto st1 = make_stepper(st), st2 = make_stepper(st);
    auto ref1 = make_simulator(0, *ref, st1.get()), ref2 = make_simulator(0, *ref, st1.get());
    auto mod1 = make_simulator(first, *mod, st2.get()), mod2 = make_simulator(second % 3, *mod, st2.get());
    pooya::SimulatorBase* r = ref1.get();
    pooya::SimulatorBase* m = mod1.get();
    std::vector<double> xa, xb;
    for (int k = 0; k <= NSTEPS + 2; k++)
    {
        if (k == 2)
        {
            mod->read_states(xa);
            r = ref2.get();
            if (second < 3) m = mod2.get();
        }
        if (k == 0 || k == 2)
        {
            r->init(times[k]);
            m->init(times[k]);
        }
        else
        {
            r->run(times[k], 1e-3, 1);
            m->run(times[k], 1e-3, 1);
        }
        if (k == 2 && kind != 3)
        {
            mod->read_states(xb);
            compare(xa, xb, "the states are those the previous simulation ended with");
        }
        std::vector<double> a, b;
        ref->read(a);
        mod->read(b);
        compare(a, b, "a simulation that is taken over agrees with the plain simulator");
    }
    pse_reach(second == 3 ? "again" : "takeover");
}

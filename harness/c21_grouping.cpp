//@ property C21
//@ theory real
//@ modes debug release
//@ reach feedback mixed discrete triggered chain bus nested plain reuse fast
//@ bounds 6 models of 5 blocks (see models.hpp); every placement of the blocks into the model, a submodel and PLACES-2 further (nested or sibling) submodels, submodels created before or after the blocks of the model itself; initialization and NSTEPS runs (quick 2, thorough 3), symbolic initial values, inputs and triggers, all three simulators (each compared with the flat model under the plain one), Euler (thorough: also RK4)
//@ quick -DNSTEPS=2 -DPLACES=3 -DNST=1
//@ thorough -DNSTEPS=3 -DPLACES=4 -DNST=2
#include "models.hpp"
static const double times[] = {0, 0.5, 1, 1.625, 2.25};

void pse_main()
{
    Params P;
    int kind = pse_choice("model", NUM_MODELS);
    int st   = pse_choice("stepper", NST);
    auto ref = make_model(kind, P);
    auto mod = make_model(kind, P);
    int n    = ref->size();
    std::vector<int> place;
    for (int i = 0; i < n; i++) place.push_back(pse_choice("place", PLACES));
    int sk = pse_choice("simulator", 3);
    for (int i = 0; i < n; i++) ref->make(i, &ref->top);
    // 0: the model itself, 1: submodel a, 2: submodel b inside a, 3: submodel c
    bool after = place[0] == 0 && pse_choice("after", 2);
    if (after)
        for (int i = 0; i < n; i++)
            if (place[i] == 0) mod->make(i, &mod->top);
    mod->subs.push_back(std::make_unique<Submodel>(&mod->top, "a"));
    mod->subs.push_back(std::make_unique<Submodel>(nullptr, "b"));
    mod->subs[0]->add_block(*mod->subs[1]);
    mod->subs.push_back(std::make_unique<Submodel>(&mod->top, "c"));
    for (int i = 0; i < n; i++)
        if (place[i] || !after) mod->make(i, place[i] ? mod->subs[place[i] - 1].get() : &mod->top);
    auto s1 = make_stepper(st), s2 = make_stepper(st);
    auto sim1 = make_simulator(0, *ref, s1.get());
    auto sim2 = make_simulator(sk, *mod, s2.get());
    for (int k = 0; k <= NSTEPS; k++)
    {
        if (k == 0)
        {
            sim1->init(times[0]);
            sim2->init(times[0]);
        }
        else
        {
            sim1->run(times[k], 1e-3, 1);
            sim2->run(times[k], 1e-3, 1);
        }
        std::vector<double> a, b;
        ref->read(a);
        mod->read(b);
        compare(a, b, "same values however the blocks are grouped");
    }
    pse_reach(kind == 0 ? "feedback" : kind == 1 ? "mixed" : kind == 2 ? "discrete" : kind == 3 ? "triggered" : kind == 4 ? "chain" : "bus");
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
    for (int p : place)
        if (p == 2) pse_reach("nested");
}

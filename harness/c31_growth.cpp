//@ property C31
//@ theory real
//@ modes debug release
//@ reach feedback mixed discrete triggered bus same other plain reuse fast top nested new statechange
//@ bounds five models (see models.hpp), two creation orders, with the blocks of another one and an integrator and a gain of a signal of the first one added after its initialization and one run, to the model itself, to a submodel that was there, or to a new one; then initialized again by the same simulator or another of the three and run NRUNS times (quick 2, thorough 3); compared with separate simulations of the parts; Euler steps; symbolic initial values and inputs
//@ quick -DNRUNS=2 -DNADD=5
//@ thorough -DNRUNS=3 -DNADD=5
#include "models.hpp"
using namespace pooya;

static std::unique_ptr<SimulatorBase> simulator(int sk, Submodel& top, SimulatorBase::InputCallback cb, StepperBase* st)
{
    if (sk == 2) return std::make_unique<FastSimulator>(top, cb, st);
    return std::make_unique<Simulator>(top, cb, st, sk == 1);
}

void pse_main()
{
    static const int kinds[]   = {0, 1, 2, 3, 5};
    static const double time[] = {0, 0.5, 1.125, 1.5, 2, 2.25};
    Params P, Q(5);
    int k1    = kinds[pse_choice("model", 5)];
    int k2    = kinds[pse_choice("added", NADD)];
    int where = pse_choice("where", 3);
    int sk    = pse_choice("simulator", 3);
    int sk2   = pse_choice("second", 4); // 3: the same one
    bool rev  = (k1 + k2 + where) % 2;
    auto A = make_model(k1, P), RA = make_model(k1, P), B = make_model(k2, Q), RB = make_model(k2, Q);
    // the blocks of A partly at the top, partly in a submodel
    Submodel inner(&A->top, "inner");
    for (int i = 0; i < A->size(); i++)
    {
        A->make(rev ? A->size() - 1 - i : i, i % 2 ? &inner : &A->top);
        RA->make(i, &RA->top);
    }
    bool grown = false;
    auto cb    = [&](Block&, double t)
    {
        A->inputs(t);
        if (grown) B->inputs(t);
    };
    Euler st, sa, sb;
    auto first   = simulator(sk, A->top, cb, k1 == 2 ? nullptr : &st);
    auto refa    = simulator(0, RA->top, [&](Block&, double t) { RA->inputs(t); }, k1 == 2 ? nullptr : &sa);
    std::vector<double> x, y;
    auto compare_all = [&]()
    {
        x.clear(), y.clear();
        A->read(x), RA->read(y);
        if (grown) B->read(x), RB->read(y);
        compare(x, y, "the signals are those of separate simulations");
    };
    first->init(time[0]), refa->init(time[0]);
    compare_all();
    first->run(time[1], 1e-3, 1), refa->run(time[1], 1e-3, 1);
    compare_all();

    // the model grows
    std::unique_ptr<Submodel> fresh;
    if (where == 2) fresh = std::make_unique<Submodel>(&inner, "fresh");
    Submodel* p = where == 0 ? &A->top : where == 1 ? &inner : fresh.get();
    ScalarSignal z("z"), g("g"); // z' = g, g = 2 (a signal of the first model)
    for (int i = 0; i < B->size(); i++)
    {
        B->make(rev ? i : B->size() - 1 - i, p);
        RB->make(i, &RB->top);
    }
    Signal src = A->blocks[0]->obus().at(0);
    std::optional<ScalarSignal> source;
    if (k1 < 2) source.emplace(src);
    double z0 = sym("z0");
    std::unique_ptr<Integrator> in;
    std::unique_ptr<Gain> ga;
    if (source)
    {
        in = std::make_unique<Integrator>(z0, &A->top, "z");
        ga = std::make_unique<Gain>(2, p, "g");
        in->connect({g}, {z});
        ga->connect({*source}, {g});
    }
    grown = true;
    auto refb = simulator(0, RB->top, [&](Block&, double t) { RB->inputs(t); }, k2 == 2 ? nullptr : &sb);
    std::unique_ptr<SimulatorBase> second;
    SimulatorBase* sim = first.get();
    bool states        = k1 != 2 || k2 != 2 || source;
    // a simulator without a stepper cannot take on states
    if (sk2 < 3 || (states && k1 == 2))
    {
        second = simulator(sk2 % 3, A->top, cb, states ? &st : nullptr);
        sim    = second.get();
    }
    else
        pse_reach("same");
    double zz = z0, slope = 0;
    for (int r = 0; r <= NRUNS; r++)
    {
        double t = time[2 + r];
        if (r == 0) sim->init(t), refa->init(t), refb->init(t);
        else sim->run(t, 1e-3, 1), refa->run(t, 1e-3, 1), refb->run(t, 1e-3, 1);
        compare_all();
        if (source)
        {
            if (r) zz = zz + (t - time[1 + r]) * slope;
            pse_assert(z->assigned() && g->assigned(), "the added blocks are evaluated");
            pse_assert(eq(z->get_value(), zz), "an added integrator integrates the signal of the model from its initial value");
            slope = 2 * (*source)->get_value();
            pse_assert(eq(g->get_value(), slope), "an added gain amplifies the signal of the model");
        }
    }
    if (sim != first.get()) pse_reach("other");
    if (k1 == 2 && states) pse_reach("statechange");
    pse_reach(where == 0 ? "top" : where == 1 ? "nested" : "new");
    pse_reach(k1 == 0 ? "feedback" : k1 == 1 ? "mixed" : k1 == 2 ? "discrete" : k1 == 3 ? "triggered" : "bus");
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
}

//@ property C21
//@ theory real
//@ modes debug release
//@ reach gain function memory integrator triggered delay derivative plain reuse fast
//@ bounds a model that is a single block of 7 types, without any submodel, against the same block inside a submodel of another one; all three simulators (against the plain one), initialization and NSTEPS runs (quick 2, thorough 4), symbolic initial values, inputs and triggers
//@ quick -DNSTEPS=2
//@ thorough -DNSTEPS=4
#include "models.hpp"
using namespace pooya;
static const double times[] = {0, 0.5, 1, 1.625, 2.25};
static const char* names[]  = {"gain", "function", "memory", "integrator", "triggered", "delay", "derivative"};

struct Alone
{
    const Params& P;
    ScalarSignal u{"u"}, y{"y"}, del{"del"}, ini{"ini"};
    BoolSignal tr{"tr"};
    std::unique_ptr<Block> b;
    int type;
    Alone(const Params& par, int type, Submodel* parent) : P(par), type(type)
    {
        switch (type)
        {
        case 0: b = std::make_unique<Gain>(-1.5, parent, "b"); break;
        case 1: b = std::make_unique<SISOFunction>([](double t, double x) { return 2 * x - t; }, parent, "b"); break;
        case 2: b = std::make_unique<Memory>(P.p[0], parent, "b"); break;
        case 3: b = std::make_unique<Integrator>(P.p[0], parent, "b"); break;
        case 4: b = std::make_unique<TriggeredIntegrator>(P.p[0], parent, "b"); break;
        case 5: b = std::make_unique<Delay>(3.0, parent, "b"); break;
        default: b = std::make_unique<Derivative>(P.p[0], parent, "b"); break;
        }
        if (type == 4) b->connect({{"in", u}, {"trigger", tr}}, {y});
        else if (type == 5) b->connect({{"in", u}, {"delay", del}, {"initial", ini}}, {y});
        else b->connect({u}, {y});
    }
    void inputs(double t)
    {
        u   = P.u(t);
        // signals that belong to no block are not cleared
        if (type == 5) del = 0.625, ini = P.p[2];
        if (type == 4) tr = P.trig(t);
    }
};

void pse_main()
{
    Params P;
    int type = pse_choice("type", 7), sk = pse_choice("simulator", 3);
    Submodel top(nullptr, "top"), sub(&top, "sub");
    Alone in(P, type, &sub), al(P, type, nullptr);
    Euler e1, e2;
    bool st  = type == 3 || type == 4;
    auto cb1 = [&](Block&, double t) { in.inputs(t); };
    auto cb2 = [&](Block&, double t) { al.inputs(t); };
    Simulator ref(top, cb1, st ? &e1 : nullptr);
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(*al.b, cb2, st ? &e2 : nullptr);
    else sim = std::make_unique<Simulator>(*al.b, cb2, st ? &e2 : nullptr, sk == 1);
    for (int k = 0; k <= NSTEPS; k++)
    {
        if (k == 0) ref.init(0), sim->init(0);
        else ref.run(times[k], 1e-3, 1), sim->run(times[k], 1e-3, 1);
        pse_assert(in.y->assigned() && al.y->assigned(), "the output is assigned");
        if (al.y->assigned()) pse_assert(eq(in.y, al.y), "a block alone behaves as inside a submodel");
    }
    pse_reach(names[type]);
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
}

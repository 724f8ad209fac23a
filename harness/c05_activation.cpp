//@ property C05
//@ theory real
//@ modes debug release
//@ reach acyclic loop missing behind optional plain reuse fast refused states
//@ bounds NL leaves (quick 3, thorough 3 with more nestings) with every dependency graph between them (self-dependency included), each also fed by a state or (quick: at most one leaf) by a signal that is never assigned; optionally one leaf does not require its inputs; with an integrator advanced by an arbitrary stepper; 2 nestings; plain, reusing and fast simulator; initialization and one run with one trial evaluation; all values symbolic
//@ quick -DNL=3 -DNESTS=1 -DALLBASES=0
//@ thorough -DNL=3 -DNESTS=3 -DALLBASES=1
#include "common.hpp"
#include "src/block/integrator.hpp"
#include "src/block/submodel.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/simulator.hpp"
using namespace pooya;

static int evaluation = 0; // number of the current evaluation of the model

class Probe : public Leaf
{
public:
    int last{-1};        // the evaluation in which it was activated last
    bool optional{false};
    double c;
    std::vector<ScalarSignal> in;
    ScalarSignal out;
    double expected{0};
    Probe(Submodel* p, const char* name, double c_) : Leaf(p, name), c(c_) {}
    bool connect(const Bus& i, const Bus& o) override
    {
        if (!Leaf::connect(i, o)) return false;
        for (std::size_t k = 0; k < i.size(); k++)
        {
            in.emplace_back(input(k));
            if (optional)
                if (auto* ptr = find_linked_signal(in.back().impl())) ptr->second = ptr->second & ~SignalLinkType::Required;
        }
        out.reset(output(0));
        return true;
    }
    void activation_function(double) override
    {
        pse_assert(last != evaluation, "a leaf is activated at most once per evaluation");
        last     = evaluation;
        double s = c;
        if (!optional)
            for (auto& i : in)
            {
                pse_assert(i->assigned(), "a leaf is activated only after the inputs it requires have been assigned");
                if (!i->assigned()) pse_stop();
                s = s + i->get_value();
            }
        if (out->assigned()) pse_stop();
        out = s;
    }
};

struct AnyStep : StepperBase
{
    std::function<void()> evaluated;
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        cb(t0, v0);
        evaluated();
        cb(t0 + 0.25, sym_array("trial", int(v0.rows())));
        evaluated();
        v1    = sym_array("next", int(v0.rows()));
        new_h = t1 - t0;
    }
};

void pse_main()
{
    bool dep[NL][NL];
    int base[NL];
    for (int i = 0; i < NL; i++)
        for (int j = 0; j < NL; j++) dep[i][j] = pse_choice("dep", 2) == 1;
    // fed by 0: a state, 1: a signal never assigned
#if ALLBASES
    for (int i = 0; i < NL; i++) base[i] = pse_choice("base", 2);
#else
    int miss = pse_choice("missing", NL + 1);
    for (int i = 0; i < NL; i++) base[i] = i == miss;
#endif
    bool opt  = pse_choice("optional", 2) == 1;
    int nest  = pse_choice("nest", NESTS);
    int sk    = pse_choice("simulator", 3);

    // what can be activated
    bool act[NL] = {};
    for (int r = 0; r < NL; r++)
        for (int i = 0; i < NL; i++)
        {
            bool ok = true;
            if (!(opt && i == NL - 1))
            {
                if (base[i]) ok = false;
                for (int j = 0; j < NL; j++)
                    if (dep[i][j] && !act[j]) ok = false;
            }
            act[i] = act[i] || ok;
        }
    bool all = true, anymissing = false, anyact = false;
    for (int i = 0; i < NL; i++)
    {
        all        = all && act[i];
        anymissing = anymissing || base[i];
        anyact     = anyact || act[i];
    }

    Submodel top(nullptr, "top"), a(&top, "a"), b(&a, "b");
    Submodel* par[3] = {nest == 2 ? &a : &top, nest == 1 ? &top : nest == 2 ? &b : &a, &b};
    std::vector<std::unique_ptr<Probe>> p;
    std::vector<ScalarSignal> o;
    ScalarSignal x("x"), u("u"), missing("missing");
    for (int i = 0; i < NL; i++)
    {
        o.emplace_back(nm("o", i));
        p.push_back(std::make_unique<Probe>(par[i % 3], nm("p", i).c_str(), sym("c", i)));
    }
    double x0 = sym("x0");
    Integrator in(x0, &a, "in");
    in.connect({u}, {x});
    p[NL - 1]->optional = opt;
    for (int i = 0; i < NL; i++)
    {
        std::vector<Signal> ib;
        ib.push_back(base[i] ? missing : x);
        for (int j = 0; j < NL; j++)
            if (dep[i][j]) ib.push_back(o[j]);
        p[i]->connect(make_bus(ib), Bus({o[i]}));
    }
    AnyStep st;
    auto complete = [&]()
    {
        for (int i = 0; i < NL; i++)
            pse_assert((p[i]->last == evaluation) == act[i], act[i] ? "every leaf that can be is activated in every evaluation" : "a leaf on or behind a loop or missing input is not activated");
    };
    st.evaluated = complete;
    auto cb      = [&](Block&, double t)
    {
        evaluation++;
        u = t;
    };
    evaluation = 0;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb, &st);
    else sim = std::make_unique<Simulator>(top, cb, &st, sk == 1);
    bool refused = raises([&] { sim->init(0); });
    pse_assert(refused == (sk == 2 && !all), "the fast simulator refuses exactly the models it cannot process");
    if (refused)
    {
        pse_assert(raises([&] { sim->run(1, 1e-3, 10); }), "a model that was refused is not simulated");
        pse_reach("refused");
        return;
    }
    complete();
    int before = evaluation;
    sim->run(1, 1e-3, 10);
    complete();
    pse_assert(evaluation >= before + 1, "the model is evaluated at the new time");
    pse_reach("states");
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
    pse_reach(all ? "acyclic" : anymissing ? "missing" : "loop");
    if (opt) pse_reach("optional");
    if (!all && anyact) pse_reach("behind");
}

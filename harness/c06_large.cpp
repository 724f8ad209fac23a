//@ property C06
//@ theory fp
//@ modes debug release
//@ reach pipeline array plain reuse fast
//@ bounds larger instances: 40 steps after initialization through a pipeline of 1 and of 8 memories (created in the order of the pipeline or against it), every 64-bit double; a memory of arrays of length 17; all three simulators
#include "models.hpp"
using namespace pooya;

void pse_main()
{
    constexpr int NST = 40;
    int n    = pse_choice("memories", 2) ? 8 : 1;
    bool rev = pse_choice("reverse", 2) == 1;
    int len  = 17;
    int sk   = pse_choice("simulator", 3);
    Submodel top(nullptr, "top");
    std::vector<ScalarSignal> y;
    for (int k = 0; k <= n; k++) y.push_back(ScalarSignal(nm("y", k)));
    ArraySignal xa(len, "xa"), ya(len, "ya");
    Array ica(len), cura(len), preva(len);
    for (int i = 0; i < len; i++) ica[i] = pse_double("ica");
    std::vector<double> ic(n), fed(NST + 1);
    std::vector<std::unique_ptr<Memory>> m(n);
    for (int k = 0; k < n; k++) ic[k] = pse_double("ic");
    for (int k = 0; k < n; k++)
    {
        int q = rev ? n - 1 - k : k;
        m[q]  = std::make_unique<Memory>(ic[q], &top, nm("m", q));
        m[q]->connect({y[q]}, {y[q + 1]});
    }
    MemoryA ma(ica, &top, "ma");
    ma.connect({xa}, {ya});
    int now = 0;
    auto cb = [&](Block&, double)
    {
        y[0] = fed[now];
        xa   = cura;
    };
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb);
    else sim = std::make_unique<Simulator>(top, cb, nullptr, sk == 1);
    for (int s = 0; s <= NST; s++)
    {
        fed[s] = pse_double("fed");
        now    = s;
        preva  = s ? cura : ica;
        for (int i = 0; i < len; i++) cura[i] = s % 8 == 0 ? pse_double("xa") : s + i;
        if (s == 0) sim->init(0);
        else sim->run(0.5 * s);
        bool ok = true;
        for (int k = 1; k <= n; k++)
        {
            pse_assert(y[k]->assigned(), "memory output assigned");
            // after s steps stage k holds what was fed s - k steps ago, or the initial value on its way
            double expect = s >= k ? fed[s - k] : ic[k - 1 - s];
            ok            = pse_and(ok, same(y[k]->get_value(), expect));
        }
        pse_assert(ok, "every memory holds the input of the step before");
        pse_assert(same(ya->get_value(), preva), "the array memory holds the input of the step before");
    }
    pse_reach("pipeline"), pse_reach("array");
    static const char* sims[] = {"plain", "reuse", "fast"};
    pse_reach(sims[sk]);
}

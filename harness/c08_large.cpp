//@ property C08
//@ theory real
//@ modes debug release
//@ reach scalar array plain reuse fast
//@ bounds larger instances: 30 completed steps of different lengths (1/4, 1/2, 2) in a model run by each simulator, every third run repeating its time; scalars and arrays of length 17 beside each other; all inputs and initial outputs symbolic
#include "models.hpp"
#include "src/block/extra/derivative.hpp"
using namespace pooya;

void pse_main()
{
    constexpr int NST = 30, len = 17;
    int sk      = pse_choice("simulator", 3);
    bool repeat = pse_choice("repeat", 2) == 1;
    double y0   = sym("y0");
    Array y0a   = sym_array("y0a", len);
    Submodel top(nullptr, "top");
    ScalarSignal x("x"), y("y");
    ArraySignal xa(len, "xa"), ya(len, "ya");
    Derivative d(y0, &top, "d");
    DerivativeA da(y0a, &top, "da");
    d.connect({x}, {y});
    da.connect({xa}, {ya});
    double xv = 0, px = 0, expect = y0, t = 0;
    Array xav(len), pxa(len), expecta = y0a;
    auto cb = [&](Block&, double)
    {
        x  = xv;
        xa = xav;
    };
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb);
    else sim = std::make_unique<Simulator>(top, cb, nullptr, sk == 1);
    for (int k = 0; k <= NST; k++)
    {
        static const double dts[] = {0.25, 0.5, 2};
        double dt                 = dts[(k * k) % 3];
        bool again                = repeat && k % 3 == 2;
        px = xv, pxa = xav;
        if (!again)
        {
            xv = sym(nm("x", k).c_str());
            for (int i = 0; i < len; i++) xav[i] = k % 5 < 2 ? sym(nm("xa", k).c_str(), i, 100.0) : k * 1.5 - i;
        }
        if (k == 0) sim->init(t);
        else
        {
            if (!again)
            {
                t       = t + dt;
                expect  = (xv - px) / dt;
                expecta = (xav - pxa) / dt;
            }
            sim->run(t);
        }
        pse_assert(y->assigned() && eq(y->get_value(), expect), "the slope since the last completed step");
        pse_assert(ya->assigned() && eq(ya->get_value(), expecta), "the slope since the last completed step (array)");
    }
    static const char* sims[] = {"plain", "reuse", "fast"};
    pse_reach("scalar"), pse_reach("array"), pse_reach(sims[sk]);
}

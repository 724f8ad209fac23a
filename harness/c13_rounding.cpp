//@ property C13
//@ theory fp
//@ modes release
//@ reach forced accepted clipped
//@ bounds IEEE double arithmetic, rounding included: a scalar state, a stepper with arbitrary suggestions in [-1,20], starts from NSTARTS given ones (quick 4, thorough 10), 2 run lengths, any minimum in [1/1024,1], maximum 1.5; 2 attempts and the length of the next one
//@ quick -DNATT=2 -DNSTARTS=4
//@ thorough -DNATT=2 -DNSTARTS=10
#include "common.hpp"
#include "src/block/integrator.hpp"
#include "src/block/submodel.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/simulator.hpp"
using namespace pooya;

struct Attempt
{
    double t0, t1, suggested;
};
static std::vector<Attempt> attempts;

struct AnyStep : StepperBase
{
    double tt, mn;
    void step(StepperCallback, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        pse_assert(pse_and(t1 > t0, t1 <= tt), "a sub-step has a positive length and ends by the requested time");
        if (!attempts.empty())
        {
            auto& b = attempts.back();
            if (pse_fork(t0 == b.t0))
            {
                // b is repeated
                pse_assert(pse_and(b.suggested < b.t1 - b.t0, b.t1 - b.t0 > mn), "a sub-step is repeated only if a shorter one is suggested and possible");
                if (attempts.size() > 1)
                {
                    auto& a = attempts[attempts.size() - 2];
                    pse_assert(pse_not(pse_and(a.t0 == b.t0, a.suggested <= mn)), "a sub-step of the minimum length is not repeated, even if it is longer by rounding");
                }
            }
            else
            {
                pse_assert(t0 == b.t1, "a sub-step starts where the preceding one ended");
                pse_reach("accepted");
            }
        }
        if (attempts.size() == NATT)
        {
            auto& a = attempts[attempts.size() - 2];
            if (NATT > 1 && pse_fork(pse_and(a.t0 == attempts.back().t0, a.suggested <= mn))) pse_reach("forced");
            pse_stop();
        }
        v1    = v0;
        new_h = sym("suggested", int(attempts.size()), 20);
        pse_assume(new_h >= -1);
        attempts.push_back({t0, t1, new_h});
    }
};

void pse_main()
{
    int sk = pse_choice("simulator", 2);
    ScalarSignal x("x"), u("u");
    Submodel top(nullptr, "top");
    Integrator in(0.0, &top, "in");
    in.connect({u}, {x});
    auto cb = [&](Block&, double) { u = 1.0; };
    AnyStep st;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 0) sim = std::make_unique<Simulator>(top, cb, &st);
    else sim = std::make_unique<FastSimulator>(top, cb, &st);
    static const double starts[] = {0.1, 3, -2.3, 1e3, 0, 0.7, -1e3, 5.1, 17.9, 1e5};
    double t  = starts[pse_choice("start", NSTARTS)];
    double tt = t + (pse_choice("length", 2) ? 0.7 : 2);
    double mn = pse_double_in("min", 1.0 / 1024, 1), mx = 1.5;
    st.tt = tt, st.mn = mn;
    sim->init(t);
    sim->run(tt, mn, mx);
    auto& b = attempts.back();
    pse_assert(b.t1 == tt, "the run ends at the requested time");
    if (attempts.size() > 1) pse_reach("clipped");
}

//@ property C07
//@ theory real
//@ modes debug release
//@ reach scalar array initial interpolated latest pruned
//@ bounds NSTEPS completed steps (quick 5, thorough 7; arrays one less) at arbitrary increasing times (gaps 1/64..16), lifespan in [1/16,32], any delay in [0,lifespan] at the last step (0 or the lifespan at the earlier ones), input values in [-100,100], scalars and arrays of length 2, plain simulator
//@ assume rounding is outside the REAL theory: the interpolation is compared up to 1e-6 relative to the sample distance
//@ quick -DNSTEPS=5
//@ thorough -DNSTEPS=7
#include "common.hpp"
#include "src/block/extra/delay.hpp"
#include "src/solver/simulator.hpp"
using namespace pooya;

template<typename T, typename Sig>
static void run(Sig in, Sig ini, Sig out, int n, int nsteps)
{
    ScalarSignal del("del");
    double lifespan = pse_double_in("lifespan", 0.0625, 32);
    DelayT<T> d(lifespan);
    d.connect({{"delay", del}, {"in", in}, {"initial", ini}}, {out});
    std::vector<double> ts;
    std::vector<Array> xs;
    Array cur(n), iv(n);
    double delay = 0;
    bool early   = pse_choice("early", 2) == 1; // the delay at the steps before the last one
    Simulator sim(d,
                  [&](Block&, double)
                  {
                      del = delay;
                      if constexpr (std::is_same_v<T, double>)
                      {
                          in  = cur[0];
                          ini = iv[0];
                      }
                      else
                      {
                          in  = cur;
                          ini = iv;
                      }
                  });
    for (int k = 0; k <= nsteps; k++)
    {
        double t = k == 0 ? pse_double_in("t", -8, 8) : ts.back() + pse_double_in("dt", 1.0 / 64, 16);
        delay    = early ? lifespan : 0;
        if (k == nsteps)
        {
            delay = pse_double_in("delay", 0, 32);
            pse_assume(delay <= lifespan);
        }
        for (int i = 0; i < n; i++)
        {
            cur[i] = sym("x", k);
            iv[i]  = sym("iv", k);
        }
        if (k == 0) sim.init(t);
        else sim.run(t);
        pse_assert(out->assigned(), "delay output assigned");
        Array o(n);
        if constexpr (std::is_same_v<T, double>) o[0] = out->get_value();
        else o = out->get_value();
        double look = t - delay;
        if (ts.empty() || pse_fork(look <= ts[0]))
        {
            pse_assert(eq(o, iv), "the initial value while nothing is recorded at the looked-up time");
            pse_reach("initial");
        }
        else if (pse_fork(look >= ts.back()))
        {
            pse_assert(eq(o, xs.back()), "the latest value when the looked-up time is past the last step");
            pse_reach("latest");
        }
        else
        {
            std::size_t j = 1;
            while (!pse_fork(look <= ts[j])) j++;
            // (o - x[j-1]) * (t[j] - t[j-1]) == (x[j] - x[j-1]) * (look - t[j-1])
            bool ok = true;
            for (int i = 0; i < n; i++)
            {
                double expect = xs[j - 1][i] + (xs[j][i] - xs[j - 1][i]) * (look - ts[j - 1]) / (ts[j] - ts[j - 1]);
                ok            = pse_and(ok, eq(o[i], expect));
            }
            pse_assert(ok, "linear interpolation between the recorded steps");
            pse_reach("interpolated");
            if (pse_fork(ts[0] < ts.back() - lifespan)) pse_reach("pruned");
        }
        ts.push_back(t);
        xs.push_back(cur);
    }
}

void pse_main()
{
    if (pse_choice("kind", 2) == 0)
    {
        run<double>(ScalarSignal("in"), ScalarSignal("ini"), ScalarSignal("out"), 1, NSTEPS);
        pse_reach("scalar");
    }
    else
    {
        run<Array>(ArraySignal(2, "in"), ArraySignal(2, "ini"), ArraySignal(2, "out"), 2, NSTEPS - 1);
        pse_reach("array");
    }
}

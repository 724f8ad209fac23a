//@ property C07
//@ theory real
//@ modes debug release
//@ reach initial interpolated latest scalar array
//@ bounds larger instances: 24 steps one unit apart with a lifespan of 8 or 40 steps with a lifespan of 64 (nothing is pruned), the delay the lifespan, 0 or changing at the earlier steps and any value up to the lifespan at the last step (its window symbolic), all inputs symbolic; scalars and arrays of length 9
#include "common.hpp"
#include "src/block/extra/delay.hpp"
#include "src/solver/simulator.hpp"
using namespace pooya;

template<typename T, typename Sig>
static void run(Sig in, Sig ini, Sig out, int n, int nst)
{
    const int life = nst > 24 ? 64 : 8;
    ScalarSignal del("del");
    DelayT<T> d(life);
    d.connect({{"delay", del}, {"in", in}, {"initial", ini}}, {out});
    int pattern = pse_choice("pattern", 3);
    std::vector<Array> xs;
    Array iv = sym_array("iv", n);
    double delay = 0;
    Simulator sim(d,
                  [&](Block&, double)
                  {
                      del = delay;
                      in  = unarr<T>(xs.back());
                      ini = unarr<T>(iv);
                  });
    for (int k = 0; k <= nst; k++)
    {
        // the looked-up instant is look
        double look;
        Array expect;
        delay = k == nst ? pse_double_in("delay", 0, life) : pattern == 0 ? life : pattern == 1 ? 0 : (k * 5) % (life + 1);
        xs.push_back(sym_array(nm("x", k).c_str(), n));
        if (k == 0) sim.init(0);
        else sim.run(k);
        pse_assert(out->assigned(), "delay output assigned");
        Array o = arr(out->get_value());
        look    = k - delay;
        if (k == 0 || pse_fork(look <= 0))
        {
            expect = iv;
            pse_reach("initial");
        }
        else if (pse_fork(look >= k - 1))
        {
            expect = xs[k - 1];
            pse_reach("latest");
        }
        else
        {
            int j = 0;
            while (j + 1 < k && !pse_fork(look < j + 1)) j++;
            expect = xs[j] + (look - j) * (xs[j + 1] - xs[j]);
            if (k == nst) pse_reach("interpolated");
        }
        pse_assert(eq(o, expect), "the input the delay ago");
    }
}

void pse_main()
{
    static const int steps[] = {6, 24, 40};
    int nst = steps[pse_choice("steps", 3)];
    if (pse_choice("kind", 2) == 0)
    {
        run<double>(ScalarSignal("in"), ScalarSignal("ini"), ScalarSignal("out"), 1, nst);
        pse_reach("scalar");
    }
    else
    {
        run<Array>(ArraySignal(9, "in"), ArraySignal(9, "ini"), ArraySignal(9, "out"), 9, nst);
        pse_reach("array");
    }
}

//@ property C14
//@ theory real
//@ modes debug release
//@ reach memories delay derivative plain reuse fast
//@ bounds larger instances: a delay, a derivative and 4 memories beside an integrator, 20 runs of 1/4; one copy is stepped only, the other is evaluated 9 further times in every step with other states (symbolic every fifth run, given otherwise) at and after its start; symbolic inputs; all simulators
#include "models.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
using namespace pooya;

struct Chain4
{
    Submodel top{nullptr, "top"};
    ScalarSignal x{"x"}, u{"u"}, d{"d"}, e{"e"}, lag{"lag"}, ini{"ini"};
    std::vector<ScalarSignal> m;
    Integrator in;
    Delay del;
    Derivative der;
    std::vector<std::unique_ptr<Memory>> mem;
    explicit Chain4(double x0) : in(x0, &top, "in"), del(2.0, &top, "del"), der(0.0, &top, "der")
    {
        for (int k = 0; k < 4; k++)
        {
            m.push_back(ScalarSignal(nm("m", k)));
            mem.push_back(std::make_unique<Memory>(double(k), &top, nm("mem", k)));
            mem[k]->connect({k ? m[k - 1] : x}, {m[k]});
        }
        in.connect({u}, {x});
        del.connect({{"delay", lag}, {"in", x}, {"initial", ini}}, {d});
        der.connect({x}, {e});
    }
    void read(std::vector<double>& v)
    {
        v = {x->get_value(), d->get_value(), e->get_value()};
        for (auto& s : m) v.push_back(s->get_value());
    }
};

struct Trying : StepperBase
{
    bool trials;
    int attempts{0};
    double probe{0};
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        double h = t1 - t0;
        Array k  = cb(t0, v0);
        v1       = v0 + h * k;
        new_h    = h;
        if (!trials) return;
        for (int i = 0; i < 9; i++) cb(t0 + i * h / 4, Array(v0 + probe * (i + 1)));
    }
};

void pse_main()
{
    constexpr int NR = 20;
    int sk = pse_choice("simulator", 3);
    double x0 = sym("x0"), lag = 0.6;
    Chain4 A(x0), B(x0);
    Trying ta, tb;
    ta.trials = false, tb.trials = true;
    double u[NR + 1];
    for (int r = 0; r <= NR; r++) u[r] = sym(nm("u", r).c_str());
    int now = 0;
    auto input = [&](Chain4& m)
    {
        return [&](Block&, double t)
        {
            m.u   = u[now] + t;
            m.lag = lag;
            m.ini = -1.5;
        };
    };
    auto make = [&](Chain4& m, StepperBase* st) -> std::unique_ptr<SimulatorBase>
    {
        if (sk == 2) return std::make_unique<FastSimulator>(m.top, input(m), st);
        return std::make_unique<Simulator>(m.top, input(m), st, sk == 1);
    };
    auto a = make(A, &ta), b = make(B, &tb);
    for (int r = 0; r <= NR; r++)
    {
        now      = r;
        tb.probe = r % 5 == 0 ? sym(nm("probe", r).c_str()) : 1.5 * r - 7;
        if (r == 0) a->init(0), b->init(0);
        else a->run(0.25 * r, 1e-3, 1), b->run(0.25 * r, 1e-3, 1);
        std::vector<double> x, y;
        A.read(x), B.read(y);
        bool ok = true;
        for (std::size_t k = 0; k < x.size(); k++) ok = pse_and(ok, eq(x[k], y[k]));
        pse_assert(ok, "trial evaluations leave no mark");
    }
    static const char* sims[] = {"plain", "reuse", "fast"};
    pse_reach("memories"), pse_reach("delay"), pse_reach("derivative"), pse_reach(sims[sk]);
}

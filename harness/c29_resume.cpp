//@ property C29
//@ theory real
//@ modes debug release
//@ reach feedback mixed discrete triggered bus plain reuse fast init first second later resumed inputs activation retried
//@ bounds five models (see models.hpp) with a user-defined source, created first or last; an error raised in one of the first NCALLS (quick 8, thorough 16) calls of the input callback or of the source; initialization at any time and 2 runs of length 1 under a stepper that accepts or halves each step as it likes, at most HALVE+2 attempts per run (quick 1, thorough 2); the operation that failed is repeated once, or twice since the error comes back (quick: for the first two calls); symbolic initial values and inputs, all simulators
//@ quick -DNCALLS=8 -DTWICE=2 -DHALVE=1
//@ thorough -DNCALLS=16 -DTWICE=16 -DHALVE=2
#include "models.hpp"
using namespace pooya;

// Euler steps; says of each one whether it is accepted, and how long the next one should be
struct Script : StepperBase
{
    int left{0};
    bool free{false};
    void step(StepperCallback f, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        double h = t1 - t0;
        v1       = v0 + h * f(t0, v0);
        new_h    = free && left-- > 0 && pse_choice("halve", 2) ? h / 2 : h;
    }
};

// the times of all completed steps
class Clock : public Leaf
{
public:
    std::vector<double> done;
    explicit Clock(Submodel* p) : Leaf(p, "clock", 0, 0) {}
    void post_step(double t) override { done.push_back(t); }
};

struct Rig
{
    std::unique_ptr<Model> m;
    Script st;
    ScalarSignal e{"e"};
    std::unique_ptr<Submodel> sub;
    std::unique_ptr<Source> so;
    std::unique_ptr<Clock> clock;
    std::unique_ptr<SimulatorBase> sim;
    std::function<void(int)> call;
    Rig(int kind, const Params& P, int sk, bool first) : m(make_model(kind, P))
    {
        sub = std::make_unique<Submodel>(&m->top, "inner");
        if (first) source();
        for (int i = 0; i < m->size(); i++) m->make(i, &m->top);
        if (!first) source();
        clock = std::make_unique<Clock>(&m->top);
        clock->connect({}, {});
        auto cb = [this](Block&, double t)
        {
            if (call) call(0);
            m->inputs(t);
        };
        StepperBase* stp = m->has_states() ? &st : nullptr;
        if (sk == 2) sim = std::make_unique<FastSimulator>(m->top, cb, stp);
        else sim = std::make_unique<Simulator>(m->top, cb, stp, sk == 1);
    }
    void source()
    {
        so = std::make_unique<Source>(
            [this](double t)
            {
                if (call) call(1);
                return 2 * t;
            },
            sub.get(), "so");
        so->connect({}, {e});
    }
    void read(std::vector<double>& v)
    {
        m->read(v);
        v.push_back(e);
    }
};

void pse_main()
{
    static const int kinds[] = {0, 1, 2, 3, 5};
    Params P;
    int kind   = kinds[pse_choice("model", 5)];
    int sk     = pse_choice("simulator", 3);
    int where  = pse_choice("where", 2);
    bool first = where == 1 && pse_choice("first", 2);
    int at     = pse_choice("at", NCALLS);
    int times  = at < TWICE ? 1 + pse_choice("times", 2) : 1;
    Rig A(kind, P, sk, first), B(kind, P, sk, first);
    A.st.free   = true;
    int calls   = 0, thrown = 0;
    A.call      = [&](int w)
    {
        if (w != where) return;
        if (calls++ < at || thrown >= times) return;
        thrown++;
        throw std::runtime_error("user error");
    };
    double t0 = kind == 3 ? 0 : sym("t0", 4);
    for (int r = 0; r <= 2; r++)
    {
        double t  = t0 + r;
        A.st.left = HALVE;
        for (int n = 0;; n++)
        {
            bool expect      = thrown < times;
            int before       = thrown;
            std::size_t done = A.clock->done.size();
            bool err         = raises(
                [&]
                {
                    if (r == 0 && n == 0) A.sim->init(t);
                    else A.sim->run(t, 1.0 / 64, 1);
                });
            pse_assert(err == (thrown > before), "an error of user code is passed on");
            pse_assert(expect || !err, "no other error");
            if (!err) break;
            if (n > 2) pse_stop();
            pse_reach(r == 0 ? "init" : r == 1 ? "first" : "second");
            if (r && A.clock->done.size() > done) pse_reach("later");
            if (n) pse_reach("retried");
            pse_reach(where ? "activation" : "inputs");
        }
        auto& d = A.clock->done;
        pse_assert(!d.empty() && eq(d.back(), t), "the simulation is at the requested time");
        for (std::size_t k = 1; k < d.size(); k++) pse_assert(d[k] > d[k - 1] + 1e-9, "no step is completed twice");
    }
    // the steps that were completed, without any interruption
    for (std::size_t k = 0; k < A.clock->done.size(); k++)
    {
        if (k == 0) B.sim->init(A.clock->done[k]);
        else B.sim->run(A.clock->done[k], 1.0 / 64, 100);
    }
    std::vector<double> x, y;
    A.read(x), B.read(y);
    compare(x, y, "the results are those of the completed steps");
    if (thrown) pse_reach("resumed");
    pse_reach(kind == 0 ? "feedback" : kind == 1 ? "mixed" : kind == 2 ? "discrete" : kind == 3 ? "triggered" : "bus");
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
}

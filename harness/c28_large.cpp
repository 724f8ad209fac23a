//@ property C28
//@ theory real
//@ modes debug release
//@ reach deep wide plain reuse fast
//@ bounds larger instances: 12 user-defined leaves, each nested one deeper than the one before or all in one submodel, beside 3 integrators; 3 runs of given length, each of 4 sub-steps by a stepper that suggests a quarter; symbolic start and states; all simulators
#include "models.hpp"
using namespace pooya;

constexpr int N = 12;
struct Log
{
    int pre{0}, act{0}, post{0};
    double tpre{0}, tact{0}, tpost{0};
};
static Log logs[N];

class Probe : public Leaf
{
public:
    int id;
    ScalarSignal in, out;
    Probe(Submodel* p, int k) : Leaf(p, nm("p", k), 1, 1), id(k) {}
    bool connect(const Bus& i, const Bus& o) override
    {
        if (!Leaf::connect(i, o)) return false;
        in.reset(input(0)), out.reset(output(0));
        return true;
    }
    void pre_step(double t) override
    {
        logs[id].pre++, logs[id].tpre = t;
    }
    void activation_function(double t) override
    {
        logs[id].act++, logs[id].tact = t;
        out = in + 1;
    }
    void post_step(double t) override
    {
        logs[id].post++, logs[id].tpost = t;
        pse_assert(out->assigned() && eq(out, in + 1), "the signals have their values at the end of the step");
        pse_assert(logs[id].act > 0 && eq(logs[id].tact, t), "the last evaluation was at the end of the step");
    }
};

struct Quarter : StepperBase
{
    int attempts{0};
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        attempts++;
        Array k = cb(t0, v0);
        v1      = v0 + (t1 - t0) * k;
        new_h   = 0.25;
    }
};

void pse_main()
{
    bool deep = pse_choice("deep", 2), rev = pse_choice("reverse", 2);
    int sk    = pse_choice("simulator", 3);
    Submodel top(nullptr, "top");
    std::vector<std::unique_ptr<Submodel>> subs;
    for (int k = 0; k < N; k++) subs.push_back(std::make_unique<Submodel>(k ? subs.back().get() : &top, nm("s", k)));
    std::vector<ScalarSignal> o, x;
    for (int k = 0; k < N; k++) o.push_back(ScalarSignal(nm("o", k)));
    ScalarSignal u("u");
    std::vector<std::unique_ptr<Integrator>> in;
    for (int k = 0; k < 3; k++)
    {
        x.push_back(ScalarSignal(nm("x", k)));
        in.push_back(std::make_unique<Integrator>(sym("x0", k), &top, nm("in", k)));
        in[k]->connect({u}, {x[k]});
    }
    std::vector<std::unique_ptr<Probe>> p(N);
    for (int q = 0; q < N; q++)
    {
        int k = rev ? N - 1 - q : q;
        p[k]  = std::make_unique<Probe>(deep ? subs[k].get() : subs[3].get(), k);
        p[k]->connect({k ? o[k - 1] : x[0]}, {o[k]});
    }
    Quarter st;
    auto cb = [&](Block&, double) { u = 1; };
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb, &st);
    else sim = std::make_unique<Simulator>(top, cb, &st, sk == 1);
    double t = 0;
    sim->init(t);
    for (int k = 0; k < N; k++) pse_assert(logs[k].post == 1 && logs[k].act >= 1 && logs[k].tpost == 0, "the initialization is one step for every leaf");
    for (int r = 0; r < 3; r++)
    {
        for (auto& l : logs) l = Log();
        st.attempts = 0;
        t           = t + 1;
        sim->run(t, 1.0 / 8, 2);
        for (int k = 0; k < N; k++)
        {
            pse_assert(st.attempts == 5 && logs[k].post == 4 && logs[k].pre == 5, "every leaf sees the beginning of every attempt and the end of every sub-step");
            pse_assert(logs[k].act == logs[0].act && logs[k].act >= 4, "every leaf is evaluated as often as the others");
            pse_assert(logs[k].tpost == t, "the last step ends at the requested time");
        }
    }
    static const char* sims[] = {"plain", "reuse", "fast"};
    pse_reach(deep ? "deep" : "wide"), pse_reach(sims[sk]);
}

//@ property C28
//@ theory real
//@ modes debug release
//@ reach init run repeated stateless states plain reuse fast redone substeps
//@ bounds four user-defined leaves at nesting depths 1 to 3 in a chain, in two creation orders, with and without an integrator; a stepper with arbitrary suggestions and results that evaluates 0 to 2 times per attempt, NATT attempts in all (quick 5, thorough 7); initialization at any time and NRUNS runs (quick 2, thorough 3) of arbitrary length, the last one possibly repeated; all simulators
//@ quick -DNRUNS=2 -DNATT=5
//@ thorough -DNRUNS=3 -DNATT=7
#include "models.hpp"
using namespace pooya;

enum Kind { Pre, Act, Post };
struct Event
{
    Kind kind;
    int who;
    double t;
};
static std::vector<Event> events;

class Probe : public Leaf
{
public:
    int id;
    double now{0};
    bool active{false};
    ScalarSignal in, out;
    Probe(Submodel* p, int k) : Leaf(p, nm("p", k), 1, 1), id(k) {}
    bool connect(const Bus& i, const Bus& o) override
    {
        if (!Leaf::connect(i, o)) return false;
        in.reset(input(0)), out.reset(output(0));
        return true;
    }
    void pre_step(double t) override { events.push_back({Pre, id, t}); }
    void post_step(double t) override
    {
        events.push_back({Post, id, t});
        pse_assert(in->assigned() && out->assigned(), "the signals have their values at the end of the step");
        if (out->assigned() && in->assigned()) pse_assert(eq(out, in + t), "the signals have their values at the end of the step");
    }
    void activation_function(double t) override
    {
        events.push_back({Act, id, t});
        out = in + t;
    }
};

static int total = 0;
struct AnyStep : StepperBase
{
    struct Attempt
    {
        double t0, t1;
        std::vector<double> evals;
    };
    std::vector<Attempt> attempts;
    int evals{0};
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        if (++total > NATT) pse_stop();
        attempts.push_back({t0, t1, {}});
        for (int i = 0; i < evals; i++)
        {
            double t = i ? 0.5 * (t0 + t1) : t0;
            attempts.back().evals.push_back(t);
            cb(t, i ? sym_array("trial", int(v0.rows())) : v0);
        }
        v1    = sym_array("r", int(v0.rows()));
        new_h = sym("suggested", 4);
    }
};

void pse_main()
{
    bool states  = pse_choice("states", 2);
    int sk       = pse_choice("simulator", 3);
    bool reverse = pse_choice("reverse", 2);
    AnyStep st;
    st.evals = states ? pse_choice("evaluations", 3) : 0;
    Submodel top(nullptr, "top"), a(&top, "a"), b(&a, "b");
    Submodel* par[4] = {&a, &top, &b, &a};
    ScalarSignal u("u"), x("x"), o[4];
    std::unique_ptr<Probe> p[4];
    std::unique_ptr<Integrator> in;
    for (int j = 0; j < 5; j++)
    {
        int k = reverse ? 4 - j : j;
        if (k == 4 && states)
        {
            in = std::make_unique<Integrator>(sym("x0"), &b, "in");
            in->connect({o[1]}, {x});
        }
        if (k == 4) continue;
        p[k] = std::make_unique<Probe>(par[k], k);
        p[k]->connect({k ? o[k - 1] : states ? x : u}, {o[k]});
    }
    double v = sym("u");
    auto cb  = [&](Block&, double) { if (!states) u = v; };
    std::unique_ptr<SimulatorBase> sim;
    StepperBase* stp = states ? &st : nullptr;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb, stp);
    else sim = std::make_unique<Simulator>(top, cb, stp, sk == 1);

    double t = sym("t0", 4);
    for (int r = 0; r <= NRUNS; r++)
    {
        events.clear();
        st.attempts.clear();
        double before = t;
        bool again    = r == NRUNS && pse_choice("again", 2);
        if (r && !again) t = t + pse_double_in("run", 1.0 / 64, 2);
        if (r == 0) sim->init(t);
        else sim->run(t, 1.0 / 16, 1);
        // what is due
        std::vector<std::pair<Kind, double>> due;
        if (r == 0 || again || !states) due = {{Pre, t}, {Act, t}, {Post, t}};
        else
        {
            pse_assert(!st.attempts.empty(), "a step is made");
            for (std::size_t i = 0; i < st.attempts.size(); i++)
            {
                auto& at = st.attempts[i];
                due.push_back({Pre, at.t0});
                for (double e : at.evals) due.push_back({Act, e});
                bool last = i + 1 == st.attempts.size();
                bool redo = !last && pse_fork(pse_same(st.attempts[i + 1].t0, at.t0));
                if (redo) pse_reach("redone");
                else
                {
                    due.push_back({Act, at.t1});
                    due.push_back({Post, at.t1});
                    if (!last) pse_reach("substeps");
                }
            }
            pse_assert(eq(due.front().second, before) && eq(due.back().second, t), "the steps lead from the previous time to the requested one");
        }
        // every leaf exactly once per due callback, in turn
        bool ok = events.size() == 4 * due.size();
        pse_assert(ok, "as many callbacks as are due");
        if (!ok) return;
        for (std::size_t g = 0; g < due.size(); g++)
        {
            int seen = 0;
            for (int k = 0; k < 4; k++)
            {
                auto& e = events[4 * g + k];
                pse_assert(e.kind == due[g].first, "the callbacks come in order: the start of the step, evaluations, its end");
                pse_assert(eq(e.t, due[g].second), "with the time they are due for");
                seen |= 1 << e.who;
            }
            pse_assert(seen == 15, "every block gets every callback once");
        }
        pse_reach(r == 0 ? "init" : again ? "repeated" : "run");
    }
    pse_reach(states ? "states" : "stateless");
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
}

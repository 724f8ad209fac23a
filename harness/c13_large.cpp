//@ property C13
//@ theory real
//@ modes debug release
//@ reach maximum suggested minimum repeated halved
//@ bounds larger instances: a run of 50 sub-steps at the maximum, or 100 at the minimum, or at given suggestions (all multiples of 1/64), with and without repeated attempts, or an attempt repeated 20 times with half the length, in one run or two; 12 states; the state advanced by results of which every fourth is symbolic; plain and fast simulator
#include "models.hpp"
using namespace pooya;

struct Attempt
{
    double t0, t1;
    Array v0, v1;
};

struct Given : StepperBase
{
    std::vector<Attempt> at;
    int mode;
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        int k = int(at.size());
        if (k > 300) pse_stop();
        cb(t0, v0);
        v1 = v0;
        v1[k % int(v0.rows())] = k % 4 ? 1.5 * k : pse_double_in("r", -100, 100);
        double h = t1 - t0;
        if (mode == 0) new_h = h > 1 ? 1.0 / 32 : 100; // the first attempt is the whole run
        if (mode == 1) new_h = 0;
        if (mode == 2) new_h = (1 + k % 3) / 64.0;
        if (mode == 3) new_h = k % 2 ? h : h / 2; // every other attempt is to be repeated
        if (mode == 4) new_h = k < 20 ? h / 2 : 100;
        at.push_back({t0, t1, v0, v1});
    }
};

class Recorder : public Leaf
{
public:
    std::vector<double> times;
    explicit Recorder(Submodel* p) : Leaf(p, "rec", 1, 0) {}
    void post_step(double t) override { times.push_back(t); }
};

void pse_main()
{
    constexpr int N = 12;
    int mode = pse_choice("mode", 5), sk = pse_choice("simulator", 2), runs = 1 + pse_choice("runs", 2);
    Submodel top(nullptr, "top");
    std::vector<ScalarSignal> x;
    std::vector<std::unique_ptr<Integrator>> in;
    ScalarSignal u("u");
    for (int k = 0; k < N; k++)
    {
        x.push_back(ScalarSignal(nm("x", k)));
        in.push_back(std::make_unique<Integrator>(double(k), &top, nm("in", k)));
        in[k]->connect({u}, {x[k]});
    }
    Recorder rec(&top);
    rec.connect({x[0]}, {});
    Given st;
    st.mode = mode;
    auto cb = [&](Block&, double t) { u = t; };
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 0) sim = std::make_unique<Simulator>(top, cb, &st);
    else sim = std::make_unique<FastSimulator>(top, cb, &st);
    sim->init(0);
    const double mn = mode == 4 ? 1.0 / (1 << 22) : 1.0 / 64, mx = mode == 0 ? 1.0 / 32 : mode == 1 || mode == 4 ? 1 : 1.0 / 8;
    double end = 0, at = 0;
    Array v;
    std::size_t attempt = 0;
    for (int r = 0; r < runs; r++)
    {
        rec.times.clear();
        end = end + (mode == 4 ? 1.0 : 50.0 / 32);
        sim->run(end, mn, mx);
        std::size_t done = 0;
        double suggested = 0;
        bool first = true;
        for (; attempt < st.at.size(); attempt++)
        {
            auto& a = st.at[attempt];
            pse_assert(a.t0 == at && a.t1 > a.t0 && a.t1 <= end, "a sub-step starts where the preceding one ended and ends within the run");
            if (v.rows()) pse_assert(same(a.v0, v), "and from its state");
            double h = a.t1 - a.t0;
            if (!first)
            {
                double lim = suggested < mn ? mn : suggested > mx ? mx : suggested;
                pse_assert(a.t1 == (a.t0 + lim > end ? end : a.t0 + lim), "its length is the suggested one within the limits and the run");
            }
            if (!first) pse_assert(h <= mx, "not longer than the maximum");
            suggested = mode == 0 ? (h > 1 ? 1.0 / 32 : 100) : mode == 1 ? 0 : mode == 2 ? (1 + attempt % 3) / 64.0 : mode == 4 ? (attempt < 20 ? h / 2 : 100) : attempt % 2 ? h : h / 2;
            first     = false;
            if (suggested < h && h > mn)
            {
                v = a.v0;
                pse_reach("repeated");
                continue;
            }
            pse_assert(done < rec.times.size() && rec.times[done] == a.t1, "every completed sub-step is committed once");
            done++;
            at = a.t1;
            v  = a.v1;
        }
        pse_assert(at == end && done == rec.times.size(), "the run ends at the requested time, with no further steps");
        if (mode == 0) pse_assert(done == 50, "fifty sub-steps at the maximum");
        bool ok = true; // the states hold the last result, each its own
        for (int k = 0; k < N; k++)
        {
            bool found = false;
            for (int j = 0; j < N; j++) found = pse_or(found, pse_same(v[j], x[k]->get_value()));
            ok = pse_and(ok, found);
        }
        pse_assert(ok, "the committed states are the results of the last sub-step");
    }
    pse_reach(mode == 0 ? "maximum" : mode == 1 ? "minimum" : mode == 4 ? "halved" : "suggested");
}

//@ property C13
//@ theory real
//@ modes debug release
//@ reach accepted repeated minimum maximum clipped second
//@ bounds a scalar and an array state, a stepper with arbitrary suggestions (any real in [-1,20], also non-positive ones) and arbitrary results; arbitrary start in [-8,8], run lengths in [1/64,4], minimum in [1/64,1] and maximum above it up to 8; NATT attempts (quick 5, thorough 8) over one or two runs, paths with more attempts are cut off; plain and fast simulator
//@ quick -DNATT=5
//@ thorough -DNATT=8
#include "models.hpp"
using namespace pooya;

struct Attempt
{
    double t0, t1, h_suggested;
    Array v0, v1;
    bool committed{false};
};
static std::vector<Attempt> attempts;
static int total = 0;

struct AnyStep : StepperBase
{
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        if (++total > NATT) pse_stop();
        cb(t0, v0);
        v1    = sym_array("r", int(v0.rows()));
        new_h = sym("suggested", 20);
        pse_assume(new_h >= -1);
        attempts.push_back({t0, t1, new_h, v0, v1});
    }
};

// sees every completed step
class Recorder : public Leaf
{
public:
    std::vector<double> times;
    ScalarSignal x;
    std::vector<double> xs;
    explicit Recorder(Submodel* p) : Leaf(p, "rec", 1, 0) {}
    bool connect(const Bus& i, const Bus& o) override
    {
        if (!Leaf::connect(i, o)) return false;
        x.reset(input(0));
        return true;
    }
    void post_step(double t) override
    {
        times.push_back(t);
        xs.push_back(x->get_value());
        if (!attempts.empty())
        {
            auto& a = attempts.back();
            pse_assert(!a.committed, "an attempt is completed at most once");
            pse_assert(pse_same(t, a.t1), "a completed sub-step ends where it was attempted to end");
            a.committed = true;
        }
    }
};

void pse_main()
{
    int sk    = pse_choice("simulator", 2);
    bool two  = pse_choice("runs", 2) == 1;
    double x0 = sym("x0");
    Array a0  = sym_array("a0", 2);
    ScalarSignal x("x"), u("u");
    ArraySignal xa(2, "xa"), ua(2, "ua");
    Submodel top(nullptr, "top");
    Integrator in(x0, &top, "in");
    IntegratorA ina(a0, &top, "ina");
    Recorder rec(&top);
    in.connect({u}, {x});
    ina.connect({ua}, {xa});
    rec.connect({x}, {});
    auto cb = [&](Block&, double t)
    {
        u  = t;
        ua = Array::Constant(2, 1.0);
    };
    AnyStep st;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 0) sim = std::make_unique<Simulator>(top, cb, &st);
    else sim = std::make_unique<FastSimulator>(top, cb, &st);
    double t = sym("t0", 8);
    sim->init(t);
    pse_assert(rec.times.size() == 1 && pse_same(rec.times[0], t), "the initialization is one completed step");
    Array v; // the state in the stepper's order
    double xprev = x0;
    bool first   = true;
    for (int r = 0; r < (two ? 2 : 1); r++)
    {
        double mn = pse_double_in("min", 1.0 / 64, 1), mx = pse_double_in("max", 1.0 / 64, 8);
        pse_assume(mx > mn);
        double tt = t + pse_double_in("run", 1.0 / 64, 4);
        attempts.clear();
        rec.times.clear();
        rec.xs.clear();
        sim->run(tt, mn, mx);
        pse_assert(!attempts.empty() && !rec.times.empty(), "at least one sub-step");
        if (attempts.empty() || rec.times.empty()) return;
        pse_assert(pse_same(rec.times.back(), tt), "the run ends at the requested time");
        double at = t; // end of the last completed sub-step
        std::size_t c = 0;
        for (std::size_t i = 0; i < attempts.size(); i++)
        {
            auto& a   = attempts[i];
            bool last = i + 1 == attempts.size();
            double h  = a.t1 - a.t0;
            pse_assert(pse_same(a.t0, at), "a sub-step starts where the preceding one ended");
            pse_assert(pse_and(a.t1 > a.t0, a.t1 <= tt), "a sub-step has a positive length and ends by the requested time");
            if (!first) pse_assert(same(a.v0, v), "a sub-step starts from the state the preceding one ended with");
            if (i > 0)
            {
                auto& b      = attempts[i - 1];
                double limit = pse_ite(b.h_suggested < mn, mn, pse_ite(b.h_suggested > mx, mx, b.h_suggested));
                pse_assert(eq(a.t1, pse_ite(a.t0 + limit > tt, tt, a.t0 + limit)), "the length is the suggested one within the limits and the run");
                pse_assert(pse_or(h >= mn - TOL, pse_same(a.t1, tt)), "not shorter than the minimum, except at the end");
                pse_assert(h <= mx + TOL, "not longer than the maximum");
                if (!b.committed) pse_assert(a.t1 < b.t1, "a repeated sub-step is shorter");
            }
            bool shorter = pse_and(a.h_suggested < h, h > mn);
            pse_assert(a.committed == pse_not(shorter), "a sub-step is repeated exactly if a shorter one is suggested and possible");
            if (first)
            {
                v     = a.v0;
                first = false;
            }
            if (a.committed)
            {
                pse_assert(c < rec.times.size() && pse_same(rec.times[c], a.t1), "every completed sub-step is committed once");
                // the value of the scalar state is one of the stepper's results
                if (c < rec.xs.size())
                {
                    bool found = false;
                    for (int k = 0; k < a.v1.rows(); k++) found = pse_or(found, pse_same(a.v1[k], rec.xs[c]));
                    pse_assert(found, "the committed state is the result of the sub-step");
                }
                c++;
                at = a.t1;
                v  = a.v1;
                pse_reach("accepted");
                if (!last) pse_reach("second");
            }
            else
            {
                pse_assert(!last, "the last attempt is completed");
                pse_reach("repeated");
            }
        }
        pse_assert(c == rec.times.size(), "nothing else is committed");
        pse_assert(pse_same(at, tt), "the sub-steps cover the whole run");
        if (attempts.size() > 1)
        {
            auto& b = attempts[attempts.size() - 2];
            if (pse_fork(b.h_suggested < mn)) pse_reach("minimum");
            else if (pse_fork(b.h_suggested > mx)) pse_reach("maximum");
            if (pse_fork(attempts.back().t1 - attempts.back().t0 < mn)) pse_reach("clipped");
        }
        t = tt;
    }
}

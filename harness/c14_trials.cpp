//@ property C14
//@ theory real
//@ modes debug release
//@ reach rejected trials probed integrator triggered none
//@ bounds two copies of a model with a (triggered) integrator, memory, boolean memory, delay and derivative of its state, advanced by arbitrary results: one copy is only stepped, the other is evaluated additionally up to NTRIAL times per attempt (quick 2, thorough 3) with arbitrary states at chosen times (before, inside and after the step) and has one attempt per run repeated; an evaluation at the start of the step or inside it, with an arbitrary state, is compared, too; NRUNS runs (quick 3, thorough 4); symbolic states, inputs, triggers and results; plain, reusing and fast simulator
//@ quick -DNRUNS=3 -DNTRIAL=2
//@ thorough -DNRUNS=4 -DNTRIAL=3
#include "models.hpp"
using namespace pooya;

struct W
{
    double x0, m0, d0, ini, p, q;
    bool tr[NRUNS + 1], tx[NRUNS + 1], b0;
    double r[2 * NRUNS + 2]; // results of the completed sub-steps
};

// sees every completed step and the values at its end
class Recorder : public Leaf
{
public:
    std::vector<double> times, xs;
    ScalarSignal x;
    explicit Recorder(Submodel* p) : Leaf(p, "rec", 1, 0) {}
    bool connect(const Bus& i, const Bus& o) override
    {
        if (!Leaf::connect(i, o)) return false;
        x.reset(input(0));
        return true;
    }
    void post_step(double t) override
    {
        times.push_back(t);
        xs.push_back(x->get_value());
    }
};

struct Copy
{
    Submodel top{nullptr, "top"};
    ScalarSignal x{"x"}, d{"d"}, m{"m"}, dl{"dl"}, dd{"dd"}, u{"u"}, delay{"delay"}, ini{"ini"};
    BoolSignal tr{"tr"}, mb{"mb"};
    std::unique_ptr<Block> in;
    Memory mem;
    MemoryB memb;
    Delay del;
    Derivative der;
    Add add;
    Recorder rec;
    Copy(const W& w, bool triggered)
        : mem(w.m0, &top, "mem"), memb(w.b0, &top, "memb"), del(4.0, &top, "del"), der(w.d0, &top, "der"), add(0.0, &top, "add"), rec(&top)
    {
        if (triggered)
        {
            in = std::make_unique<TriggeredIntegrator>(w.x0, &top, "in");
            in->connect({{"in", d}, {"trigger", tr}}, {x});
        }
        else
        {
            in = std::make_unique<Integrator>(w.x0, &top, "in");
            in->connect({d}, {x});
        }
        mem.connect({d}, {m});
        memb.connect({tr}, {mb});
        del.connect({{"in", x}, {"delay", delay}, {"initial", ini}}, {dl});
        der.connect({x}, {dd});
        add.connect({u, m, dl}, {d});
        rec.connect({x}, {});
    }
    std::vector<double> read() const
    {
        std::vector<double> o;
        for (auto* s : {&x, &d, &m, &dl, &dd, &u}) Model::val(o, *s);
        Model::val(o, mb);
        return o;
    }
};

static int done_a = 0, done_b = 0;

// what an evaluation shows within a step, by the start of the step
struct Probe
{
    Copy& c;
    double offset, state; // offset < 0: none
    std::vector<std::pair<double, std::vector<double>>> seen;
    void operator()(const StepperBase::StepperCallback& cb, double t0)
    {
        if (offset < 0) return;
        cb(t0 + offset, arr(state));
        if (seen.empty() || seen.back().first != t0) seen.emplace_back(t0, std::vector<double>());
        seen.back().second = c.read();
    }
};

struct Quiet : StepperBase
{
    const W& w;
    Probe& probe;
    Quiet(const W& w, Probe& p) : w(w), probe(p) {}
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        pse_assert(v0.rows() == 1, "one state");
        probe(cb, t0);
        v1    = arr(w.r[done_b++]);
        new_h = t1 - t0;
    }
};

struct Noisy : StepperBase
{
    const W& w;
    Probe& probe;
    int trials{0}, where{0};
    bool reject{false};
    Noisy(const W& w, Probe& p) : w(w), probe(p) {}
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        double h = t1 - t0;
        for (int i = 0; i < trials; i++)
        {
            static const double at[4][3] = {{0, 0.5, 1}, {1, 0, 0.25}, {0.75, 1.5, 0.125}, {0.25, 0.25, -0.25}};
            cb(t0 + h * at[where][i], sym_array("trial", 1, 50));
        }
        probe(cb, t0);
        if (reject && h > 0.25)
        {
            v1    = sym_array("rejected", 1, 50);
            new_h = 0.25;
        }
        else
        {
            v1    = arr(w.r[done_a++]);
            new_h = h;
        }
    }
};

void pse_main()
{
    W w;
    w.x0 = sym("x0"), w.m0 = sym("m0"), w.d0 = sym("d0"), w.ini = sym("ini"), w.p = sym("p"), w.q = sym("q", 10);
    w.b0 = pse_bool("b0");
    for (int i = 0; i <= NRUNS; i++)
    {
        w.tr[i] = pse_bool(nm("tr", i).c_str());
        w.tx[i] = pse_bool(nm("tx", i).c_str());
    }
    for (int i = 0; i < 2 * NRUNS + 2; i++) w.r[i] = sym("r", i);
    bool triggered = pse_choice("triggered", 2) == 1;
    int sk         = pse_choice("simulator", 3);
    Copy A(w, triggered), B(w, triggered);
    double delay = 0.375;
    auto inputs = [&](Copy& c, double t)
    {
        c.u     = w.p + w.q * t;
        c.delay = delay;
        c.ini   = w.ini;
        bool b  = w.tr[NRUNS];
        for (int i = NRUNS; i >= 0; i--)
        {
            if (t <= 0.5 * i) b = w.tx[i];
            if (t == 0.5 * i) b = w.tr[i];
        }
        c.tr = b;
    };
    auto cba = [&](Block&, double t) { inputs(A, t); };
    auto cbb = [&](Block&, double t) { inputs(B, t); };
    Probe pa{A, -1, sym("probe"), {}}, pb{B, -1, pa.state, {}};
    Noisy na(w, pa);
    Quiet qb(w, pb);
    done_a = done_b = 0;
    std::unique_ptr<SimulatorBase> sa, sb;
    if (sk == 2)
    {
        sa = std::make_unique<FastSimulator>(A.top, cba, &na);
        sb = std::make_unique<FastSimulator>(B.top, cbb, &qb);
    }
    else
    {
        sa = std::make_unique<Simulator>(A.top, cba, &na, sk == 1);
        sb = std::make_unique<Simulator>(B.top, cbb, &qb, sk == 1);
    }
    na.where = pse_choice("where", 4);
    static const double offsets[4] = {-1, 0, 0.125, 0.25};
    pa.offset = pb.offset = offsets[na.where];
    delay    = na.where % 2 ? 0.625 : 0.375; // 0.625: lookups cross a sample within a step
    sa->init(0);
    sb->init(0);
    compare(A.read(), B.read(), "same values after initialization");
    na.trials = pse_choice("trials", NTRIAL + 1);
    for (int k = 1; k <= NRUNS; k++)
    {
        double t  = 0.5 * k;
        na.reject = pse_choice("reject", 2) == 1;
        sa->run(t, 1e-3, 10);
        if (na.reject)
        {
            sb->run(t - 0.25, 1e-3, 10);
            pse_reach("rejected");
        }
        sb->run(t, 1e-3, 10);
        compare(A.read(), B.read(), "evaluations within a step do not influence later outputs");
        pse_assert(pa.seen.size() == pb.seen.size(), "the same steps");
        for (std::size_t i = 0; i < pa.seen.size() && i < pb.seen.size(); i++)
        {
            pse_assert(pa.seen[i].first == pb.seen[i].first, "the same starts of the steps");
            compare(pa.seen[i].second, pb.seen[i].second, "evaluations within a step do not influence later evaluations of it");
            pse_reach("probed");
        }
        pa.seen.clear(), pb.seen.clear();
    }
    pse_assert(done_a == done_b, "as many completed steps");
    pse_assert(A.rec.times.size() == B.rec.times.size(), "every completed step is committed once");
    if (A.rec.times.size() == B.rec.times.size())
        for (std::size_t i = 0; i < A.rec.times.size(); i++)
        {
            pse_assert(pse_same(A.rec.times[i], B.rec.times[i]), "commits at the ends of the completed steps");
            pse_assert(pse_same(A.rec.xs[i], B.rec.xs[i]), "commits with the values of the ends of the completed steps");
            if (i > 0) pse_assert(pse_same(A.rec.xs[i], w.r[i - 1]), "commits with the stepper's results");
        }
    pse_reach(na.trials ? "trials" : "none");
    pse_reach(triggered ? "triggered" : "integrator");
}

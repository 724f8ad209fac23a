//@ property C25
//@ theory real
//@ modes debug release
//@ reach init run repeated stateless states plain reuse fast euler rk4 any integrated
//@ bounds a model of 15 blocks (time functions, sources, algebraic blocks of all kinds, with and without states, nested or not, in two creation orders), external inputs with an arbitrary new value at every request, through the callback and through the model's own hook; initialization at any time in [-4,4] and NRUNS runs (quick 2, thorough 3) of arbitrary length in [1/64,2], possibly repeated at the same time; Euler, RK4 and a stepper evaluating at arbitrary instants with arbitrary results and step lengths (up to NATT attempts in all, quick 3, thorough 5); all simulators
//@ quick -DNRUNS=2 -DNATT=3
//@ thorough -DNRUNS=3 -DNATT=5
#include "models.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/sources.hpp"
using namespace pooya;

static int attempts = 0, requests = 0;
struct AnyStep : StepperBase
{
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        if (++attempts > NATT) pse_stop();
        cb(t0, v0);
        double f = sym("inner", 1);
        pse_assume(f >= 0);
        cb(t0 + 0.5 * f * (t1 - t0), sym_array("inner", int(v0.rows())));
        v1    = sym_array("r", int(v0.rows()));
        new_h = sym("suggested", 4);
    }
};

// what was supplied last
static double sup_t, sup_u, sup_w;
static Array sup_a;
static int sup_i, evaluations = 0, stale = 0;
static bool sup_b;
static bool supplied_cb = false, supplied_hook = false;
static ScalarSignal *pu, *pw;
static ArraySignal* pa;
static IntSignal* pi;
static BoolSignal* pb;

struct Top : Submodel
{
    Top() : Submodel(nullptr, "top") {}
    void input_cb(double t) override
    {
        sup_w = sym("w", requests);
        *pw   = sup_w;
        pse_assert(pse_same(t, sup_t), "the model's own hook is called for the same instant");
        supplied_hook = true;
    }
};
static void supply(Block&, double t)
{
    requests++;
    sup_t = t;
    sup_u = sym("u", requests);
    sup_i = pse_int_in(nm("i", requests).c_str(), -1000, 1000);
    sup_b = pse_bool(nm("b", requests).c_str());
    sup_a = Array(2);
    sup_a[0] = sym("a", requests), sup_a[1] = sup_u * 2;
    *pu = sup_u;
    *pi = sup_i;
    *pb = sup_b;
    *pa = sup_a;
    supplied_cb = true, supplied_hook = false;
}
// every evaluation of a block
static void evaluated(double t)
{
    evaluations++;
    pse_assert(supplied_cb && supplied_hook, "external inputs are requested before any block is evaluated");
    pse_assert(pse_same(t, sup_t), "external inputs are requested for the instant of the evaluation");
    pse_assert(pu->operator->()->assigned() && pse_same(*pu, sup_u), "blocks see the external inputs of that instant");
    pse_assert(pw->operator->()->assigned() && pse_same(*pw, sup_w), "and those of the model's own hook");
}

void pse_main()
{
    ScalarSignal u("u"), w("w"), src("src"), s1("s1"), s2("s2"), f("f"), g("g"), add("add"), mul("mul"), sub("sub"), x("x"), y("y"), fun("fun"), pre("pre");
    ArraySignal ga(2, "ga"), xa(2, "xa"), ca(2, "ca");
    ArraySignal ua(2, "ua");
    IntSignal i("i"), gi("gi"), si("si");
    BoolSignal b("b"), pbo("pbo");
    pu = &u, pw = &w, pa = &ua, pi = &i, pb = &b;
    bool states = pse_choice("states", 2);
    int sk      = pse_choice("simulator", 3);
    int stk     = states ? pse_choice("stepper", 3) : 0;
    bool nested = pse_choice("nested", 2), reverse = pse_choice("reverse", 2);
    double A = sym("A"), x0 = sym("x0");
    Top top;
    Submodel inner(&top, "inner");
    Submodel& in2 = nested ? inner : static_cast<Submodel&>(top);
    std::vector<std::unique_ptr<Block>> blocks;
    auto mk = [&](Block* p) -> Block& { blocks.emplace_back(p); return *p; };
    auto create = [&](int k)
    {
        switch (k)
        {
        case 0: mk(new Source([&](double t) { evaluated(t); return A + 0.75 * t; }, &in2, "src")).connect({}, {src}); break;
        case 1:
            mk(new Sources([&](const Bus& o, double t) { evaluated(t); dynamic_cast<ScalarSignalImpl&>(o.at(0).impl()).set_value(t); dynamic_cast<ScalarSignalImpl&>(o.at(1).impl()).set_value(A - t); }, &top, "srcs"))
                .connect({}, {s1, s2});
            break;
        case 2: mk(new SISOFunction([&](double t, double v) { evaluated(t); return v - 3 * t; }, &in2, "f")).connect({src}, {f}); break;
        case 3: mk(new Gain(-2.0, &in2, "g")).connect({add}, {g}); break;
        case 4: mk(new Add(0.5, &top, "add")).connect({u, f, w, x}, {add}); break;
        case 5: mk(new Multiply(2.0, &in2, "mul")).connect({s1, w}, {mul}); break;
        case 6: mk(new Subtract(&top, "sub")).connect({g, y}, {sub}); break;
        case 7: mk(new GainI(3, &in2, "gi")).connect({i}, {gi}); break;
        case 8: mk(new PipeB(&top, "pb")).connect({b}, {pbo}); break;
        case 9: mk(new GainA(0.5, &in2, "ga")).connect({ua}, {ga}); break;
        case 10: mk(new SourceI([&](double t) { evaluated(t); return t > 0 ? 7 : -7; }, &top, "si")).connect({}, {si}); break;
        case 11:
            mk(new SOFunction([&](double t, const Bus& ib) { evaluated(t); return t + ScalarSignal(ib.at(0)) * 2 + ScalarSignal(ib.at(1)); }, &in2, "fun"))
                .connect({u, mul}, {fun});
            break;
        case 12: mk(new ConstA(Array(Array::Constant(2, 4.0)), &in2, "ca")).connect({}, {ca}); break;
        case 13:
            if (states) mk(new Integrator(x0, &in2, "int")).connect({src}, {x});
            else mk(new Pipe(&in2, "x")).connect({w}, {x});
            break;
        case 14:
            if (states) mk(new IntegratorA(Array(Array::Constant(2, x0)), &top, "inta")).connect({ca}, {xa});
            else mk(new PipeA(&top, "xa")).connect({ga}, {xa});
            break;
        case 15: mk(new Divide(&top, "y")).connect({x, pre}, {y}); break;
        case 16: mk(new Const(4.0, &in2, "pre")).connect({}, {pre}); break;
        }
    };
    for (int k = 0; k <= 16; k++) create(reverse ? 16 - k : k);
    Euler eu;
    Rk4 rk;
    AnyStep any;
    StepperBase* st = !states ? nullptr : stk == 0 ? static_cast<StepperBase*>(&eu) : stk == 1 ? static_cast<StepperBase*>(&rk) : &any;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, supply, st);
    else sim = std::make_unique<Simulator>(top, supply, st, sk == 1);
    double t0 = sym("t0", 4), t = t0;
    bool repeated = false;
    for (int r = 0; r <= NRUNS; r++)
    {
        evaluations = 0;
        if (r == 0) sim->init(t);
        else
        {
            bool again = r == NRUNS && pse_choice("again", 2);
            if (!again) t = t + pse_double_in("run", 1.0 / 64, 2);
            else repeated = true;
            sim->run(t, 1e-3, 4);
        }
        pse_assert(evaluations >= 5, "the blocks are evaluated");
        pse_assert(pse_same(sup_t, t), "the last inputs requested are those for the requested time");
        // all signals
        ValueSignalImpl* all[] = {&u.impl(), &w.impl(), &src.impl(), &s1.impl(), &s2.impl(), &f.impl(), &g.impl(), &add.impl(), &mul.impl(), &sub.impl(), &x.impl(),
                                  &y.impl(), &fun.impl(), &pre.impl(), &ua.impl(), &ga.impl(), &xa.impl(), &ca.impl(), &i.impl(), &gi.impl(), &si.impl(), &b.impl(), &pbo.impl()};
        if (!states) ;
        for (auto* s : all) pse_assert(s->assigned(), "every signal has a value");
        for (auto* s : all)
            if (!s->assigned()) return;
        bool ext = pse_and(pse_and(eq(u, sup_u), eq(w, sup_w)), pse_and(pse_and(int(i) == sup_i, bool(b) == sup_b), eq(ua, sup_a)));
        pse_assert(ext, "external inputs are those supplied for the requested time");
        bool src_ok = pse_and(eq(src, A + 0.75 * t), pse_and(eq(s1, t), eq(s2, A - t)));
        src_ok      = pse_and(src_ok, int(si) == (t > 0 ? 7 : -7));
        pse_assert(src_ok, "sources are evaluated at exactly the requested time");
        bool fn_ok = pse_and(eq(f, src - 3 * t), eq(fun, t + u * 2 + mul));
        pse_assert(fn_ok, "time-dependent functions are evaluated at exactly the requested time");
        bool alg = pse_and(eq(g, -2.0 * add), eq(add, 0.5 + u + f + w + x));
        alg      = pse_and(alg, pse_and(eq(mul, 2.0 * s1 * w), eq(sub, g - y)));
        alg      = pse_and(alg, pse_and(int(gi) == 3 * int(i), bool(pbo) == bool(b)));
        alg      = pse_and(alg, pse_and(eq(ga, Array(0.5 * Array(ua))), eq(y, x / 4)));
        alg      = pse_and(alg, pse_and(eq(pre, 4.0), eq(ca, Array::Constant(2, 4.0))));
        if (!states) alg = pse_and(alg, pse_and(eq(x, w), eq(xa, ga)));
        pse_assert(alg, "every algebraic block's output is its function of the values at the requested time");
        if (states && (stk == 1 || r == 0))
        {
            double d = t - t0;
            pse_assert(eq(x, x0 + A * d + 0.375 * (t * t - t0 * t0)), "the state holds the integrated value");
            pse_assert(eq(xa, Array::Constant(2, x0 + 4 * d)), "the array state holds the integrated value");
            pse_reach("integrated");
        }
        if (states && stk == 0) pse_assert(eq(xa, Array::Constant(2, x0 + 4 * (t - t0))), "the array state holds the integrated value");
        pse_reach(r == 0 ? "init" : "run");
    }
    if (repeated) pse_reach("repeated");
    pse_reach(states ? "states" : "stateless");
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
    if (states) pse_reach(stk == 0 ? "euler" : stk == 1 ? "rk4" : "any");
}

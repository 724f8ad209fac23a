//@ property C30
//@ theory real
//@ modes debug release
//@ reach gain const add multiply subtract memory initial integrator triggered derivative delay source siso so function sources busmemory buspipe history plain reuse fast
//@ bounds one block of each of 18 types (arrays where there are any) with an integrator beside it, constructed and connected with nothing but temporaries (names and labels longer than the small-string buffer, arrays, functions with state, signal handles, buses), which are destroyed, or (arrays) overwritten, afterwards; array lengths NLEN (quick 2, thorough 3); initialization at any time and one run of any length; every parameter and input; all simulators; a history of the output
//@ quick -DNLEN=2
//@ thorough -DNLEN=3
#include "models.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/sources.hpp"
#include "src/solver/history.hpp"
using namespace pooya;
#define FRESH __attribute__((noinline))

static const char* items[] = {"gain", "const", "add", "multiply", "subtract", "memory", "initial", "integrator", "triggered", "derivative", "delay", "source", "siso", "so", "function", "sources", "busmemory", "buspipe"};
constexpr int NITEMS = 18;

// values that nobody else refers to
FRESH static std::string text(const char* s) { return std::string("quite_a_long_name_for_") + s; }

struct Data
{
    Array c, p, q; // parameter; input p + q t
    double h;      // time of the first evaluation, length of the run
    double t0;
    Array in(double t) const { return p + t * q; }
};

struct Rig
{
    std::unique_ptr<Submodel> top, sub;
    std::vector<std::unique_ptr<Block>> blocks;
    std::unique_ptr<StepperBase> st;
    std::unique_ptr<SimulatorBase> sim;
    std::unique_ptr<History> history;
};

FRESH static ArraySignal asig(const char* s) { return ArraySignal(NLEN, text(s)); }

FRESH static Block* make(Rig& r, int item, const Data& d)
{
    // originals, overwritten in the end
    Array c = d.c;
    Submodel* s = r.sub.get();
    Block* b    = nullptr;
    auto keep   = [&](Block* x) { r.blocks.emplace_back(b = x); };
    using L     = std::pair<std::string, Signal>;
    Bus in({L{text("in"), asig("input")}}), out({L{text("out"), asig("output")}});
    switch (item)
    {
    case 0: keep(new GainA(c[0], s, text("b"))); break;
    case 1: keep(new ConstA(c, s, text("b"))); in.reset(Bus()); break;
    case 2: keep(new AddA(c, s, text("b"))); break;
    case 3: keep(new MultiplyA(c, s, text("b"))); break;
    case 4:
    {
        keep(new SubtractA(s, text("b")));
        Signal x(in.at(0));
        in.reset(Bus({L{text("in"), x}, L{text("other"), x}}));
        break;
    }
    case 5: keep(new MemoryA(c, s, text("b"))); break;
    case 6: keep(new InitialValueA(s, text("b"))); break;
    case 7: keep(new IntegratorA(c, s, text("b"))); break;
    case 8:
    {
        keep(new TriggeredIntegratorA(c, s, text("b")));
        Signal x(in.at(0));
        in.reset(Bus({L{"in", x}, L{"trigger", BoolSignal(text("trigger"))}}));
        break;
    }
    case 9: keep(new DerivativeA(c, s, text("b"))); break;
    case 10:
    {
        keep(new DelayA(64, s, text("b")));
        Signal x(in.at(0));
        in.reset(Bus({L{"in", x}, L{"delay", ScalarSignal(text("delay"))}, L{"initial", asig("initial")}}));
        break;
    }
    case 11: keep(new SourceT<Array>([c](double t) -> Array { return c + t; }, s, text("b"))); in.reset(Bus()); break;
    case 12: keep(new SISOFunctionT<Array>([c](double t, const Array& v) -> Array { return c * v + t; }, s, text("b"))); break;
    case 13: keep(new SOFunctionT<Array>([c](double t, const Bus& i) -> Array { return c - ArraySignal(i.at(0))->get_value() * t; }, s, text("b"))); break;
    case 14: keep(new Function([c](double t, const Bus& i, const Bus& o) { ArraySignal x(o.at(0)); x = Array(c * ArraySignal(i.at(0))->get_value() - t); }, s, text("b"))); break;
    case 15: keep(new Sources([c](const Bus& o, double t) { ArraySignal x(o.at(0)); x = Array(t - c); }, s, text("b"))); in.reset(Bus()); break;
    case 16:
    {
        keep(new BusMemory(*s, {{text("v"), c}}));
        in.reset(Bus({L{text("v"), in.at(0)}, L{text("w"), ScalarSignal(text("w"))}}));
        out.reset(Bus({L{text("v"), out.at(0)}, L{text("w"), ScalarSignal(text("mw"))}}));
        break;
    }
    default:
    {
        keep(new BusPipe(*s, {text("w")}));
        in.reset(Bus({L{text("v"), in.at(0)}, L{text("w"), ScalarSignal(text("w"))}}));
        out.reset(Bus({L{text("v"), out.at(0)}, L{text("w"), ScalarSignal(text("mw"))}}));
    }
    }
    b->connect(in, out);
    c.setConstant(-77);
    return b;
}

FRESH static Block* integrator(Rig& r, const Data& d)
{
    auto i = std::make_unique<Integrator>(d.c[0], r.top.get(), text("state"));
    i->connect({ScalarSignal(text("slope"))}, {ScalarSignal(text("value"))});
    r.blocks.push_back(std::move(i));
    return r.blocks.back().get();
}

FRESH static void simulator(Rig& r, int sk, Block* b, Block* i, int item, const Data& d)
{
    std::shared_ptr<Array> p = std::make_shared<Array>(d.p), q = std::make_shared<Array>(d.q);
    Array ini = d.c;
    auto cb   = [b, i, item, p, q, ini](Block&, double t)
    {
        ScalarSignal(i->ibus().at(0)) = 3.0;
        if (b->ibus().size())
        {
            ArraySignal x(b->ibus().at(0));
            x = Array(*p + t * *q);
        }
        if (item == 8) { BoolSignal x(b->ibus().at(1)); x = true; }
        if (item == 10)
        {
            ScalarSignal x(b->ibus().at(1));
            x = 0.0;
            ArraySignal y(b->ibus().at(2));
            y = ini;
        }
        if (item >= 16) { ScalarSignal x(b->ibus().at(1)); x = t; }
    };
    if (sk == 2) r.sim = std::make_unique<FastSimulator>(*r.top, cb, r.st.get());
    else r.sim = std::make_unique<Simulator>(*r.top, cb, r.st.get(), sk == 1);
    r.history->track(ArraySignal(b->obus().at(0)));
}

// something else where the temporaries were
FRESH static void churn()
{
    std::vector<Array> v;
    std::vector<std::string> w;
    for (int k = 0; k < 4; k++)
    {
        v.push_back(Array::Constant(NLEN, 1000 + k));
        w.push_back(std::string(24 + k, 'z'));
    }
}

static Array expected(int item, bool first, const Data& d)
{
    double t = first ? d.t0 : d.t0 + d.h;
    Array c = d.c, a = d.in(d.t0), b = d.in(t), one = Array::Ones(NLEN);
    switch (item)
    {
    case 0: return c[0] * b;
    case 1: return c;
    case 2: return c + b;
    case 3: return c * b;
    case 4: return 0 * b;
    case 5: return first ? c : a;
    case 6: return a;
    case 7: return first ? c : Array(c + d.h * a);
    case 8: return first ? c : Array(d.h * a);
    case 9: return first ? c : d.q;
    case 10: return first ? c : a; // the last completed step
    case 11: return c + t;
    case 12: return c * b + t;
    case 13: return c - b * t;
    case 14: return c * b - t;
    case 15: return t - c;
    case 16: return first ? c : a;
    default: return b;
    }
}

void pse_main()
{
    int item = pse_choice("item", NITEMS);
    int sk   = pse_choice("simulator", 3);
    Data d;
    d.c  = sym_array("c", NLEN, 10);
    d.p  = sym_array("p", NLEN, 10);
    d.q  = sym_array("q", NLEN, 10);
    d.t0 = sym("t0", 4);
    d.h  = pse_double_in("h", 1.0 / 64, 4);
    Rig r;
    r.top     = std::make_unique<Submodel>(nullptr, text("top"));
    r.sub     = std::make_unique<Submodel>(r.top.get(), text("sub"));
    r.st      = std::make_unique<Euler>();
    r.history = std::make_unique<History>(2);
    Block* b  = make(r, item, d);
    churn();
    Block* i = integrator(r, d);
    churn();
    simulator(r, sk, b, i, item, d);
    churn();
    auto check = [&](bool first)
    {
        ArraySignal o(b->obus().at(0));
        pse_assert(o->assigned() && eq(o->get_value(), expected(item, first, d)), "the output is the function of the parameters that were given");
        ScalarSignal x(i->obus().at(0));
        pse_assert(eq(x->get_value(), first ? d.c[0] : d.c[0] + 3 * d.h), "the state is integrated from the initial condition that was given");
        r.history->update(first ? 0 : 1, d.t0);
    };
    r.sim->init(d.t0);
    check(true);
    churn();
    r.sim->run(d.t0 + d.h, 1e-3, 8);
    check(false);
    std::string prefix = "quite_a_long_name_for_";
    if (item < 16) pse_assert(b->full_name().str() == "/" + prefix + "top/" + prefix + "sub/" + prefix + "b", "names are kept");
    Signal out(b->obus().at(0));
    pse_assert(out->name().str() == prefix + "output", "names of signals are kept");
    auto label = b->obus().begin()->first;
    pse_assert(label == prefix + (item < 16 ? "out" : "v"), "labels are kept");
    // the history keeps its signals, even when the model is gone
    r.sim.reset();
    r.blocks.clear();
    auto& m = (*r.history)[out];
    pse_assert(m.rows() >= 2 && m.cols() == NLEN, "the history has the values");
    for (int k = 0; k < NLEN; k++) pse_assert(eq(m(0, k), expected(item, true, d)[k]) && eq(m(1, k), expected(item, false, d)[k]), "the history has the values");
    pse_reach("history");
    pse_reach(items[item]);
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
}

//@ property C06
//@ theory fp
//@ modes debug release
//@ reach scalar int bool array loop initial repeated
//@ bounds NSTEPS steps after initialization (quick 4, thorough 7), all three simulators, every double (bit for bit), int and bool, arrays of length 1..2, symbolic initial values, at most one run repeating the time before it; a counter loop through a memory; initial-value blocks of scalars and arrays
//@ quick -DNSTEPS=4
//@ thorough -DNSTEPS=7
#include "common.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/submodel.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/simulator.hpp"
using namespace pooya;

static std::unique_ptr<SimulatorBase> make_sim(Block& b, SimulatorBase::InputCallback cb)
{
    switch (pse_choice("sim", 3))
    {
    case 0: return std::make_unique<Simulator>(b, cb);
    case 1: return std::make_unique<Simulator>(b, cb, nullptr, true);
    default: return std::make_unique<FastSimulator>(b, cb);
    }
}

template<typename T, typename Sig, typename F, typename E>
static void memory(F value, E equal, Sig in, Sig out)
{
    T ic = value();
    Submodel top(nullptr, "top");
    MemoryT<T> m(ic, &top, "mem");
    m.connect({in}, {out});
    T cur = ic, prev = ic;
    auto sim = make_sim(top, [&](Block&, double) { in = cur; });
    int again  = pse_choice("again", NSTEPS + 1); // the run that repeats the time of the one before (0: none)
    if (again) pse_reach("repeated");
    for (int k = 0; k <= NSTEPS; k++)
    {
        prev = cur;
        cur  = value();
        if (k == 0)
        {
            prev = ic;
            sim->init(0);
        }
        else
            sim->run((again && k >= again ? k - 1 : k) * 0.25);
        pse_assert(out->assigned(), "memory output assigned");
        pse_assert(equal(out->get_value(), prev), k == 0 ? "the first output is the initial value" : "the output is the input of the previous step");
        pse_assert(equal(in->get_value(), cur), "input untouched");
    }
}

static void loop()
{
    // y = f(memory of y): an arbitrary function, recorded
    Submodel top(nullptr, "top");
    ScalarSignal y("y"), m("m");
    double ic = pse_double("ic");
    double given = 0, seen = 0;
    int calls = 0;
    Function fn(
        [&](double, const Bus& in, const Bus& out)
        {
            seen                  = ScalarSignal(in.at(0));
            ScalarSignal(out.at(0)) = given;
            calls++;
        },
        &top, "fn");
    Memory mem(ic, &top, "mem");
    fn.connect({m}, {y});
    mem.connect({y}, {m});
    auto sim    = make_sim(top, nullptr);
    double prev = ic;
    for (int k = 0; k <= NSTEPS; k++)
    {
        given = pse_double("given");
        calls = 0;
        if (k == 0) sim->init(0);
        else sim->run(k);
        pse_assert(calls == 1, "a loop through a memory is not an algebraic loop");
        pse_assert(same(seen, prev), "the loop sees the previous value");
        pse_assert(same(double(y), given), "loop output");
        prev = given;
    }
    pse_reach("loop");
}

static void initial_values()
{
    Submodel top(nullptr, "top");
    ScalarSignal x("x"), y("y");
    int n = 1 + pse_choice("len", 2);
    ArraySignal xa(n, "xa"), ya(n, "ya");
    InitialValue iv(&top, "iv");
    InitialValueA iva(&top, "iva");
    iv.connect({x}, {y});
    iva.connect({xa}, {ya});
    double cur = 0, first = 0;
    Array acur(n), afirst(n);
    auto sim = make_sim(top,
                        [&](Block&, double)
                        {
                            x  = cur;
                            xa = acur;
                        });
    for (int k = 0; k <= NSTEPS; k++)
    {
        cur = pse_double("v");
        for (int i = 0; i < n; i++) acur[i] = pse_double("va");
        if (k == 0)
        {
            first  = cur;
            afirst = acur;
            sim->init(0);
        }
        else
            sim->run(k);
        pse_assert(same(double(y), first), "initial value kept");
        pse_assert(same(ya->get_value(), afirst), "initial array value kept");
    }
    pse_reach("initial");
}

void pse_main()
{
    switch (pse_choice("kind", 6))
    {
    case 0:
        memory<double>([] { return pse_double("v"); }, [](double a, double b) { return same(a, b); }, ScalarSignal("in"), ScalarSignal("out"));
        pse_reach("scalar");
        break;
    case 1:
        memory<int>([] { return pse_int("v"); }, [](int a, int b) { return a == b; }, IntSignal("in"), IntSignal("out"));
        pse_reach("int");
        break;
    case 2:
        memory<bool>([] { return pse_bool("v"); }, [](bool a, bool b) { return a == b; }, BoolSignal("in"), BoolSignal("out"));
        pse_reach("bool");
        break;
    case 3:
    {
        int n = 1 + pse_choice("len", 2);
        memory<Array>(
            [n]
            {
                Array a(n);
                for (int i = 0; i < n; i++) a[i] = pse_double("v");
                return a;
            },
            [](const Array& a, const Array& b) { return same(a, b); }, ArraySignal(n, "in"), ArraySignal(n, "out"));
        pse_reach("array");
        break;
    }
    case 4: loop(); break;
    case 5: initial_values(); break;
    }
}

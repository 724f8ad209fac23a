//@ property C24
//@ theory real
//@ modes debug
//@ reach signals buses blocks simulators histories callbacks steps after
//@ bounds checked build; 50 kinds of misuse of signals, buses, blocks, submodels, bus blocks, simulators and histories (each with arbitrary values where it has any), an error raised by user code at each of the first NCALLS calls of it (quick 6, thorough 16) under Euler, RK4 and RKF45 and all simulators, arbitrary step limits, 0..2 trace entries of the caller; every misuse done twice and followed by proper use
//@ quick -DNCALLS=6
//@ thorough -DNCALLS=16
#include "models.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/solver/history.hpp"
using namespace pooya;

static std::string outer;

// runs f, which must raise an error that mentions the given text; the trace stays as it is
template<typename F>
static void misuse(F f, const char* text)
{
    std::size_t d = trace_depth();
    bool error = false, known = false, says = false, traced = outer.empty();
    try
    {
        f();
    }
    catch (const std::exception& e)
    {
        std::string w = e.what();
        error = known = true;
        says          = w.find(text) != std::string::npos;
        if (!says) pse_log(e.what());
        if (w.find("Pooya") == std::string::npos) traced = true; // an error of the standard library or of the user
        traced = traced || w.find(outer) != std::string::npos;
    }
    catch (...)
    {
        error = true;
    }
    pse_assert(error && known, "misuse is reported as an error");
    pse_assert(says, "the error carries its description");
    pse_assert(traced, "the error carries the trace");
    pse_assert(trace_depth() == d, "the trace is as deep after an error as before");
}
template<typename F>
static void use(F f)
{
    std::size_t d = trace_depth();
    bool error    = raises(f);
    pse_assert(!error, "proper use raises no error");
    pse_assert(trace_depth() == d, "the trace is as deep after an operation as before");
}

static Signal S(const Signal& s) { return s; }
static void signals()
{
    ScalarSignal s("sca"), s2("other");
    IntSignal i("intg");
    BoolSignal b("boo");
    ArraySignal a(2, "arr"), a3(3, "arr3");
    double v = sym("v");
    int k    = pse_int("k");
    bool o   = pse_bool("o");
    int what = pse_choice("what", 20);
    for (int n = 0; n < 2; n++)
        switch (what)
        {
        case 0: misuse([&] { s->get_value(); }, "sca"); break;
        case 1: misuse([&] { i->get_value(); }, "intg"); break;
        case 2: misuse([&] { b->get_value(); }, "boo"); break;
        case 3: misuse([&] { a->get_value(); }, "arr"); break;
        case 4: misuse([&] { s->set_value(v); s->set_value(v); }, "sca"); break;
        case 5: misuse([&] { i->set_value(k); i->set_value(k); }, "intg"); break;
        case 6: misuse([&] { b->set_value(o); b->set_value(o); }, "boo"); break;
        case 7: misuse([&] { a->set_value(Array::Zero(2)); a->set_value(Array::Zero(2)); }, "arr"); break;
        case 8: misuse([&] { a->set_value(Array::Zero(3)); }, "arr"); break;
        case 9: misuse([&] { a3 = Array(Array::Zero(2)); }, "arr3"); break;
        case 10: misuse([&] { ScalarSignal x(S(i)); }, "intg"); break;
        case 11: misuse([&] { BoolSignal x(S(a)); }, "arr"); break;
        case 12: misuse([&] { s.reset(b); }, "boo"); break;
        case 13: misuse([&] { s->set_deriv_signal(a); }, "arr"); break;
        case 14: misuse([&] { a->set_deriv_signal(a3); }, "arr3"); break;
        case 15: misuse([&] { s = s2; }, "other"); break;
        case 16: misuse([&] { double x = s; (void)x; }, "sca"); break;
        case 17: misuse([&] { a[1]; }, "arr"); break;
        case 18: misuse([&] { Bus x(S(s)); }, "sca"); break;
        default: misuse([&] { a3->set_deriv_signal(s); }, "sca"); break;
        }
    if (what < 4 || what > 7) use([&] { s->clear(); s = v; i->clear(); i = k; b->clear(); b = o; a->clear(); a = Array(Array::Zero(2)); });
    use([&] { pse_assert(s->assigned() ? double(s) == double(s) : true, "value"); });
    pse_reach("signals");
}
static void buses()
{
    ScalarSignal s("s");
    IntSignal i("i");
    Bus z({{"q", s}});
    Bus b({std::pair<std::string, Signal>{"z", z}, {"i", i}});
    std::size_t k = std::size_t(pse_int("k"));
    int what      = pse_choice("what", 7);
    if (what >= 5) pse_assume(k >= 2);
    for (int n = 0; n < 2; n++)
        switch (what)
        {
        case 0: misuse([&] { b.at("nolabel"); }, "nolabel"); break;
        case 1: misuse([&] { b.at("z.nosub"); }, "nosub"); break;
        case 2: misuse([&] { b.at("i.q"); }, "i"); break;
        case 3: misuse([&] { b["z.q.x"]; }, "s"); break;
        case 4: misuse([&] { b[""]; }, "ot found"); break;
        case 5: misuse([&] { b[k]; }, "index"); break;
        case 6: misuse([&] { b.at(k); }, ""); break;
        }
    use([&] { b.at("z.q"); b["i"]; b.at(1); b[0]; b->try_at("z.x"); b->try_at("z.q"); b->try_at("i.q"); b->try_at(""); });
    pse_reach("buses");
}
static void blocks()
{
    Submodel top(nullptr, "top"), elsewhere(nullptr, "elsewhere");
    ScalarSignal s("s"), t("t");
    IntSignal i("intg");
    ArraySignal a(2, "arr"), a3(3, "arr3");
    Bus z({{"q", s}}), y({{"q", t}}), w({{"q", z}});
    int what = pse_choice("what", 17);
    std::unique_ptr<Block> p;
    auto again = [&](auto f, const char* text) // a new block each time
    {
        for (int n = 0; n < 2; n++) misuse(f, text);
    };
    switch (what)
    {
    case 0: again([&] { p.reset(new Gain(1, &top, "gn")); p->connect(); }, "gn"); break;
    case 1: again([&] { p.reset(new Gain(1, &top, "gn")); p->connect({s}, {t, t}); }, "gn"); break;
    case 2: again([&] { p.reset(new Gain(1, &top, "gn")); p->connect({s}, {t}); p->connect({s}, {t}); }, "gn"); break;
    case 3: again([&] { p.reset(new Gain(1, &top, "gn")); p->connect({i}, {t}); }, "intg"); break;
    case 4: again([&] { p.reset(new Gain(1, &top, "gn")); p->connect({s}, {i}); }, "intg"); break;
    case 5: again([&] { p.reset(new Const(1, &top, "cn")); p->connect({s}, {t}); }, "cn"); break;
    case 6: again([&] { p.reset(new Delay(1, &top, "dl")); p->connect({s, s, s}, {t}); }, "in"); break;
    case 7: again([&] { p.reset(new TriggeredIntegrator(1, &top, "ti")); p->connect({s, i}, {t}); }, "trigger"); break;
    case 8: again([&] { p.reset(new IntegratorA(Array(Array::Zero(2)), &top, "ia")); p->connect({a3}, {a}); }, "arr3"); break;
    case 9: again([&] { p.reset(new Add(0, &top, "ad")); p->connect({}, {t}); }, "ad"); break;
    case 10: again([&] { p.reset(new Multiply(0, &top, "mu")); p->connect({s, i}, {t}); }, "mu"); break;
    case 11: again([&] { p.reset(new BusMemory(top, {{"nomatch", 1.0}})); p->connect(z, y); }, "nomatch"); break;
    case 12: again([&] { p.reset(new BusMemory(top, {{"q", 1}})); p->connect(z, y); }, ""); break;
    case 13: again([&] { p.reset(new BusPipe(top)); p->connect(z, w); }, ""); break;
    case 14: again([&] { p.reset(new BusPipe(top)); p->connect(z, Bus()); }, "q"); break;
    case 15: again([&] { Submodel m(&top, "sub", 1, 0); m.connect(); }, "sub"); break;
    case 16:
    {
        // refused without an error
        Gain g(1, &top, "gn");
        use([&] { pse_assert(!elsewhere.add_block(g, {s}, {t}), "refused"); });
        use([&] { pse_assert(!elsewhere.link_block(g), "refused"); });
        use([&] { pse_assert(!g.set_parent(elsewhere), "refused"); });
        break;
    }
    }
    Submodel fresh(nullptr, "fresh");
    Gain g(1, &fresh, "ok");
    use([&] { g.connect({s}, {t}); s = 1.0; g._mark_unprocessed(); g.process(0); });
    use([&] { fresh.visit([](Block&, uint32_t) { return true; }, 0); fresh.full_name(); fresh._mark_unprocessed(); });
    pse_reach("blocks");
}

static void simulators()
{
    Params P;
    int what = pse_choice("what", 5);
    int sk   = pse_choice("simulator", 3);
    ModelFeedback m(P);
    for (int i = 0; i < m.size(); i++) m.make(i, &m.top);
    Rk4 st;
    auto sim = make_simulator(sk, m, &st);
    double t0 = sym("t0", 4), t1 = t0 + 0.5;
    if (what == 0)
    {
        // arbitrary step limits
        double lo = sym("lo", 10), hi = sym("hi", 10);
        use([&] { sim->init(t0); });
        bool ok = pse_fork(pse_and(lo > 0, hi > lo));
        if (ok) pse_assume(hi >= 1); // one step
        if (ok) use([&] { sim->run(t1, lo, hi); });
        else misuse([&] { sim->run(t1, lo, hi); }, "time_step");
        pse_reach("steps");
    }
    if (what == 1)
    {
        use([&] { sim->init(t0); sim->run(t1); });
        double back = sym("back");
        pse_assume(back < t1);
        for (int n = 0; n < 2; n++) misuse([&] { sim->run(back); }, "back in time");
        use([&] { sim->run(t1); });
        use([&] { sim->run(t1 + 0.25); });
    }
    if (what == 2)
    {
        // no stepper
        std::unique_ptr<SimulatorBase> s2;
        auto cb = [&m](Block&, double t) { m.inputs(t); };
        if (sk == 2) s2 = std::make_unique<FastSimulator>(m.top, cb, nullptr);
        else s2 = std::make_unique<Simulator>(m.top, cb, nullptr, sk == 1);
        use([&] { s2->init(t0); });
        misuse([&] { s2->run(t1); }, "stepper");
    }
    if (what == 3)
    {
        // a missing input: the fast simulator refuses, the others report the state they cannot complete
        std::unique_ptr<SimulatorBase> s2;
        if (sk == 2) s2 = std::make_unique<FastSimulator>(m.top, nullptr, &st);
        else s2 = std::make_unique<Simulator>(m.top, nullptr, &st, sk == 1);
        misuse([&] { s2->init(t0); }, sk == 2 ? "FastSimulator" : "y");
    }
    if (what == 4)
    {
        // a signal driven twice
        Pipe p(&m.top, "twice");
        p.connect({m.u}, {m.gx});
        misuse([&] { sim->init(t0); }, "gx");
    }
    pse_reach("simulators");
}

static void histories()
{
    int what = pse_choice("what", 4);
    ScalarSignal s("sig"), t("tig");
    Bus b;
    History h(2);
    use([&] { h.track(s); h.track(s); h.track(b); h.untrack(t); });
    use([&] { h.update(0, 1); h.update(3, 2); h.shrink_to_fit(); h.export_csv("/nonexistent/directory/file"); });
    for (int n = 0; n < 2; n++)
        switch (what)
        {
        case 0: misuse([&] { h.track(t); }, "track"); break;
        case 1: misuse([&] { h.untrack(s); }, "untrack"); break;
        case 2: misuse([&] { h[t]; }, ""); break;
        case 3: misuse([&] { h[b]; }, "value signal"); break;
        }
    use([&] { h[s]; h.update(1, 4); h.shrink_to_fit(); });
    pse_reach("histories");
}

// errors raised by user code
static void callbacks()
{
    Params P(1);
    int where = pse_choice("where", 4);
    int sk    = pse_choice("simulator", 3);
    int stk   = pse_choice("stepper", 3);
    int at    = pse_choice("at", NCALLS);
    int calls = 0;
    bool thrown = false;
    auto call   = [&](int w)
    {
        if (w == where && calls++ == at)
        {
            thrown = true;
            throw std::runtime_error("user error");
        }
    };
    Submodel top(nullptr, "top"), sub(&top, "sub");
    ScalarSignal u("u"), x("x"), d("d"), e("e"), y("y");
    Integrator in(P.p[0], &top, "in");
    in.connect({d}, {x});
    Source so([&](double t) { call(1); return t; }, &sub, "so");
    so.connect({}, {e});
    SISOFunction fn([&](double, double v) { call(2); return 0.5 * v; }, &top, "fn");
    fn.connect({x}, {y});
    SOFunction so2([&](double, const Bus&) { call(3); return double(y) + double(u) + double(e); }, &sub, "so2");
    so2.connect({y, u, e}, {d});
    auto st = make_stepper(stk);
    auto cb = [&](Block&, double t) { call(0); u = t; };
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb, st.get());
    else sim = std::make_unique<Simulator>(top, cb, st.get(), sk == 1);
    double t = 0;
    std::size_t depth = trace_depth();
    for (int k = 0; k < 3 && !thrown; k++)
    {
        bool err = raises([&] { if (k == 0) sim->init(t); else sim->run(t, 0.125, 0.5); });
        pse_assert(err == thrown, "an error of user code is passed on");
        pse_assert(trace_depth() == depth, "the trace is as deep after an error as before");
        t += 0.5;
    }
    if (thrown) pse_reach("callbacks");
    if (thrown && calls > 1 && sk != 2)
    {
        // proper use afterwards, with a new simulator
        Simulator s2(top, cb, st.get());
        use([&] { s2.init(8); });
        use([&] { s2.run(9, 0.125, 2); });
        pse_reach("after");
    }
}

static void all()
{
    switch (pse_choice("area", 6))
    {
    case 0: signals(); break;
    case 1: buses(); break;
    case 2: blocks(); break;
    case 3: simulators(); break;
    case 4: histories(); break;
    case 5: callbacks(); break;
    }
}

void pse_main()
{
    int depth = pse_choice("outer", 3);
    if (depth == 0) all();
    else
    {
        outer = "trace-of-the-caller";
        pooya_trace("trace-of-the-caller");
        if (depth == 1) all();
        else
        {
            pooya_trace("inner-trace");
            all();
        }
    }
    pse_assert(trace_depth() == 0, "the trace is empty in the end");
}

//@ property C26
//@ theory real
//@ modes debug release
//@ reach alternating nested before destroyed shared steppers
//@ bounds a model (6 shapes) simulated by one of the 3 simulators with Euler or RK4, alone and together with another one (quick: 2 shapes, thorough: 6) that is simulated completely before, in turns (with a stepper of its own or the same one), within the input callback, or destroyed between two runs; NSTEPS runs (quick 2, thorough 3); and each of the 3 steppers (with 1..3 states) whose derivative callback lets another one of the same kind make a step, or that is used for another system before, the derivatives being arbitrary
//@ quick -DNSTEPS=2 -DOTHERS=2
//@ thorough -DNSTEPS=3 -DOTHERS=6
#include "models.hpp"
static const double times[] = {0, 0.5, 0.75, 1.25, 1.5};

static void simulations()
{
    Params P, Q;
    static const int others[6] = {1, 3, 0, 2, 4, 5};
    int kind  = pse_choice("model", NUM_MODELS);
    int other = others[pse_choice("other", OTHERS)];
    int sk    = pse_choice("simulator", 3);
    int st    = pse_choice("stepper", 2);
    int how   = pse_choice("how", 5);
    // alone
    std::vector<std::vector<double>> alone;
    {
        auto m = make_model(kind, P);
        for (int i = 0; i < m->size(); i++) m->make(i, &m->top);
        auto s   = make_stepper(st);
        auto sim = make_simulator(sk, *m, s.get());
        for (int k = 0; k <= NSTEPS; k++)
        {
            if (k) sim->run(times[k], 1e-3, 1);
            else sim->init(times[k]);
            alone.emplace_back();
            m->read(alone.back());
        }
    }
    // in company
    auto m = make_model(kind, P);
    auto n = make_model(other, Q);
    for (int i = 0; i < n->size() || i < m->size(); i++)
    {
        if (i < n->size()) n->make(n->size() - 1 - i, &n->top);
        if (i < m->size()) m->make(i, &m->top);
    }
    auto s = make_stepper(st), s2 = make_stepper(st);
    auto other_sim = make_simulator((sk + 1) % 3, *n, how == 1 ? s.get() : s2.get());
    int made       = 0; // steps of the other simulation
    auto advance   = [&]()
    {
        if (!other_sim || made > (how == 1 ? NSTEPS : 2 * NSTEPS + 2)) return;
        double t = how == 1 ? times[made] : 0.25 * made;
        if (made++) other_sim->run(t, 1e-3, 1);
        else other_sim->init(t);
    };
    auto cb = [&](Block&, double t)
    {
        if (how == 2) advance();
        m->inputs(t);
        if (how == 2) advance();
    };
    pooya::StepperBase* own = m->has_states() ? s.get() : nullptr;
    std::unique_ptr<pooya::SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<pooya::FastSimulator>(m->top, cb, own);
    else sim = std::make_unique<pooya::Simulator>(m->top, cb, own, sk == 1);
    if (how == 3)
        for (int k = 0; k <= NSTEPS; k++) advance();
    for (int k = 0; k <= NSTEPS; k++)
    {
        if (how == 0 || how == 1) advance();
        if (how == 4 && k == 0) advance();
        if (how == 4 && k == 1)
        {
            advance();
            other_sim.reset();
            n.reset();
            s2.reset();
        }
        if (k) sim->run(times[k], 1e-3, 1);
        else sim->init(times[k]);
        std::vector<double> v;
        m->read(v);
        compare(v, alone[k], "a simulation does not depend on others");
        if (how == 0) advance();
    }
    static const char* names[] = {"alternating", "shared", "nested", "before", "destroyed"};
    pse_reach(names[how]);
}

// a step of one stepper within the evaluation of another
static void steppers()
{
    int st = pse_choice("stepper", 3);
    int n = 1 + pse_choice("n", 3), n2 = 1 + pse_choice("n2", 3), when = pse_choice("when", 8);
    double h = 0.5;
    Array x0 = sym_array("x", n);
    std::vector<Array> f;
    for (int k = 0; k < 6; k++)
    {
        Array d(n);
        for (int i = 0; i < n; i++) d[i] = sym("f", k * n + i);
        f.push_back(d);
    }
    Array one, two;
    double h1 = 0, h2 = 0, h3 = 0;
    {
        int k = 0;
        make_stepper(st)->step([&](double, const Array&) -> const Array& { return f[k++]; }, 0, x0, h, one, h1);
    }
    auto a = make_stepper(st), b = make_stepper(st);
    int k = 0;
    auto inner = [&]()
    {
        Array y(n2), fy(n2), y1;
        for (int i = 0; i < n2; i++) y[i] = 1.5 * i - 1, fy[i] = 2.5 + i;
        b->step([&](double, const Array&) -> const Array& { return fy; }, 1, y, 1.25, y1, h3);
        pse_assert(y1.rows() == n2, "as many states");
        bool ok = true;
        for (int i = 0; i < n2 && i < y1.rows(); i++) ok = pse_and(ok, eq(y1[i], y[i] + 0.25 * fy[i]));
        pse_assert(ok, "the inner step");
    };
    if (when == 6) inner();
    if (when == 7)
    {
        // the same stepper, the same start, but other derivatives
        Array g = sym_array("g", n), y1;
        a->step([&](double, const Array&) -> const Array& { return g; }, 0, x0, h, y1, h3);
        pse_assert(eq(y1, x0 + h * g), "the step of the other system");
    }
    a->step(
        [&](double, const Array&) -> const Array&
        {
            if (k == when) inner();
            return f[k++];
        },
        0, x0, h, two, h2);
    pse_assert(eq(one, two), "a step does not depend on steps of others");
    pse_assert(pse_close(h1, h2, TOL), "nor does its suggestion");
    pse_reach("steppers");
}

void pse_main()
{
    if (pse_choice("what", 2)) steppers();
    else simulations();
}

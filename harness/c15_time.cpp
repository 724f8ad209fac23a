//@ property C15
//@ theory real
//@ modes debug release
//@ reach implicit backwards repeated feedback mixed triggered plain reuse fast
//@ bounds three models with states (see models.hpp), initialized explicitly or by the first run at any time in [-4,4]; NRUNS runs (quick 2, thorough 3), before each of them possibly an attempt to run to any earlier time (down to -100), or a run to the same time (models without delay and trigger); compared with a copy that is only run forwards; symbolic initial values and inputs, Euler and RK4, all simulators
//@ quick -DNRUNS=2
//@ thorough -DNRUNS=3
#include "models.hpp"

void pse_main()
{
    static const int kinds[] = {0, 1, 3};
    Params P;
    int kind = kinds[pse_choice("model", 3)];
    int stk  = pse_choice("stepper", 2);
    int sk   = pse_choice("simulator", 3);
    auto A = make_model(kind, P), B = make_model(kind, P);
    for (int i = 0; i < A->size(); i++)
    {
        A->make(i, &A->top);
        B->make(i, &B->top);
    }
    auto s1 = make_stepper(stk), s2 = make_stepper(stk);
    auto a = make_simulator(sk, *A, s1.get());
    auto b = make_simulator(sk, *B, s2.get());
    double t = kind == 3 ? 0 : sym("t0", 4);
    if (pse_choice("init", 2) == 0)
    {
        a->run(t);
        pse_reach("implicit");
    }
    else
        a->init(t);
    b->init(t);
    auto same_now = [&](const char* msg)
    {
        std::vector<double> x, y;
        A->read(x);
        B->read(y);
        compare(x, y, msg);
    };
    same_now("the first run initializes the model");
    bool again = false;
    for (int k = 1; k <= NRUNS; k++)
    {
        int what = pse_choice("before", kind == 3 ? 2 : 3);
        if (what == 1)
        {
            double back = pse_double_in("back", -100, 8);
            pse_assume(back < t);
            pse_assert(raises([&] { a->run(back, 1e-3, 1); }), "running backwards raises an error");
            same_now("an attempt to run backwards changes nothing");
            if (raises([&] { a->run(back, 1e-3, 1); })) pse_reach("backwards");
            same_now("a second attempt to run backwards changes nothing");
        }
        if (what == 2)
        {
            std::vector<double> before, after;
            A->read_states(before);
            a->run(t, 1e-3, 1);
            A->read_states(after);
            compare(after, before, "running again to the same time leaves the states unchanged");
            // the copy does the same, so that memories agree
            b->run(t, 1e-3, 1);
            same_now("running again to the same time");
            pse_reach("repeated");
        }
        t = t + 0.5;
        a->run(t, 1e-3, 1);
        b->run(t, 1e-3, 1);
        same_now("later runs are as if the attempt had not been made");
    }
    pse_reach(kind == 0 ? "feedback" : kind == 1 ? "mixed" : "triggered");
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
}

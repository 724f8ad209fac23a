//@ property C24
//@ theory real
//@ modes debug
//@ reach signal user after
//@ bounds larger instances: an error raised in a block nested 16 deep (reading an unassigned signal, an error of user code, in any of the first 3 evaluations), with 12 trace entries of the caller; repeated, and followed by proper use
#include "models.hpp"
using namespace pooya;

class Failing : public Leaf
{
public:
    int count{0}, at, how;
    ScalarSignal other{"never_assigned"};
    Failing(Submodel* p, int at, int how) : Leaf(p, "failing", 1, 1), at(at), how(how) {}
    void activation_function(double) override
    {
        pooya_trace("the failing block");
        if (count++ == at)
        {
            if (how == 0) (void)other->get_value();
            throw std::runtime_error("an error of the user");
        }
        ScalarSignal(output(0)) = ScalarSignal(input(0))->get_value();
    }
};

static void run(int level, int at, int how, int sk)
{
    pooya_trace("caller " + nm("c", level));
    if (level < 11)
    {
        run(level + 1, at, how, sk);
        return;
    }
    constexpr int D = 16;
    Submodel top(nullptr, "top");
    std::vector<std::unique_ptr<Submodel>> s;
    for (int d = 0; d < D; d++) s.push_back(std::make_unique<Submodel>(d ? s.back().get() : &top, nm("s", d)));
    Failing f(s.back().get(), at, how);
    ScalarSignal u("u"), y("y");
    f.connect({u}, {y});
    double v = sym("v");
    auto cb  = [&](Block&, double) { u = v; };
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb);
    else sim = std::make_unique<Simulator>(top, cb, nullptr, sk == 1);
    std::size_t d0 = trace_depth();
    for (int k = 0; k < 3 && k <= at; k++)
    {
        bool error = false;
        std::string what;
        try
        {
            if (k == 0) sim->init(0);
            else sim->run(k);
        }
        catch (const std::exception& e)
        {
            error = true;
            what  = e.what();
        }
        pse_assert(error == (k == at), "misuse is reported as an error");
        pse_assert(trace_depth() == d0, "the trace is as deep after an error as before");
        if (!error) continue;
        if (how == 1) pse_assert(what.find("an error of the user") != std::string::npos, "the error carries its description");
        else
        {
            pse_assert(what.find("never_assigned") != std::string::npos, "the error carries its description");
            pse_assert(what.find("the failing block") != std::string::npos, "the error carries the trace");
            for (int c = 0; c < 12; c++) pse_assert(what.find("caller " + nm("c", c)) != std::string::npos, "the error carries the trace of the caller");
        }
    }
    pse_reach(how ? "user" : "signal");
    // proper use
    bool error = raises([&] { sim->init(10), sim->run(11); });
    pse_assert(!error && y->assigned() && eq(y->get_value(), v), "proper use raises no error");
    pse_assert(trace_depth() == d0, "the trace is as deep after an operation as before");
    pse_reach("after");
}

void pse_main()
{
    int at = pse_choice("at", 3), how = pse_choice("how", 2), sk = pse_choice("simulator", 3);
    std::size_t d0 = trace_depth();
    run(0, at, how, sk);
    pse_assert(trace_depth() == d0, "the trace is as deep afterwards as before");
}

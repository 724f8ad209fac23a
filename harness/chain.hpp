// A long chain of blocks with feedback through an integrator, in several orders of creation and nestings: a larger
// instance for several properties. NB blocks; a leaf k computes o[k] = o[k-1] + c[k], o[-1] = x + u, x' = o[NB-1].
#pragma once
#include "models.hpp"
constexpr int NB = 20;

class Link : public pooya::Leaf
{
public:
    double c;
    int count{0};
    pooya::ScalarSignal in, out;
    Link(Submodel* p, int k, double c_) : Leaf(p, nm("link", k), 1, 1), c(c_) {}
    bool connect(const Bus& i, const Bus& o) override
    {
        if (!Leaf::connect(i, o)) return false;
        in.reset(input(0)), out.reset(output(0));
        return true;
    }
    void activation_function(double) override
    {
        pse_assert(in->assigned(), "a block is evaluated after its input");
        count++;
        out = in + c;
    }
};

inline void long_chain()
{
    using namespace pooya;
    int order = pse_choice("order", 3), place = pse_choice("place", 3), sk = pse_choice("simulator", 3);
    Submodel top(nullptr, "top");
    std::vector<std::unique_ptr<Submodel>> subs;
    for (int k = 0; k < NB; k++) subs.push_back(std::make_unique<Submodel>(place == 1 && k ? subs.back().get() : &top, nm("s", k)));
    auto parent = [&](int k) { return place == 0 ? &top : place == 1 ? subs[k].get() : subs[(k * 7) % 5].get(); };
    std::vector<ScalarSignal> o;
    for (int k = 0; k < NB; k++) o.push_back(ScalarSignal(nm("o", k)));
    ScalarSignal x("x"), u("u"), e("e");
    double c[NB], sum = 0, x0 = sym("x0");
    for (int k = 0; k < NB; k++) sum = sum + (c[k] = sym("c", k));
    std::vector<std::unique_ptr<Link>> link(NB);
    auto make = [&](int k)
    {
        link[k] = std::make_unique<Link>(parent(k), k, c[k]);
        link[k]->connect({k ? o[k - 1] : e}, {o[k]});
    };
    std::unique_ptr<Integrator> in;
    std::unique_ptr<Add> add;
    auto rest = [&]
    {
        in  = std::make_unique<Integrator>(x0, parent(NB - 1), "in");
        add = std::make_unique<Add>(0.0, &top, "add");
        in->connect({o[NB - 1]}, {x});
        add->connect({x, u}, {e});
    };
    if (order == 0)
    {
        rest();
        for (int k = 0; k < NB; k++) make(k);
    }
    else if (order == 1)
    {
        for (int k = NB - 1; k >= 0; k--) make(k);
        rest();
    }
    else
    {
        for (int k = 1; k < NB; k += 2) make(k);
        rest();
        for (int k = NB - 2; k >= 0; k -= 2) make(k);
    }
    double uu[3] = {sym("u", 0), sym("u", 1), sym("u", 2)};
    int requests = 0;
    auto cb      = [&](Block&, double t)
    {
        u = t < 0.5 ? uu[0] : t < 1 ? uu[1] : uu[2];
        requests++;
    };
    Euler st;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, cb, &st);
    else sim = std::make_unique<Simulator>(top, cb, &st, sk == 1);
    double xx = x0;
    for (int r = 0; r < 3; r++)
    {
        requests = 0;
        for (auto& l : link) l->count = 0;
        if (r == 0) sim->init(0);
        else sim->run(0.5 * r, 1e-3, 1);
        if (r) xx = xx + 0.5 * (xx + uu[r - 1] + sum);
        pse_assert(x->assigned() && eq(x->get_value(), xx), "the state");
        double s = xx + uu[r];
        int n    = link[0]->count;
        pse_assert(n >= 1 && n <= requests, "every block is evaluated, once for every evaluation of the model");
        for (int k = 0; k < NB; k++)
        {
            s = s + c[k];
            pse_assert(o[k]->assigned() && eq(o[k]->get_value(), s), "the value of every signal of the chain");
            pse_assert(link[k]->count == n, "every block is evaluated as often as the others");
        }
        if (r == 0) pse_assert(n == 1, "once for the initialization");
    }
    // every block is visited, at its depth
    int seen = 0;
    top.visit(
        [&](Block& b, uint32_t level)
        {
            for (int k = 0; k < NB; k++)
                if (&b == link[k].get())
                {
                    seen++;
                    pse_assert(level == uint32_t(place == 0 ? 1 : place == 1 ? k + 2 : 2), "visited with its depth");
                    std::string path = "/top";
                    if (place == 1)
                        for (int j = 0; j <= k; j++) path += "/" + nm("s", j);
                    if (place == 2) path += "/" + nm("s", (k * 7) % 5);
                    pse_assert(b.full_name().str() == path + "/" + nm("link", k), "its full name");
                }
            return true;
        },
        0);
    pse_assert(seen == NB, "every block is visited once");
    static const char* orders[] = {"forward", "backward", "mixed"};
    static const char* places[] = {"flat", "deep", "scattered"};
    static const char* sims[]   = {"plain", "reuse", "fast"};
    pse_reach(orders[order]), pse_reach(places[place]), pse_reach(sims[sk]);
}

//@ property C01
//@ theory fp
//@ modes debug release
//@ reach long many
//@ bounds larger instances: arrays of length 8, 17, 33 and 64 (every 64-bit double in every element), assigned, copied to another signal, cleared and assigned again; arrays one element shorter or longer refused; 24 signals of all four kinds alive at once, assigned and cleared one by one
#include "common.hpp"
using namespace pooya;

static void long_arrays()
{
    static const int lengths[] = {8, 17, 33, 64};
    int n = lengths[pse_choice("length", 4)];
    ArraySignal s(n, "s"), o(n, "o");
    Array v(n), w(n);
    for (int i = 0; i < n; i++) v[i] = pse_double("v"), w[i] = pse_double("w");
    pse_assert(!s->assigned() && s->size() == std::size_t(n), "unassigned, of the declared size");
    s = v;
    pse_assert(s->assigned() && same(s->get_value(), v), "reads the value last assigned");
    o = s;
    s->clear();
    pse_assert(!s->assigned() && o->assigned() && same(o->get_value(), v), "a copied value is the other signal's own");
    s = w;
    pse_assert(same(s->get_value(), w) && same(o->get_value(), v), "reads the value last assigned");
    if (checked_build)
    {
        s->clear();
        for (int d : {-1, 1})
            pse_assert(raises([&] { s = Array(Array::Zero(n + d)); }), "an array of another length is refused");
        pse_assert(!s->assigned(), "a refused assignment leaves the status");
        pse_reach("refused");
    }
    pse_reach("long");
}

static void many()
{
    constexpr int N = 24;
    std::vector<ScalarSignal> s;
    std::vector<IntSignal> i;
    std::vector<BoolSignal> b;
    std::vector<ArraySignal> a;
    double sv[N];
    int iv[N];
    bool bv[N];
    Array av[N];
    for (int k = 0; k < N; k++)
    {
        s.push_back(ScalarSignal(nm("s", k))), i.push_back(IntSignal(nm("i", k)));
        b.push_back(BoolSignal(nm("b", k))), a.push_back(ArraySignal(1 + k % 5, nm("a", k)));
        sv[k] = pse_double("s"), iv[k] = pse_int("i"), bv[k] = pse_bool("b");
        av[k] = Array(1 + k % 5);
        for (int j = 0; j < av[k].rows(); j++) av[k][j] = pse_double("a");
    }
    auto check = [&](auto given)
    {
        bool ok = true;
        for (int k = 0; k < N; k++)
        {
            pse_assert(s[k]->assigned() == given(k, 0) && i[k]->assigned() == given(k, 1) && b[k]->assigned() == given(k, 2) && a[k]->assigned() == given(k, 3), "assigned status");
            if (given(k, 0)) ok = pse_and(ok, same(s[k]->get_value(), sv[k]));
            if (given(k, 1)) ok = pse_and(ok, i[k]->get_value() == iv[k]);
            if (given(k, 2)) ok = pse_and(ok, b[k]->get_value() == bv[k]);
            if (given(k, 3)) ok = pse_and(ok, same(a[k]->get_value(), av[k]));
        }
        pse_assert(ok, "reads the value last assigned");
    };
    check([](int, int) { return false; });
    for (int k = 0; k < N; k++) s[k] = sv[k], i[k] = iv[k];
    check([](int, int c) { return c < 2; });
    for (int k = 0; k < N; k++) b[k] = bv[k], a[k] = av[k];
    check([](int, int) { return true; });
    for (int k = 0; k < N; k += 2) s[k]->clear(), a[k]->clear();
    check([](int k, int c) { return k % 2 || (c != 0 && c != 3); });
    pse_reach("many");
}

void pse_main()
{
    if (pse_choice("what", 2)) many();
    else long_arrays();
}

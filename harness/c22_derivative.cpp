//@ property C22
//@ theory real
//@ modes debug release
//@ reach scalar array accepted refused kept
//@ bounds a scalar signal or an array of length 2, every sequence of NOPS attempts (quick 3, thorough 4) to give it a derivative out of two scalars, an integer, a boolean, arrays of length 1 to 3 (two of length 2), a bus, and itself
//@ quick -DNOPS=3
//@ thorough -DNOPS=4
#include "common.hpp"
using namespace pooya;

template<typename S>
static void attempts(S& x, int right)
{
    ScalarSignal s1("s1"), s2("s2");
    IntSignal i("i");
    BoolSignal b("b");
    ArraySignal a1(1, "a1"), a2(2, "a2"), a22(2, "a22"), a3(3, "a3");
    Bus z({{"s1", s1}});
    Signal cand[] = {s1, s2, a2, a22, i, b, a1, a3, z, x};
    const void* now = nullptr;
    for (int k = 0; k < NOPS; k++)
    {
        int c   = pse_choice("candidate", 10);
        bool ok = c / 2 == right || c == 9;
        bool e  = raises([&] { x->set_deriv_signal(cand[c]); });
        pse_assert(e == !ok, "exactly signals of the same kind and length are taken");
        if (ok) now = static_cast<const SignalImpl*>(&cand[c].impl());
        pse_assert(static_cast<const SignalImpl*>(x->deriv_signal()) == now, "the derivative is the last one that was taken");
        pse_assert(static_cast<const SignalImpl*>(x->state_variable()) == now, "a signal is a state if it has a derivative");
        pse_reach(ok ? "accepted" : "refused");
        if (!ok && now) pse_reach("kept");
    }
}

void pse_main()
{
    if (pse_choice("kind", 2))
    {
        ArraySignal x(2, "x");
        attempts(x, 1);
        pse_reach("array");
    }
    else
    {
        ScalarSignal x("x");
        attempts(x, 0);
        pse_reach("scalar");
    }
}

//@ property C16
//@ theory fp
//@ modes debug release
//@ reach grown shrunk rewritten unassigned untracked duplicate stranger nogrow
//@ bounds every sequence of NUPD updates (quick 3, thorough 4) of rows 0..NROW-1 (quick 6, thorough 8) with growth increments 0..3, each possibly preceded by shrinking; scalar (every 64-bit double), integer (every int), boolean and array (length 2) signals, each update with all of them assigned or one of them unassigned; duplicate tracking, untracking a tracked or another signal
//@ quick -DNUPD=3 -DNROW=6
//@ thorough -DNUPD=4 -DNROW=8
#include "common.hpp"
#include "src/solver/history.hpp"
using namespace pooya;

struct Row
{
    double t, s, a0, a1;
    double i;
    double b;
};

static bool eqd(double a, double b) { return pse_same(a, b); }

void pse_main()
{
    int grow    = pse_choice("grow", 4);
    int variant = pse_choice("tracking", 4); // 0 all, 1 duplicates, 2 one untracked, 3 untracking a stranger
    bool shrinking = variant == 0 || variant == 2;
    History h{unsigned(grow)};
    ScalarSignal s("s"), other("other"), stranger("stranger");
    IntSignal i("i");
    BoolSignal b("b");
    ArraySignal a(2, "a");
    pse_assert(h.track(s), "a signal can be tracked");
    if (variant == 1) pse_assert(!h.track(s), "a signal is tracked at most once");
    pse_assert(h.track(other), "a signal can be tracked");
    pse_assert(h.track(i), "a signal can be tracked");
    pse_assert(h.track(b), "a signal can be tracked");
    pse_assert(h.track(a), "a signal can be tracked");
    if (variant == 1)
    {
        pse_assert(!h.track(a), "a signal is tracked at most once");
        pse_reach("duplicate");
    }
    if (variant == 2)
    {
        h.untrack(other);
        pse_reach("untracked");
    }
    if (variant == 3)
    {
        h.untrack(stranger);
        pse_reach("stranger");
    }
    if (grow == 0) pse_reach("nogrow");
    Bus bus({s, i});
    pse_assert(!h.track(bus), "a bus is not tracked");
    pse_assert(h.nrows() == 0, "no row before the first update");

    Row row[NROW];
    bool have[NROW] = {};
    int high        = -1;
    for (int u = 0; u < NUPD; u++)
    {
        if (shrinking && pse_choice("shrink", 2))
        {
            h.shrink_to_fit();
            pse_assert(int(h.nrows()) == high + 1, "shrinking keeps the number of rows");
            pse_reach("shrunk");
        }
        int k     = pse_choice("row", NROW);
        int unset = (k + u) % 5; // 0..3: that signal is unassigned, 4: none
        Row r;
        r.t  = pse_double("t");
        r.s  = pse_double("s");
        int iv = pse_int("i");
        bool bv = pse_bool("b");
        r.a0 = pse_double("a0");
        r.a1 = pse_double("a1");
        r.i  = iv;
        r.b  = pse_ite(bv, 1, 0);
        s->clear(), i->clear(), b->clear(), a->clear(), other->clear();
        Array av(2);
        av[0] = r.a0, av[1] = r.a1;
        if (unset != 0) s = r.s;
        else r.s = 0;
        if (unset != 1) i = iv;
        else r.i = 0;
        if (unset != 2) b = bv;
        else r.b = 0;
        if (unset != 3) a = av;
        else r.a0 = r.a1 = 0;
        if (unset != 4) pse_reach("unassigned");
        other = 7.5;
        if (have[k]) pse_reach("rewritten");
        h.update(unsigned(k), r.t);
        if (u && k >= grow) pse_reach("grown");
        row[k]  = r;
        have[k] = true;
        if (k > high) high = k;

        pse_assert(int(h.nrows()) == high + 1, "the number of rows is one more than the highest row");
        pse_assert(h.time().size() >= high + 1, "the times are stored");
        pse_assert(h.size() == (variant == 2 ? 4u : 5u), "exactly the tracked signals are recorded");
        if (variant == 2) pse_assert(raises([&] { (void)h[other]; }), "an untracked signal is not recorded");
        pse_assert(raises([&] { (void)h[stranger]; }), "a signal never tracked is not recorded");
        const auto &hs = h[s], &hi = h[i], &hb = h[b], &ha = h[a];
        pse_assert(hs.rows() >= high + 1 && hi.rows() >= high + 1 && hb.rows() >= high + 1 && ha.rows() >= high + 1, "the rows are stored");
        pse_assert(hs.cols() == 1 && hi.cols() == 1 && hb.cols() == 1 && ha.cols() == 2, "one column per element");
        bool ok = true, oko = true;
        for (int q = 0; q <= high; q++)
        {
            if (!have[q]) continue;
            ok = pse_and(ok, eqd(h.time()(q), row[q].t));
            ok = pse_and(ok, eqd(hs(q, 0), row[q].s));
            ok = pse_and(ok, eqd(hi(q, 0), row[q].i));
            ok = pse_and(ok, eqd(hb(q, 0), row[q].b));
            ok = pse_and(ok, eqd(ha(q, 0), row[q].a0));
            ok = pse_and(ok, eqd(ha(q, 1), row[q].a1));
            if (variant != 2) oko = pse_and(oko, eqd(h[other](q, 0), 7.5));
        }
        pse_assert(ok, "every updated row holds the time and the values of its update");
        pse_assert(oko, "another tracked signal is recorded as well");
    }
    h.shrink_to_fit();
    pse_assert(int(h.nrows()) == high + 1 && h.time().size() == high + 1 && h[s].rows() == high + 1 && h[a].rows() == high + 1, "shrunk to the rows recorded");
    bool ok = true;
    for (int q = 0; q <= high; q++)
        if (have[q])
            ok = pse_and(ok, pse_and(eqd(h.time()(q), row[q].t), pse_and(eqd(h[s](q, 0), row[q].s), pse_and(eqd(h[i](q, 0), row[q].i), pse_and(eqd(h[b](q, 0), row[q].b), pse_and(eqd(h[a](q, 0), row[q].a0), eqd(h[a](q, 1), row[q].a1)))))));
    pse_assert(ok, "shrinking alters no row");
}

//@ property C01
//@ theory fp
//@ modes debug release
//@ reach scalar int bool array reread cleared
//@ bounds every 64-bit double (including NaN, infinities, signed zero), every int, both bools; arrays of length 1..3; every sequence of 4 (thorough: 5) operations out of assign, read, clear, copy from another signal, assign an array of another length
//@ quick -DNOPS=4
//@ thorough -DNOPS=5
#include "common.hpp"
using namespace pooya;

static double fresh(double*) { return pse_double("v"); }
static int fresh(int*) { return pse_int("v"); }
static bool fresh(bool*) { return pse_bool("v"); }
static bool eqv(double a, double b) { return pse_same(a, b); }
static bool eqv(int a, int b) { return a == b; }
static bool eqv(bool a, bool b) { return a == b; }

template<typename T, typename Sig>
static void check_state(const Sig& s, bool assigned, T last)
{
    pse_assert(s->assigned() == assigned, "assigned status");
    if (assigned)
    {
        pse_assert(eqv(s->get_value(), last), "reads the value last assigned");
        pse_assert(eqv(T(s), last), "handle reads the value last assigned");
        Sig other(static_cast<const Signal&>(s));
        pse_assert(eqv(T(other), last), "another handle reads the same value");
    }
    else if (checked_build)
    {
        pse_assert(raises([&] { (void)s->get_value(); }), "reading an unassigned signal is an error");
        pse_assert(!s->assigned(), "a refused read leaves the status");
        pse_reach("refused");
    }
}

template<typename T, typename Sig>
static void run_simple()
{
    Sig s("s"), src("src");
    bool assigned = false, ever = false;
    T last{};
    check_state<T>(s, assigned, last);
    for (int k = 0; k < NOPS; k++)
    {
        int op = pse_choice("op", 4);
        if (op == 0 || op == 1)
        {
            T v = fresh(static_cast<T*>(nullptr));
            if (op == 1)
            {
                src->clear();
                src = v;
            }
            bool bad = raises(
                [&]
                {
                    if (op == 0) s = v;
                    else s = src;
                });
            if (assigned && checked_build)
            {
                pse_assert(bad, "assigning an assigned signal is an error");
                pse_reach("refused");
            }
            else
            {
                pse_assert(!bad, "assignment accepted");
                last     = v;
                assigned = true;
                if (ever) pse_reach("reread");
                ever = true;
            }
            if (op == 1) pse_assert(eqv(T(src), v), "the source of a copy keeps its value");
        }
        else if (op == 2)
        {
            s->clear();
            assigned = false;
            pse_reach("cleared");
        }
        else
        {
            // reading twice changes nothing
            check_state<T>(s, assigned, last);
        }
        check_state<T>(s, assigned, last);
    }
}

static void check_array(const ArraySignal& s, bool assigned, const Array& last)
{
    pse_assert(s->assigned() == assigned, "array: assigned status");
    if (assigned)
    {
        const Array& v = s;
        pse_assert(v.rows() == last.rows(), "array: length kept");
        pse_assert(same(v, last), "array: reads the value last assigned");
        for (int i = 0; i < last.rows(); i++) pse_assert(pse_same(s[std::size_t(i)], last[i]), "array: element access");
        pse_assert(same(s->get_value(), last), "array: get_value");
    }
    else if (checked_build)
    {
        pse_assert(raises([&] { (void)s->get_value(); }), "array: reading an unassigned signal is an error");
        pse_assert(raises([&] { (void)s[0]; }), "array: reading an element of an unassigned signal is an error");
        pse_assert(!s->assigned(), "array: a refused read leaves the status");
    }
}

static void run_array()
{
    int n = 1 + pse_choice("n", 3);
    ArraySignal s(n, "s"), src(n, "src");
    pse_assert(int(s->size()) == n, "array: size");
    bool assigned = false;
    Array last(n);
    check_array(s, assigned, last);
    for (int k = 0; k < NOPS; k++)
    {
        int op = pse_choice("op", checked_build ? 4 : 3);
        if (op == 0 || op == 1)
        {
            Array v(n);
            for (int i = 0; i < n; i++) v[i] = pse_double("v");
            if (op == 1)
            {
                src->clear();
                src = v;
            }
            bool bad = raises(
                [&]
                {
                    if (op == 0) s = v;
                    else s = src;
                });
            if (assigned && checked_build)
            {
                pse_assert(bad, "array: assigning an assigned signal is an error");
                pse_reach("refused");
            }
            else
            {
                pse_assert(!bad, "array: assignment accepted");
                last     = v;
                assigned = true;
            }
            // the signal holds a copy
            if (op == 0) v[0] = 17.5;
        }
        else if (op == 2)
        {
            s->clear();
            assigned = false;
        }
        else
        {
            int m = pse_choice("m", 5);
            if (m == n) pse_stop();
            Array v(m);
            for (int i = 0; i < m; i++) v[i] = pse_double("w");
            pse_assert(raises([&] { s = v; }), "array: assigning another length is an error");
            pse_reach("refused");
        }
        check_array(s, assigned, last);
    }
}

void pse_main()
{
    switch (pse_choice("kind", 4))
    {
    case 0:
        run_simple<double, ScalarSignal>();
        pse_reach("scalar");
        break;
    case 1:
        run_simple<int, IntSignal>();
        pse_reach("int");
        break;
    case 2:
        run_simple<bool, BoolSignal>();
        pse_reach("bool");
        break;
    case 3:
        run_array();
        pse_reach("array");
        break;
    }
}

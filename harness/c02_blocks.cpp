//@ property C02
//@ theory real
//@ modes debug release
//@ reach add adda mul mula sub suba div diva gain gaini gaina const pipe source siso so function sources dup
//@ bounds 1..NMAX inputs (quick 3, thorough 5), arrays of length 1..LMAX (quick 2, thorough 4), every input value in [-100,100] (divisors at least 0.01 away from 0, ints within +-30000), the same signal connected to several ports, two consecutive evaluations with unrelated values and times
//@ assume rounding is outside the REAL theory: results are compared up to 1e-6
//@ quick -DNMAX=3 -DLMAX=2
//@ thorough -DNMAX=5 -DLMAX=4
#include "common.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"
#include "src/block/extra/subtract.hpp"
using namespace pooya;

static void evaluate(Leaf& b, double t)
{
    b._mark_unprocessed();
    b.process(t);
}

static double time_of(int k) { return pse_double_in(nm("t", k).c_str(), -100, 100); }

// ---- n-ary add / multiply
template<typename T>
struct Kind;
template<>
struct Kind<double>
{
    using Sig = ScalarSignal;
    int n;
    explicit Kind(bool) : n(1) {}
    Sig make() const { return Sig(); }
    double val(const char* s, int k, double bound) const { return sym(s, k, bound); }
    double fill(double v) const { return v; }
};
template<>
struct Kind<Array>
{
    using Sig = ArraySignal;
    int n;
    explicit Kind(bool) : n(1 + pse_choice("len", LMAX)) {}
    Sig make() const { return Sig(n); }
    Array val(const char* s, int k, double bound) const
    {
        Array a(n);
        for (int i = 0; i < n; i++) a[i] = sym((nm(s, k) + "_").c_str(), i, bound);
        return a;
    }
    Array fill(double v) const
    {
        Array a(n);
        for (int i = 0; i < n; i++) a[i] = v;
        return a;
    }
};

// the bus list needs a static number of members
template<typename B, typename Sig>
static void connect_n(B& b, std::vector<Sig>& in, Sig& out)
{
    switch (in.size())
    {
    case 1: b.connect({in[0]}, {out}); break;
    case 2: b.connect({in[0], in[1]}, {out}); break;
    case 3: b.connect({in[0], in[1], in[2]}, {out}); break;
    case 4: b.connect({in[0], in[1], in[2], in[3]}, {out}); break;
    case 5: b.connect({in[0], in[1], in[2], in[3], in[4]}, {out}); break;
    }
}

template<typename T, template<typename> class Blk>
static void nary(bool mul)
{
    using Sig = typename Kind<T>::Sig;
    Kind<T> kind(true);
    int n        = 1 + pse_choice("inputs", NMAX);
    bool dflt    = pse_bool("default") ? true : false;
    bool dup     = n >= 2 && pse_choice("dup", 2) == 1;
    double bound = mul ? 5 : 100;
    T initial    = kind.fill(mul ? 1.0 : 0.0);
    // an array block has no usable default initial value
    if (std::is_same_v<T, Array>) dflt = false;
    if (!dflt) initial = kind.val("init", 0, bound);
    std::vector<Sig> in;
    for (int i = 0; i < n; i++) in.push_back(dup && i == n - 1 ? in[0] : kind.make());
    Sig out = kind.make();
    std::unique_ptr<Blk<T>> b;
    if constexpr (std::is_same_v<T, double>)
    {
        if (dflt) b = std::make_unique<Blk<T>>();
        else b = std::make_unique<Blk<T>>(initial);
    }
    else
        b = std::make_unique<Blk<T>>(initial);
    connect_n(*b, in, out);
    for (int k = 0; k < 2; k++)
    {
        T expect = initial;
        std::vector<T> v;
        out->clear();
        for (int i = 0; i < n; i++)
        {
            if (dup && i == n - 1) v.push_back(v[0]);
            else
            {
                v.push_back(kind.val("x", 10 * k + i, bound));
                in[i]->clear();
                in[i] = v[i];
            }
            if (mul) expect *= v[i];
            else expect += v[i];
        }
        evaluate(*b, time_of(k));
        pse_assert(out->assigned(), "output assigned");
        pse_assert(eq(out->get_value(), expect), mul ? "product of all inputs and the initial value" : "sum of all inputs and the initial value");
        for (int i = 0; i < n; i++) pse_assert(eq(in[i]->get_value(), v[i]), "inputs untouched");
    }
    if (dup) pse_reach("dup");
}

// ---- two operands
template<typename T, template<typename> class Blk>
static void binary(bool div)
{
    using Sig = typename Kind<T>::Sig;
    Kind<T> kind(true);
    bool dup = pse_choice("dup", 2) == 1;
    Sig a = kind.make(), b = dup ? a : kind.make(), out = kind.make();
    Blk<T> blk;
    blk.connect({a, b}, {out});
    for (int k = 0; k < 2; k++)
    {
        T x = kind.val("x", k, 100), y = dup ? x : kind.val("y", k, 100);
        if (div)
        {
            if constexpr (std::is_same_v<T, double>)
            {
                pse_assume(pse_or(y >= 0.01, y <= -0.01));
            }
            else
                for (int i = 0; i < kind.n; i++) pse_assume(pse_or(y[i] >= 0.01, y[i] <= -0.01));
        }
        a->clear();
        b->clear();
        out->clear();
        a = x;
        if (!dup) b = y;
        evaluate(blk, time_of(k));
        pse_assert(out->assigned(), "output assigned");
        T z = out->get_value();
        if (div)
        {
            T back = z * y;
            pse_assert(eq(back, x), "quotient of the first and the second input");
        }
        else
        {
            T expect = x - y;
            pse_assert(eq(z, expect), "difference of the first and the second input");
        }
    }
}

template<typename T>
static void gain()
{
    using Sig = typename Kind<T>::Sig;
    Kind<T> kind(true);
    double g = sym("g");
    Sig a = kind.make(), out = kind.make();
    GainT<T, double> blk(g);
    blk.connect({a}, {out});
    pse_assert(eq(blk.gain(), g), "gain()");
    for (int k = 0; k < 2; k++)
    {
        T x = kind.val("x", k, 100);
        a->clear();
        out->clear();
        a = x;
        evaluate(blk, time_of(k));
        T expect = x * g;
        pse_assert(eq(out->get_value(), expect), "gain times input");
    }
}

static void gaini()
{
    int g = pse_int_in("g", -30000, 30000);
    IntSignal a, out;
    GainI blk(g);
    blk.connect({a}, {out});
    for (int k = 0; k < 2; k++)
    {
        int x = pse_int_in("x", -30000, 30000);
        a->clear();
        out->clear();
        a = x;
        evaluate(blk, time_of(k));
        pse_assert(int(out) == g * x, "int: gain times input");
    }
}

static void pipes_consts()
{
    ScalarSignal a, b, c;
    IntSignal ia, ib;
    BoolSignal ba, bb;
    int n = 1 + pse_choice("len", LMAX);
    ArraySignal aa(n), ab(n), ac(n);
    Pipe p;
    PipeI pi;
    PipeB pb;
    PipeA pa;
    double cv = sym("c");
    Array cav = sym_array("ca", n);
    Const k(cv);
    ConstA ka(cav);
    p.connect({a}, {b});
    pi.connect({ia}, {ib});
    pb.connect({ba}, {bb});
    pa.connect({aa}, {ab});
    k.connect({}, {c});
    ka.connect({}, {ac});
    ConstT<int> ki(pse_int("ci"));
    IntSignal ic;
    ki.connect({}, {ic});
    int iconst = 0;
    for (int j = 0; j < 2; j++)
    {
        for (ValueSignalImpl* s : std::initializer_list<ValueSignalImpl*>{&a.impl(), &b.impl(), &c.impl(), &ia.impl(), &ib.impl(), &ba.impl(), &bb.impl(),
                                                                          &aa.impl(), &ab.impl(), &ac.impl(), &ic.impl()})
            s->clear();
        double v  = sym("v", j);
        int iv    = pse_int("iv");
        bool bv   = pse_bool("bv");
        Array av  = sym_array(j ? "aw" : "av", n);
        a         = v;
        ia        = iv;
        ba        = bv;
        aa        = av;
        double t  = time_of(j);
        for (Leaf* l : std::initializer_list<Leaf*>{&p, &pi, &pb, &pa, &k, &ka, &ki}) evaluate(*l, t);
        pse_assert(eq(double(b), v), "pipe");
        pse_assert(int(ib) == iv, "int pipe");
        pse_assert(bool(bb) == bv, "bool pipe");
        pse_assert(eq(ab->get_value(), av), "array pipe");
        pse_assert(eq(double(c), cv), "const");
        pse_assert(eq(ac->get_value(), cav), "array const");
        if (j) pse_assert(int(ic) == iconst, "int const");
        iconst = ic;
    }
    pse_reach("const");
    pse_reach("pipe");
}

static void sources()
{
    double p = sym("p"), q = sym("q");
    int n = 1 + pse_choice("len", LMAX);
    ScalarSignal o, o1, o2;
    IntSignal oi;
    ArraySignal oa(n);
    int iv = pse_int("iv");
    Source s([=](double t) { return p * t + q; });
    SourceI si([=](double t) { return t > 0 ? iv : -1; });
    SourceA sa([=](double t) -> Array
               {
                   Array a(n);
                   for (int i = 0; i < n; i++) a[i] = p * t + i;
                   return a;
               });
    Sources ss([=](const Bus& b, double t)
               {
                   ScalarSignal(b.at("a")) = p + t;
                   ScalarSignal(b.at("b")) = p - t;
               });
    s.connect({}, {o});
    si.connect({}, {oi});
    sa.connect({}, {oa});
    ss.connect({}, {{"a", o1}, {"b", o2}});
    for (int k = 0; k < 2; k++)
    {
        double t = time_of(k);
        o->clear(), oi->clear(), oa->clear(), o1->clear(), o2->clear();
        for (Leaf* l : std::initializer_list<Leaf*>{&s, &si, &sa, &ss}) evaluate(*l, t);
        pse_assert(eq(double(o), p * t + q), "source evaluated at the current time");
        pse_assert(int(oi) == (t > 0 ? iv : -1), "int source");
        for (int i = 0; i < n; i++) pse_assert(eq(oa[i], p * t + i), "array source");
        pse_assert(pse_and(eq(double(o1), p + t), eq(double(o2), p - t)), "sources");
    }
    pse_reach("source");
    pse_reach("sources");
}

static void functions()
{
    double p = sym("p");
    int n = 1 + pse_choice("len", LMAX);
    ScalarSignal x, y, o, oso, f1, f2;
    ArraySignal xa(n), oa(n), osa(n);
    SISOFunction f([=](double t, double v) { return p * v + t; });
    Array keep(n), keep2(n);
    SISOFunctionA fa([&](double t, const Array& v) -> const Array&
                     {
                         for (int i = 0; i < n; i++) keep[i] = p * v[i] + t;
                         return keep;
                     });
    SOFunction so([=](double t, const Bus& b) { return double(ScalarSignal(b.at("x"))) * 2 - double(ScalarSignal(b.at("y"))) + t; });
    SOFunctionA soa([&](double t, const Bus& b) -> const Array&
                    {
                        ArraySignal v(b.at(0));
                        for (int i = 0; i < n; i++) keep2[i] = v[i] - t;
                        return keep2;
                    });
    Function fn([=](double t, const Bus& i, const Bus& o)
                {
                    ScalarSignal(o.at(0)) = double(ScalarSignal(i.at(1))) + t;
                    ScalarSignal(o.at(1)) = double(ScalarSignal(i.at(0))) - p;
                });
    f.connect({x}, {o});
    fa.connect({xa}, {oa});
    so.connect({{"x", x}, {"y", y}}, {oso});
    soa.connect({xa}, {osa});
    fn.connect({x, y}, {f1, f2});
    for (int k = 0; k < 2; k++)
    {
        double t = time_of(k), xv = sym("x", k), yv = sym("y", k);
        Array av = sym_array(k ? "aw" : "av", n);
        x->clear(), y->clear(), o->clear(), oso->clear(), f1->clear(), f2->clear(), xa->clear(), oa->clear(), osa->clear();
        x  = xv;
        y  = yv;
        xa = av;
        for (Leaf* l : std::initializer_list<Leaf*>{&f, &fa, &so, &soa, &fn}) evaluate(*l, t);
        pse_assert(eq(double(o), p * xv + t), "siso function");
        pse_assert(eq(double(oso), 2 * xv - yv + t), "single-output function");
        pse_assert(pse_and(eq(double(f1), yv + t), eq(double(f2), xv - p)), "function");
        for (int i = 0; i < n; i++) pse_assert(pse_and(eq(oa[i], p * av[i] + t), eq(osa[i], av[i] - t)), "array functions");
    }
    pse_reach("siso");
    pse_reach("so");
    pse_reach("function");
}

void pse_main()
{
    switch (pse_choice("block", 14))
    {
    case 0: nary<double, AddT>(false); pse_reach("add"); break;
    case 1: nary<Array, AddT>(false); pse_reach("adda"); break;
    case 2: nary<double, MultiplyT>(true); pse_reach("mul"); break;
    case 3: nary<Array, MultiplyT>(true); pse_reach("mula"); break;
    case 4: binary<double, SubtractT>(false); pse_reach("sub"); break;
    case 5: binary<Array, SubtractT>(false); pse_reach("suba"); break;
    case 6: binary<double, DivideT>(true); pse_reach("div"); break;
    case 7: binary<Array, DivideT>(true); pse_reach("diva"); break;
    case 8: gain<double>(); pse_reach("gain"); break;
    case 9: gain<Array>(); pse_reach("gaina"); break;
    case 10: gaini(); pse_reach("gaini"); break;
    case 11: pipes_consts(); break;
    case 12: sources(); break;
    case 13: functions(); break;
    }
}

//@ property C02
//@ theory real
//@ modes debug release
//@ reach add multiply arrays blocks
//@ bounds larger instances: 6, 9 and 17 inputs of scalars and of arrays of length 17 for add (all values symbolic) and multiply (one symbolic, the others given); arrays of length 8, 17 and 33 through subtract, divide, gain, pipe, const, source and function blocks
#include "common.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/subtract.hpp"
using namespace pooya;

static void evaluate(Leaf& b)
{
    b._mark_unprocessed();
    b.process(0);
}
template<typename S>
static Bus bus_of(const std::vector<S>& s)
{
    if (s.size() == 6) return Bus({s[0], s[1], s[2], s[3], s[4], s[5]});
    if (s.size() == 9) return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]});
    return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16]});
}

static void nary(bool mul, bool arrays)
{
    static const int sizes[] = {6, 9, 17};
    int n   = sizes[pse_choice("inputs", 3)];
    int len = arrays ? 17 : 1;
    int one = mul ? (pse_choice("symbolic", 3) * (n - 1)) / 2 : -1;
    Array ini = Array::Constant(len, mul ? 1.5 : sym("ini")), expect = ini;
    std::vector<Array> v;
    for (int i = 0; i < n; i++)
    {
        Array a(len);
        for (int k = 0; k < len; k++) a[k] = mul && i != one ? 0.5 + 0.125 * i + (k % 4) * 0.03125 : sym(nm("x", i).c_str(), k, 10.0);
        v.push_back(a);
        if (mul) expect *= a;
        else expect += a;
    }
    Array got(len);
    if (arrays)
    {
        std::vector<ArraySignal> in;
        for (int i = 0; i < n; i++) in.push_back(ArraySignal(len, nm("in", i)));
        ArraySignal out(len, "out");
        std::unique_ptr<Leaf> b;
        if (mul) b = std::make_unique<MultiplyA>(ini);
        else b = std::make_unique<AddA>(ini);
        b->connect(bus_of(in), {out});
        for (int i = 0; i < n; i++) in[i] = v[i];
        evaluate(*b);
        pse_assert(out->assigned(), "evaluated");
        got = out->get_value();
        pse_reach("arrays");
    }
    else
    {
        std::vector<ScalarSignal> in;
        for (int i = 0; i < n; i++) in.push_back(ScalarSignal(nm("in", i)));
        ScalarSignal out("out");
        std::unique_ptr<Leaf> b;
        if (mul) b = std::make_unique<Multiply>(ini[0]);
        else b = std::make_unique<Add>(ini[0]);
        b->connect(bus_of(in), {out});
        for (int i = 0; i < n; i++) in[i] = v[i][0];
        evaluate(*b);
        pse_assert(out->assigned(), "evaluated");
        got[0] = out;
    }
    pse_assert(eq(got, expect), mul ? "product of all inputs and the initial value" : "sum of all inputs and the initial value");
    pse_reach(mul ? "multiply" : "add");
}

static void blocks()
{
    static const int lengths[] = {8, 17, 33};
    int n = lengths[pse_choice("length", 3)];
    Array x = sym_array("x", n, 10), y = sym_array("y", n, 10), c(n);
    for (int i = 0; i < n; i++) c[i] = 0.5 + 0.25 * i;
    ArraySignal a(n, "a"), b(n, "b"), cs(n, "c"), o[7] = {ArraySignal(n), ArraySignal(n), ArraySignal(n), ArraySignal(n), ArraySignal(n), ArraySignal(n), ArraySignal(n)};
    SubtractA sub;
    DivideA div;
    GainA gain(3);
    PipeA pipe;
    ConstA con(y);
    SourceA src([&](double) -> Array { return y * 2; });
    SISOFunctionA fn([&](double, const Array& v) -> Array { return v + y; });
    sub.connect({a, b}, {o[0]});
    div.connect({a, cs}, {o[1]});
    gain.connect({a}, {o[2]});
    pipe.connect({a}, {o[3]});
    con.connect({}, {o[4]});
    src.connect({}, {o[5]});
    fn.connect({a}, {o[6]});
    a  = x;
    b  = y;
    cs = c;
    for (Leaf* l : std::initializer_list<Leaf*>{&sub, &div, &gain, &pipe, &con, &src, &fn}) evaluate(*l);
    pse_assert(eq(o[0]->get_value(), Array(x - y)), "difference");
    pse_assert(eq(Array(o[1]->get_value() * c), x), "quotient");
    pse_assert(eq(o[2]->get_value(), Array(3 * x)), "gain");
    pse_assert(eq(o[3]->get_value(), x), "pipe");
    pse_assert(eq(o[4]->get_value(), y), "const");
    pse_assert(eq(o[5]->get_value(), Array(2 * y)), "source");
    pse_assert(eq(o[6]->get_value(), Array(x + y)), "function");
    pse_reach("blocks");
}

void pse_main()
{
    int what = pse_choice("what", 5);
    if (what == 4) blocks();
    else nary(what % 2, what / 2);
}

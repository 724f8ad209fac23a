//@ property C20
//@ theory fp
//@ modes debug release
//@ reach many accepted refused waiting group
//@ bounds larger instances: functions and submodels that declare 17 inputs and 9 outputs, connected with the declared numbers or one more or fewer; add and multiply with 17 inputs of which any one is of another kind or unassigned; a group of 9 sources
#include "models.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/sources.hpp"
using namespace pooya;

static Bus bus_of(const std::vector<Signal>& s)
{
    switch (s.size())
    {
    case 8: return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]});
    case 9: return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]});
    case 10: return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9]});
    case 16: return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]});
    case 17: return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16]});
    default: return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17]});
    }
}
static std::vector<Signal> signals(int n, const char* base)
{
    std::vector<Signal> r;
    for (int k = 0; k < n; k++) r.push_back(ScalarSignal(nm(base, k)));
    return r;
}

static void counts()
{
    int ni = 16 + pse_choice("inputs", 3), no = 8 + pse_choice("outputs", 3), what = pse_choice("what", 2);
    Submodel top(nullptr, "top");
    std::unique_ptr<Block> b;
    if (what == 0) b = std::make_unique<Function>([](double, const Bus&, const Bus&) {}, &top, "f", 17, 9);
    else b = std::make_unique<Submodel>(&top, "s", 17, 9);
    bool ok = false, err = raises([&] { ok = b->connect(bus_of(signals(ni, "i")), bus_of(signals(no, "o"))); });
    bool fits = ni == 17 && no == 9;
    pse_assert((ok && !err) == fits, "the declared numbers of ports, no more and no fewer");
    if (fits)
    {
        pse_assert(b->ibus().size() == 17 && b->obus().size() == 9, "the ports are the given signals");
        pse_reach("accepted");
    }
    else
        pse_reach("refused");
}

static void many()
{
    constexpr int N = 17;
    bool mul = pse_choice("multiply", 2);
    int bad = pse_choice("bad", N), what = pse_choice("how", 2);
    auto in = signals(N, "i");
    std::vector<double> v(N, 1);
    for (int k = 0; k < N; k += 4) v[k] = pse_double("v");
    if (what == 1) in[bad] = BoolSignal("bad");
    ScalarSignal out("out");
    std::unique_ptr<Leaf> b;
    if (mul) b = std::make_unique<Multiply>();
    else b = std::make_unique<Add>();
    bool ok = false, err = raises([&] { ok = b->connect(bus_of(in), {out}); });
    if (what == 1)
    {
        if (checked_build)
        {
            pse_assert(err || !ok, "a signal of another kind is refused");
            pse_reach("refused");
        }
        return;
    }
    pse_assert(ok && !err, "any number of inputs");
    if (pse_choice("marked", 2)) b->_mark_unprocessed();
    pse_assert(!b->processed(), "a block is not processed before it is evaluated");
    for (int k = 0; k < N; k++)
        if (k != bad) ScalarSignal(static_cast<const Signal&>(in[k])) = v[k];
    b->process(0);
    pse_assert(!b->processed() && !out->assigned(), "a block waits for all of its inputs");
    pse_reach("waiting");
    ScalarSignal(static_cast<const Signal&>(in[bad])) = v[bad];
    b->process(0);
    pse_assert(b->processed() && out->assigned(), "and is evaluated when they are there");
    pse_reach("many");
}

static void group()
{
    constexpr int N = 9;
    double v[N];
    for (double& x : v) x = pse_double("v");
    auto out = signals(N, "o");
    Sources b([&](const Bus& o, double) {
        for (int k = 0; k < N; k++) ScalarSignal(o.at(k)) = v[k];
    });
    bool ok = b.connect({}, bus_of(out));
    pse_assert(ok, "any number of outputs");
    b._mark_unprocessed();
    b.process(0);
    for (int k = 0; k < N; k++) pse_assert(pse_same(ScalarSignal(out[k])->get_value(), v[k]), "every output has its own value");
    pse_reach("group");
}

void pse_main()
{
    switch (pse_choice("kind", 3))
    {
    case 0: counts(); break;
    case 1: many(); break;
    case 2: group(); break;
    }
}

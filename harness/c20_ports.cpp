//@ property C20
//@ theory fp
//@ modes debug release
//@ reach accepted refused-count refused-kind refused-again declared processed waiting repeated members loop
//@ bounds every block of the library (34 instantiations) with 0..NIN inputs (quick 3, thorough 4) and 0..2 outputs; any one port given a signal of any of the five kinds, the others their own; a signal given twice, as inputs or as input and output; every subset of unassigned required signals; functions, source groups and submodels with every declared 16-bit number of ports
//@ quick -DNIN=3
//@ thorough -DNIN=4
#include "models.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/sources.hpp"
using namespace pooya;

enum Kind { SC, IN, BO, AR, BU };
static Signal make(Kind k)
{
    switch (k)
    {
    case SC: return ScalarSignal();
    case IN: return IntSignal();
    case BO: return BoolSignal();
    case AR: return ArraySignal(2);
    default: return Bus({static_cast<const Signal&>(ScalarSignal("inner"))});
    }
}
static void assign(const Signal& s)
{
    if (auto* p = dynamic_cast<ScalarSignalImpl*>(&s.impl())) p->set_value(1.5);
    if (auto* p = dynamic_cast<IntSignalImpl*>(&s.impl())) p->set_value(3);
    if (auto* p = dynamic_cast<BoolSignalImpl*>(&s.impl())) p->set_value(true);
    if (auto* p = dynamic_cast<ArraySignalImpl*>(&s.impl())) p->set_value(Array(Array::Zero(2)));
}
static ValueSignalImpl* value_of(const Signal& s) { return dynamic_cast<ValueSignalImpl*>(&s.impl()); }

struct Spec
{
    std::unique_ptr<Block> block;
    std::vector<Kind> in, out;           // kinds of the ports
    std::vector<const char*> label{};    // labels of the inputs, if needed
    std::vector<bool> req{};             // inputs that must be assigned before the block is processed (default: all)
    bool outreq{false};                  // the output must be assigned before (states)
    bool any_in{false};                  // any number of inputs of the first kind
    bool untyped_any{false};             // any signals
    bool checked_kinds_only{false};      // input kinds are verified in a checked build only
};

static Spec spec(int b)
{
    Array z = Array::Zero(2);
    auto mk = [](Block* p, std::vector<Kind> in, std::vector<Kind> out)
    {
        Spec s;
        s.block.reset(p);
        s.in = in, s.out = out;
        return s;
    };
    switch (b)
    {
    case 0: { auto s = mk(new Add, {SC, SC}, {SC}); s.any_in = s.checked_kinds_only = true; return s; }
    case 1: { auto s = mk(new AddA(z), {AR, AR}, {AR}); s.any_in = s.checked_kinds_only = true; return s; }
    case 2: { auto s = mk(new Multiply, {SC, SC}, {SC}); s.any_in = s.checked_kinds_only = true; return s; }
    case 3: { auto s = mk(new MultiplyA(z), {AR, AR}, {AR}); s.any_in = s.checked_kinds_only = true; return s; }
    case 4: return mk(new Const(1.0), {}, {SC});
    case 5: return mk(new ConstA(z), {}, {AR});
    case 6: { auto s = mk(new Delay(1.0), {SC, SC, SC}, {SC}); s.label = {"delay", "in", "initial"}; return s; }
    case 7: { auto s = mk(new DelayA(1.0), {SC, AR, AR}, {AR}); s.label = {"delay", "in", "initial"}; return s; }
    case 8: return mk(new Derivative, {SC}, {SC});
    case 9: return mk(new DerivativeA(z), {AR}, {AR});
    case 10: return mk(new Divide, {SC, SC}, {SC});
    case 11: return mk(new DivideA, {AR, AR}, {AR});
    case 12: return mk(new Gain(2.0), {SC}, {SC});
    case 13: return mk(new GainI(2), {IN}, {IN});
    case 14: return mk(new GainA(2.0), {AR}, {AR});
    case 15: return mk(new InitialValue, {SC}, {SC});
    case 16: return mk(new InitialValueA, {AR}, {AR});
    case 17: { auto s = mk(new Memory(1.0), {SC}, {SC}); s.req = {false}; return s; }
    case 18: { auto s = mk(new MemoryI(1), {IN}, {IN}); s.req = {false}; return s; }
    case 19: { auto s = mk(new MemoryB(true), {BO}, {BO}); s.req = {false}; return s; }
    case 20: { auto s = mk(new MemoryA(z), {AR}, {AR}); s.req = {false}; return s; }
    case 21: return mk(new Pipe, {SC}, {SC});
    case 22: return mk(new PipeI, {IN}, {IN});
    case 23: return mk(new PipeB, {BO}, {BO});
    case 24: return mk(new PipeA, {AR}, {AR});
    case 25: return mk(new SISOFunction([](double, double x) { return x; }), {SC}, {SC});
    case 26: return mk(new SISOFunctionA([](double, const Array& x) -> const Array& { return x; }), {AR}, {AR});
    case 27: return mk(new Subtract, {SC, SC}, {SC});
    case 28: return mk(new SubtractA, {AR, AR}, {AR});
    case 29: { auto s = mk(new Integrator(0.0), {SC}, {SC}); s.req = {false}; s.outreq = true; return s; }
    case 30: { auto s = mk(new IntegratorA(z), {AR}, {AR}); s.req = {false}; s.outreq = true; return s; }
    case 31: { auto s = mk(new TriggeredIntegrator(0.0), {SC, BO}, {SC}); s.label = {"d", "trigger"}; s.req = {false, true}; s.outreq = true; return s; }
    case 32: { auto s = mk(new TriggeredIntegratorA(z), {AR, BO}, {AR}); s.label = {"d", "trigger"}; s.req = {false, true}; s.outreq = true; return s; }
    default: return mk(new SOFunction([](double, const Bus&) { return 1.0; }, nullptr, "", 2), {SC, SC}, {SC});
    }
}
constexpr int NSPECS = 34;

static Bus bus_of(const std::vector<Signal>& s, const std::vector<const char*>& labels)
{
    auto L = [&](std::size_t i) -> std::string { return i < labels.size() ? labels[i] : "more" + std::to_string(i); };
    if (labels.empty()) return make_bus(s);
    using P = std::pair<std::string, Signal>;
    switch (s.size())
    {
    case 0: return Bus();
    case 1: return Bus({P{L(0), s[0]}});
    case 2: return Bus({P{L(0), s[0]}, P{L(1), s[1]}});
    case 3: return Bus({P{L(0), s[0]}, P{L(1), s[1]}, P{L(2), s[2]}});
    default: return Bus({P{L(0), s[0]}, P{L(1), s[1]}, P{L(2), s[2]}, P{L(3), s[3]}});
    }
}

// the linked signals are exactly the given ones
static void check_links(const Block& b, const std::vector<Signal>& in, const std::vector<Signal>& out)
{
    std::vector<ValueSignalImpl*> want;
    for (auto* v : {&in, &out})
        for (auto& s : *v)
            if (auto* p = value_of(s))
                if (std::find(want.begin(), want.end(), p) == want.end()) want.push_back(p);
    auto& links = b.linked_signals();
    pse_assert(links.size() == want.size(), "the block depends on exactly the signals connected to it");
    for (auto* p : want)
    {
        int n = 0;
        uint32_t types = 0;
        for (auto& l : links)
            if (l.first.get() == p) n++, types = l.second;
        bool isin = false, isout = false;
        for (auto& s : in) isin |= value_of(s) == p;
        for (auto& s : out) isout |= value_of(s) == p;
        pse_assert(n == 1, "every connected signal is linked once");
        pse_assert(bool(types & Block::Input) == isin && bool(types & Block::Output) == isout, "as input or output");
    }
    pse_assert(b.ibus().size() == in.size() && b.obus().size() == out.size(), "the buses");
    for (std::size_t i = 0; i < in.size(); i++) pse_assert(&b.ibus().at(i).impl() == &in[i].impl(), "the input bus");
    for (std::size_t i = 0; i < out.size(); i++) pse_assert(&b.obus().at(i).impl() == &out[i].impl(), "the output bus");
}

static bool try_connect(Block& b, const Bus& i, const Bus& o, bool& ret)
{
    std::size_t d = trace_depth();
    ret           = false;
    bool err      = raises([&] { ret = b.connect(i, o); });
    pse_assert(trace_depth() == d, "trace depth");
    return err;
}

static void library()
{
    int which = pse_choice("block", NSPECS);
    Spec s    = spec(which);
    Block& b  = *s.block;
    int nin = pse_choice("nin", NIN + 1), nout = pse_choice("nout", 3);
    if (s.any_in) pse_assume(nin > 0);
    bool count = (s.any_in || nin == int(s.in.size())) && nout == int(s.out.size());
    // the kinds: right but for at most one
    std::vector<Kind> ik, ok;
    for (int i = 0; i < nin; i++) ik.push_back(i < int(s.in.size()) ? s.in[i] : s.in.size() ? s.in[0] : SC);
    for (int i = 0; i < nout; i++) ok.push_back(s.out[0]);
    bool kinds = true, inkinds = true;
    int odd = nin + nout ? pse_choice("odd", nin + nout + 1) - 1 : -1;
    if (odd >= 0)
    {
        Kind& k  = odd < nin ? ik[odd] : ok[odd - nin];
        Kind k2  = Kind(pse_choice("kind", 5));
        pse_assume(k2 != k);
        k     = k2;
        kinds = false;
        if (odd < nin) inkinds = false;
    }
    if (which == 33 && !inkinds) kinds = true; // reads what it likes
    if (s.checked_kinds_only && !inkinds) pse_assume(checked_build);
    std::vector<Signal> in, out;
    for (auto k : ik) in.push_back(make(k));
    for (auto k : ok) out.push_back(make(k));
    // the same signal given twice
    bool twice = count && kinds && nin >= 2 && ik[0] == ik[1] && pse_choice("twice", 2);
    if (twice) in[1] = Signal(in[0].impl());
    // an input that is the output, too
    bool loop = count && kinds && !twice && nout == 1 && nin >= 1 && ik[0] == ok[0] && pse_choice("loop", 2);
    if (loop) out[0] = Signal(in[0].impl());
    Bus ib = bus_of(in, s.label), ob = make_bus(out);
    bool ret;
    bool err = try_connect(b, ib, ob, ret);
    pse_assert(err == !(count && kinds), "a block can be connected exactly as it declares");
    if (count && kinds)
    {
        pse_assert(ret && b.connected(), "connected");
        pse_reach("accepted");
    }
    if (!count)
    {
        pse_assert(!b.connected(), "a refused number of ports leaves the block unconnected");
        pse_assert(b.linked_signals().empty() && b.ibus().size() == 0 && b.obus().size() == 0, "and without signals");
        pse_reach("refused-count");
        // still connectable
        in.clear(), out.clear(), ik = s.in, ok = s.out;
        for (auto k : ik) in.push_back(make(k));
        for (auto k : ok) out.push_back(make(k));
        ib.reset(bus_of(in, s.label));
        ob.reset(make_bus(out));
        err = try_connect(b, ib, ob, ret);
        pse_assert(!err && ret && b.connected(), "a block that was refused can still be connected");
    }
    else if (!kinds)
    {
        pse_reach("refused-kind");
        return;
    }
    check_links(b, in, out);
    // again
    {
        std::vector<Signal> in2, out2;
        for (auto k : ik) in2.push_back(make(k));
        for (auto k : ok) out2.push_back(make(k));
        int how = pse_choice("again", 3);
        if (how == 1) in2.push_back(make(SC));
        err = how == 2 ? try_connect(b, ib, ob, ret) : try_connect(b, bus_of(in2, s.label), make_bus(out2), ret);
        pse_assert(err, "a connected block cannot be connected again");
        pse_assert(b.connected(), "it stays connected");
        check_links(b, in, out);
        pse_reach("refused-again");
        if (how) return;
    }
    if (loop)
    {
        pse_reach("loop");
        return;
    }
    // it waits for exactly what it needs
    std::vector<Signal> need, other;
    for (std::size_t i = 0; i < in.size(); i++)
        (i < s.req.size() && !s.req[i] ? other : need).push_back(in[i]);
    if (s.outreq) need.push_back(out[0]);
    else other.push_back(out[0]);
    int missing = pse_choice("missing", int(need.size()) + 1) - 1;
    if (missing >= 0)
    {
        for (std::size_t i = 0; i < need.size(); i++)
            if (int(i) != missing && &need[i].impl() != &need[missing].impl() && value_of(need[i]) && !value_of(need[i])->assigned()) assign(need[i]);
        if (value_of(need[missing]))
        {
            b._mark_unprocessed();
            b.process(0.0);
            pse_assert(!b.processed(), "a block waits for its inputs");
            if (!s.outreq) pse_assert(!value_of(out[0])->assigned(), "a block that waits assigns nothing");
            pse_reach("waiting");
        }
    }
    for (auto& n : need)
        if (value_of(n) && !value_of(n)->assigned()) assign(n);
    b._mark_unprocessed();
    b.process(0.0);
    pse_assert(b.processed(), "a block is processed once its inputs are there");
    pse_assert(value_of(out[0])->assigned(), "and assigns its output");
    pse_reach("processed");
    if (twice) pse_reach("repeated");
}

// arbitrary declared numbers of ports
static void declared()
{
    auto u16 = [](const char* n) { return uint16_t(pse_int(n)); };
    int kind = pse_choice("kind", 4);
    uint16_t ni = kind == 1 ? 0 : u16("ni"), no = kind == 3 ? 1 : u16("no");
    std::unique_ptr<Block> b;
    Submodel top(nullptr, "top");
    if (kind == 0) b = std::make_unique<Function>([](double, const Bus&, const Bus&) {}, &top, "f", ni, no);
    if (kind == 1) b = std::make_unique<Sources>([](const Bus&, double) {}, &top, "s", no);
    if (kind == 2) b = std::make_unique<Submodel>(&top, "m", ni, no);
    if (kind == 3) b = std::make_unique<SOFunction>([](double, const Bus&) { return 1.0; }, &top, "g", ni);
    int n = pse_choice("n", NIN + 1), m = pse_choice("m", NIN + 1);
    std::vector<Signal> in, out;
    for (int i = 0; i < n; i++) in.push_back(make(i ? Kind(i) : SC));
    for (int i = 0; i < m; i++) out.push_back(make(i ? Kind(i) : SC));
    Bus ib = make_bus(in), ob = make_bus(out);
    bool ret;
    bool err = try_connect(*b, ib, ob, ret);
    bool ok  = pse_and(pse_or(ni == Block::NoIOLimit, int(ni) == n), pse_or(no == Block::NoIOLimit, int(no) == m));
    pse_assert(err == !ok, "the numbers of ports are those declared");
    pse_assert(b->connected() == ok, "connected or not");
    if (!err)
    {
        check_links(*b, in, out);
        err = try_connect(*b, ib, ob, ret);
        pse_assert(err, "a connected block cannot be connected again");
        check_links(*b, in, out);
    }
    else pse_assert(b->linked_signals().empty() && b->ibus().size() == 0, "nothing linked");
    pse_reach("declared");
}

// a derived block that reads members of nested buses depends on them too
class Reader : public Leaf
{
public:
    Reader() : Leaf(nullptr, "reader", 1, 1) {}
    bool connect(const Bus& i, const Bus& o) override
    {
        if (!Leaf::connect(i, o)) return false;
        input("m.x");
        input("m.x");
        output(0);
        return true;
    }
};
static void members()
{
    ScalarSignal x("x"), y("y"), z("z");
    Bus m({{"x", x}, {"y", y}});
    Reader r;
    r.connect(Bus({{"m", m}}), Bus({static_cast<const Signal&>(z)}));
    auto& l = r.linked_signals();
    pse_assert(l.size() == 2, "the members asked for are linked, the others are not");
    for (auto& p : l) pse_assert(p.first.get() == &x.impl() || p.first.get() == &z.impl(), "the member asked for");
    bool a = pse_bool("ax"), c = pse_bool("ay");
    if (a) x = 1.0;
    if (c) y = 1.0;
    r._mark_unprocessed();
    r.process(0.0);
    pse_assert(r.processed() == a, "waits for the member asked for only");
    pse_reach("members");
}

void pse_main()
{
    switch (pse_choice("what", 3))
    {
    case 0: library(); break;
    case 1: declared(); break;
    case 2: members(); break;
    }
}

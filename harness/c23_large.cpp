//@ property C23
//@ theory fp
//@ modes debug release
//@ reach memory pipe wide deep excluded
//@ bounds larger instances: buses with 18 members of all four kinds (arrays of length 9) and buses nested 6 deep with 2 members on each level, none, one or several of them excluded, some with initial values; initialization and 3 steps by the plain and the fast simulator; arbitrary values of every kind
#include "models.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
using namespace pooya;
using P = std::pair<std::string, Signal>;
constexpr int LEN = 9;

struct Member
{
    std::string label;
    int kind;
    Signal sig;
};
static Signal make(int kind)
{
    switch (kind)
    {
    case 0: return ScalarSignal();
    case 1: return IntSignal();
    case 2: return BoolSignal();
    default: return ArraySignal(LEN);
    }
}
struct Value
{
    double d{};
    int i{};
    bool b{};
    Array a{Array::Zero(LEN)};
    static Value any()
    {
        Value v;
        v.d = pse_double("d"), v.i = pse_int("i"), v.b = pse_bool("b");
        for (int k = 0; k < LEN; k++) v.a[k] = k % 3 ? k : pse_double("a");
        return v;
    }
};
static void set(const Member& m, const Value& v)
{
    switch (m.kind)
    {
    case 0: ScalarSignal(m.sig) = v.d; break;
    case 1: IntSignal(m.sig) = v.i; break;
    case 2: BoolSignal(m.sig) = v.b; break;
    default: ArraySignal(m.sig) = v.a;
    }
}
static bool holds(const Member& m, const Value& v)
{
    switch (m.kind)
    {
    case 0: return pse_same(ScalarSignal(m.sig)->get_value(), v.d);
    case 1: return IntSignal(m.sig)->get_value() == v.i;
    case 2: return BoolSignal(m.sig)->get_value() == v.b;
    default: return same(ArraySignal(m.sig)->get_value(), v.a);
    }
}

static Bus wide(std::vector<Member>& ms)
{
    for (int k = 0; k < 18; k++) ms.push_back({nm("m", k), k % 4, make(k % 4)});
    auto p = [&](int k) { return P{ms[k].label, ms[k].sig}; };
    return Bus({p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8), p(9), p(10), p(11), p(12), p(13), p(14), p(15), p(16), p(17)});
}
static Bus deep(std::vector<Member>& ms)
{
    constexpr int D = 6;
    std::unique_ptr<Bus> b;
    for (int d = D - 1; d >= 0; d--)
    {
        std::string path;
        for (int k = 0; k < d; k++) path += "n.";
        ms.push_back({path + "x", d % 4, make(d % 4)});
        Signal x = ms.back().sig;
        if (!b) b = std::make_unique<Bus>(Bus({P{"x", x}}));
        else
        {
            ms.push_back({path + "y", (d + 1) % 4, make((d + 1) % 4)});
            b = std::make_unique<Bus>(d % 2 ? Bus({P{"n", *b}, P{"x", x}, P{"y", ms.back().sig}}) : Bus({P{"y", ms.back().sig}, P{"x", x}, P{"n", *b}}));
        }
    }
    return *b;
}

void pse_main()
{
    bool memory = pse_choice("memory", 2), isdeep = pse_choice("deep", 2);
    int ex = pse_choice("excluded", 3), sk = pse_choice("simulator", 2);
    std::vector<Member> in, out;
    Bus ib = isdeep ? deep(in) : wide(in), ob = isdeep ? deep(out) : wide(out);
    std::string e1 = isdeep ? "n.n.n.x" : "m15", e2 = isdeep ? "n.n.n.n.n" : "m02";
    auto excluded  = [&](const std::string& l)
    {
        auto is = [&](const std::string& e) { return l == e || l.substr(0, e.size() + 1) == e + "."; };
        return (ex >= 1 && is(e1)) || (ex == 2 && is(e2));
    };
    Submodel top(nullptr, "top");
    double i0 = pse_double("ini0");
    int i1    = pse_int("ini1");
    Array i3  = Array::Constant(LEN, 1.0);
    i3[7]     = pse_double("ini3");
    // initial values of one member of each of three kinds
    std::string l0 = isdeep ? "x" : "m16", l1 = isdeep ? "y" : "m17", l3 = isdeep ? "n.n.y" : "m03";
    std::unique_ptr<BusBlockBuilder> blk;
    std::initializer_list<std::string> x0 = {}, x1 = {e1}, x2 = {e1, e2};
    if (memory) blk = std::make_unique<BusMemory>(top, std::initializer_list<BusMemory::LabelValue>{{l0, i0}, {l1, i1}, {l3, i3}}, ex == 0 ? x0 : ex == 1 ? x1 : x2);
    else blk = std::make_unique<BusPipe>(top, ex == 0 ? x0 : ex == 1 ? x1 : x2);
    blk->connect(ib, ob);
    std::vector<Value> now(in.size()), last(in.size());
    auto cb = [&](Block&, double)
    {
        for (std::size_t k = 0; k < in.size(); k++)
            if (!excluded(in[k].label)) set(in[k], now[k]);
    };
    std::unique_ptr<SimulatorBase> sim;
    if (sk) sim = std::make_unique<FastSimulator>(top, cb);
    else sim = std::make_unique<Simulator>(top, cb);
    for (int s = 0; s <= 3; s++)
    {
        for (std::size_t k = 0; k < in.size(); k++) last[k] = now[k], now[k] = Value::any();
        if (s == 0) sim->init(0);
        else sim->run(s);
        bool ok = true;
        for (std::size_t k = 0; k < out.size(); k++)
        {
            auto& m = out[k];
            bool as = dynamic_cast<ValueSignalImpl&>(m.sig.impl()).assigned();
            pse_assert(as != excluded(m.label), "every member is assigned, except excluded ones");
            if (!as)
            {
                pse_reach("excluded");
                continue;
            }
            if (!memory) ok = pse_and(ok, holds(m, now[k]));
            else if (s) ok = pse_and(ok, holds(m, last[k]));
            else
            {
                Value v;
                if (m.label == l0) v.d = i0;
                if (m.label == l1) v.i = i1;
                if (m.label == l3) v.a = i3;
                ok = pse_and(ok, holds(m, v));
            }
        }
        pse_assert(ok, memory ? "every member is remembered separately" : "every member is passed on separately");
    }
    pse_reach(memory ? "memory" : "pipe"), pse_reach(isdeep ? "deep" : "wide");
}

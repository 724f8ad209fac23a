//@ property C23
//@ theory fp
//@ modes debug release
//@ reach memory pipe excluded initial unmatched wrongtype nested unlabelled permuted plain reuse fast
//@ bounds two bus shapes (labelled members of all four kinds at three depths; unlabelled members with a nested bus), both buses with members in the same or another order, any subset of NEX excluded labels (members and whole nested buses, quick 4, thorough 6) and any subset of initial values (matching, of another kind, or matching nothing), arbitrary initial values and inputs of every kind, initialization and NSTEPS steps by any of the 3 simulators
//@ quick -DNSTEPS=2 -DNEX=4
//@ thorough -DNSTEPS=3 -DNEX=6
#include "models.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
using namespace pooya;

struct Member
{
    std::string label;
    Signal sig;
};
static Signal S(const Signal& s) { return s; }

// the bus of a shape and its members under their full labels
static Bus make_shape(int shape, bool other, std::vector<Member>& ms)
{
    ScalarSignal a("a"), b("b");
    IntSignal i("i");
    BoolSignal o("o");
    ArraySignal r(2, "r");
    using P = std::pair<std::string, Signal>;
    if (shape == 0)
    {
        Bus q = other ? Bus({P{"r", r}, P{"o", o}}) : Bus({P{"o", o}, P{"r", r}});
        Bus z = other ? Bus({P{"q", q}, P{"i", i}}) : Bus({P{"i", i}, P{"q", q}});
        Bus t = other ? Bus({P{"z", z}, P{"i", b}, P{"a", a}}) : Bus({P{"a", a}, P{"z", z}, P{"i", b}});
        ms    = {{"a", S(a)}, {"i", S(b)}, {"z.i", S(i)}, {"z.q.o", S(o)}, {"z.q.r", S(r)}};
        return t;
    }
    Bus z({S(a), S(i)});
    ms = {{"sig0.sig0", S(a)}, {"sig0.sig1", S(i)}, {"sig1", S(o)}};
    return Bus({S(z), S(o)});
}

// a value of any kind
struct Value
{
    double d{};
    int i{};
    bool b{};
    Array a{Array::Zero(2)};
    static Value any(const std::string& n)
    {
        Value v;
        v.d    = pse_double((n + "d").c_str());
        v.i    = pse_int((n + "i").c_str());
        v.b    = pse_bool((n + "b").c_str());
        v.a[0] = pse_double((n + "x").c_str());
        v.a[1] = pse_double((n + "y").c_str());
        return v;
    }
};
static int kind_of(const Signal& s)
{
    if (dynamic_cast<ScalarSignalImpl*>(&s.impl())) return 0;
    if (dynamic_cast<IntSignalImpl*>(&s.impl())) return 1;
    if (dynamic_cast<BoolSignalImpl*>(&s.impl())) return 2;
    return 3;
}
static void set(const Signal& s, const Value& v)
{
    switch (kind_of(s))
    {
    case 0: dynamic_cast<ScalarSignalImpl&>(s.impl()).set_value(v.d); break;
    case 1: dynamic_cast<IntSignalImpl&>(s.impl()).set_value(v.i); break;
    case 2: dynamic_cast<BoolSignalImpl&>(s.impl()).set_value(v.b); break;
    case 3: dynamic_cast<ArraySignalImpl&>(s.impl()).set_value(v.a); break;
    }
}
static bool holds(const Signal& s, const Value& v)
{
    switch (kind_of(s))
    {
    case 0: return pse_same(dynamic_cast<ScalarSignalImpl&>(s.impl()).get_value(), v.d);
    case 1: return dynamic_cast<IntSignalImpl&>(s.impl()).get_value() == v.i;
    case 2: return dynamic_cast<BoolSignalImpl&>(s.impl()).get_value() == v.b;
    default: return same(dynamic_cast<ArraySignalImpl&>(s.impl()).get_value(), v.a);
    }
}
static ValueSignalImpl& value(const Signal& s) { return dynamic_cast<ValueSignalImpl&>(s.impl()); }

static bool excluded(const std::string& label, const std::vector<std::string>& ex)
{
    for (auto& e : ex)
        if (label == e || label.substr(0, e.size() + 1) == e + ".") return true;
    return false;
}

void pse_main()
{
    bool memory = pse_choice("pipe", 2) == 0;
    int shape   = pse_choice("shape", 2);
    bool other  = shape == 0 && pse_choice("order", 2);
    std::vector<Member> in, out;
    Bus ib = make_shape(shape, false, in), ob = make_shape(shape, other, out);
    // excluded labels, in any combination
    std::vector<std::string> ex;
    const char* ex0[] = {"z.i", "z.q", "a", "i", "z", "z.q.r"};
    const char* ex1[] = {"sig0.sig1", "sig0", "sig1", "sig2"};
    for (int k = 0; k < (shape == 0 ? NEX : 4 < NEX ? 4 : NEX); k++)
        if (pse_choice("exclude", 2)) ex.push_back(shape == 0 ? ex0[k] : ex1[k]);
    if (ex.size()) pse_assume(ex.size() < 3);
    // initial values
    std::vector<bool> has(in.size(), false);
    std::vector<Value> ini(in.size());
    std::vector<BusMemory::LabelValue> iv;
    bool unmatched = false, wrong = false;
    if (memory)
    {
        int which = pse_choice("initials", 6); // none, some, others, all, one that matches nothing, one of another kind
        for (std::size_t k = 0; k < in.size(); k++)
        {
            if (which == 0 || (which == 1 && k % 2) || (which == 2 && k % 2 == 0) || which == 4) continue;
            has[k] = true;
            ini[k] = Value::any(nm("ini", int(k)));
            int kd = kind_of(in[k].sig);
            if (which == 5 && k == 1)
            {
                kd    = (kd + 1) % 4;
                wrong = !excluded(in[k].label, ex);
            }
            BusMemory::Value v;
            if (kd == 0) v = ini[k].d;
            if (kd == 1) v = ini[k].i;
            if (kd == 2) v = bool(ini[k].b);
            if (kd == 3) v = ini[k].a;
            iv.push_back({in[k].label, v});
            if (excluded(in[k].label, ex)) unmatched = true;
        }
        if (which == 4)
        {
            const char* no[] = {"b", "o", "z", "sig", "z.q.", ""};
            iv.push_back({no[pse_choice("nothing", 6)], 1.0});
            unmatched = true;
        }
    }
    Submodel top(nullptr, "top");
    Submodel inner(&top, "inner");
    Submodel& par = pse_choice("inner", 2) ? inner : top;
    auto il = [](auto& v, auto f)
    {
        switch (v.size())
        {
        case 0: return f({});
        case 1: return f({v[0]});
        case 2: return f({v[0], v[1]});
        case 3: return f({v[0], v[1], v[2]});
        case 4: return f({v[0], v[1], v[2], v[3]});
        default: return f({v[0], v[1], v[2], v[3], v[4]});
        }
    };
    std::unique_ptr<BusBlockBuilder> blk;
    using LI = std::initializer_list<BusMemory::LabelValue>;
    using LE = std::initializer_list<std::string>;
    il(ex,
       [&](LE e)
       {
           if (!memory) blk = std::make_unique<BusPipe>(par, e);
           else il(iv, [&](LI l) { blk = std::make_unique<BusMemory>(par, l, e); });
       });
    std::size_t d0 = trace_depth();
    bool err       = raises([&] { blk->connect(ib, ob); });
    pse_assert(trace_depth() == d0, "trace depth");
    if (wrong)
    {
        pse_assert(err, "an initial value of another kind is an error");
        pse_reach("wrongtype");
        return;
    }
    if (unmatched)
    {
        pse_reach("unmatched");
        if (checked_build)
        {
            pse_assert(err, "an initial value matching no member is an error in a checked build");
            return;
        }
    }
    pse_assert(!err, "two buses of the same shape can be connected");
    std::vector<Value> now(in.size()), last(in.size());
    int step = 0;
    auto inputs = [&](Block&, double)
    {
        for (std::size_t k = 0; k < in.size(); k++)
            if (!excluded(in[k].label, ex)) set(in[k].sig, now[k]); // signals of no block are not cleared
    };
    std::unique_ptr<SimulatorBase> sim;
    int sk = pse_choice("simulator", 3);
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, inputs);
    else sim = std::make_unique<Simulator>(top, inputs, nullptr, sk == 1);
    pse_reach(sk == 0 ? "plain" : sk == 1 ? "reuse" : "fast");
    for (step = 0; step <= NSTEPS; step++)
    {
        for (std::size_t k = 0; k < in.size(); k++)
        {
            last[k] = now[k];
            now[k]  = Value::any(nm("in", 10 * step + int(k)));
        }
        if (step == 0) sim->init(0.0);
        else sim->run(step);
        bool ok = true;
        for (std::size_t k = 0; k < out.size(); k++)
        {
            bool as = value(out[k].sig).assigned();
            if (excluded(out[k].label, ex))
            {
                pse_assert(!as, "excluded members are left alone");
                pse_reach("excluded");
                continue;
            }
            pse_assert(as, "every other member is assigned");
            if (!as) continue;
            if (!memory) ok = pse_and(ok, holds(out[k].sig, now[k]));
            else if (step > 0) ok = pse_and(ok, holds(out[k].sig, last[k]));
            else ok = pse_and(ok, holds(out[k].sig, has[k] ? ini[k] : Value()));
            if (memory && has[k] && step == 0) pse_reach("initial");
        }
        pse_assert(ok, memory ? "every member is remembered separately" : "every member is passed on separately");
    }
    pse_reach(memory ? "memory" : "pipe");
    pse_reach(shape ? "unlabelled" : "nested");
    if (other) pse_reach("permuted");
}

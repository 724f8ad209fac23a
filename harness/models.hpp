// A small collection of loop-free models used by several harnesses. A model is a list of blocks that can be created
// in any order and under any parents; its parameters are symbolic and are drawn once, so that several instances of
// the same model can be compared with each other.
#pragma once
#include "common.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/block/integrator.hpp"
#include "src/block/submodel.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
#include "src/solver/simulator.hpp"

using pooya::Array;
using pooya::Block;
using pooya::Bus;
using pooya::Submodel;

// symbolic parameters shared by all instances of a model
struct Params
{
    double p[6];
    bool b[4];
    explicit Params(double bound = 10)
    {
        for (int i = 0; i < 6; i++) p[i] = sym("p", i, bound);
        for (int i = 0; i < 4; i++) b[i] = pse_bool(nm("b", i).c_str());
    }
    // an external input that changes with time: arbitrary value at every whole quarter, linear elsewhere
    double u(double t) const { return p[4] + p[5] * t; }
    bool trig(double t) const { return t < 0.25 ? b[0] : t < 0.75 ? b[1] : t < 1.25 ? b[2] : b[3]; }
};

class Model
{
public:
    explicit Model(const Params& par) : P(par), top(nullptr, "top") {}
    virtual ~Model()                                  = default;
    virtual int size() const                          = 0;
    virtual bool has_states() const                   = 0;
    virtual void make(int i, Submodel* parent)        = 0; // create block i and connect it
    virtual void inputs(double t)                     = 0;
    virtual void read(std::vector<double>& out) const = 0; // the values of all signals
    virtual void read_states(std::vector<double>&) const {} // the values of the states

    const Params& P;
    Submodel top;
    std::vector<std::unique_ptr<Submodel>> subs;
    std::vector<std::unique_ptr<Block>> blocks;

    template<typename B, typename... A>
    B& add(Submodel* parent, const char* name, A... a)
    {
        auto b = std::make_unique<B>(a..., parent, name);
        B& r   = *b;
        blocks.push_back(std::move(b));
        return r;
    }
    static void val(std::vector<double>& o, const pooya::ScalarSignal& s)
    {
        pse_assert(s->assigned(), "signal assigned after the step");
        o.push_back(s->assigned() ? s->get_value() : 12345.0);
    }
    static void val(std::vector<double>& o, const pooya::ArraySignal& s)
    {
        pse_assert(s->assigned(), "array signal assigned after the step");
        for (std::size_t i = 0; i < s->size(); i++) o.push_back(s->assigned() ? s->get_value()[i] : 12345.0);
    }
    static void val(std::vector<double>& o, const pooya::IntSignal& s)
    {
        pse_assert(s->assigned(), "int signal assigned after the step");
        o.push_back(s->assigned() ? double(s->get_value()) : 12345.0);
    }
    static void val(std::vector<double>& o, const pooya::BoolSignal& s)
    {
        pse_assert(s->assigned(), "bool signal assigned after the step");
        o.push_back(s->assigned() ? pse_ite(s->get_value(), 1, 0) : 12345.0);
    }
};

// integrator with feedback through a gain, an adder, and a memory in the loop
class ModelFeedback : public Model
{
public:
    using Model::Model;
    pooya::ScalarSignal u{"u"}, x{"x"}, gx{"gx"}, m{"m"}, dx{"dx"}, y{"y"};
    int size() const override { return 5; }
    bool has_states() const override { return true; }
    void make(int i, Submodel* s) override
    {
        switch (i)
        {
        case 0: add<pooya::Integrator>(s, "int", P.p[0]).connect({dx}, {x}); break;
        case 1: add<pooya::Gain>(s, "gain", -0.5).connect({x}, {gx}); break;
        case 2: add<pooya::Add>(s, "add", 0.25).connect({gx, u, m}, {dx}); break;
        case 3: add<pooya::Memory>(s, "mem", P.p[1]).connect({y}, {m}); break;
        case 4: add<pooya::Subtract>(s, "sub").connect({u, x}, {y}); break;
        }
    }
    void inputs(double t) override { u = P.u(t); }
    void read(std::vector<double>& o) const override
    {
        val(o, u), val(o, x), val(o, gx), val(o, m), val(o, dx), val(o, y);
    }
    void read_states(std::vector<double>& o) const override { val(o, x); }
};

// scalar and array states, coupled, with a derivative and a second array state
class ModelMixed : public Model
{
public:
    using Model::Model;
    pooya::ScalarSignal u{"u"}, x{"x"}, d{"d"}, dd{"dd"}, w{"w"};
    pooya::ArraySignal fa{2, "fa"}, xa{2, "xa"}, xb{2, "xb"};
    int size() const override { return 5; }
    bool has_states() const override { return true; }
    static Array a2(double a, double b)
    {
        Array r(2);
        r[0] = a;
        r[1] = b;
        return r;
    }
    void make(int i, Submodel* s) override
    {
        switch (i)
        {
        case 0: add<pooya::Integrator>(s, "int", P.p[0]).connect({d}, {x}); break;
        case 1: add<pooya::IntegratorA>(s, "inta", a2(P.p[1], P.p[2])).connect({fa}, {xa}); break;
        case 2: add<pooya::IntegratorA>(s, "intb", a2(P.p[3], 1)).connect({xa}, {xb}); break;
        case 3:
            add<pooya::Function>(s, "fn",
                                 [](double t, const Bus& in, const Bus& out)
                                 {
                                     pooya::ScalarSignal x(in.at(0)), u(in.at(2));
                                     pooya::ArraySignal xa(in.at(1));
                                     pooya::ScalarSignal(out.at(0)) = xa[0] - 0.5 * x + u;
                                     pooya::ArraySignal(out.at(1))  = a2(x + t, xa[0] - xa[1]);
                                 })
                .connect({x, xa, u}, {d, fa});
            break;
        case 4: add<pooya::Derivative>(s, "der", 0.5).connect({x}, {dd}); break;
        }
    }
    void inputs(double t) override { u = P.u(t); }
    void read(std::vector<double>& o) const override
    {
        val(o, u), val(o, x), val(o, d), val(o, dd), val(o, fa), val(o, xa), val(o, xb);
    }
    void read_states(std::vector<double>& o) const override { val(o, x), val(o, xa), val(o, xb); }
};

// no states: a counter loop through a memory, its derivative and its delayed value
class ModelDiscrete : public Model
{
public:
    using Model::Model;
    pooya::ScalarSignal u{"u"}, m{"m"}, s{"s"}, ds{"ds"}, dl{"dl"}, del{"del"}, ini{"ini"};
    pooya::BoolSignal bi{"bi"}, bo{"bo"};
    int size() const override { return 5; }
    bool has_states() const override { return false; }
    void make(int i, Submodel* p) override
    {
        switch (i)
        {
        case 0: add<pooya::Memory>(p, "mem", P.p[0]).connect({s}, {m}); break;
        case 1: add<pooya::Add>(p, "add", 0.0).connect({m, u}, {s}); break;
        case 2: add<pooya::Derivative>(p, "der", P.p[1]).connect({s}, {ds}); break;
        case 3: add<pooya::Delay>(p, "del", 4.0).connect({{"in", ds}, {"delay", del}, {"initial", ini}}, {dl}); break;
        case 4: add<pooya::MemoryB>(p, "memb", P.b[3]).connect({bi}, {bo}); break;
        }
    }
    void inputs(double t) override
    {
        u   = P.u(t);
        del = 0.375;
        ini = P.p[2];
        bi  = P.trig(t);
    }
    void read(std::vector<double>& o) const override
    {
        val(o, u), val(o, m), val(o, s), val(o, ds), val(o, dl), val(o, bi), val(o, bo);
    }
};

// a triggered integrator, the delay of a state, integer signals
class ModelTriggered : public Model
{
public:
    using Model::Model;
    pooya::ScalarSignal u{"u"}, x{"x"}, y{"y"}, dl{"dl"}, del{"del"}, ini{"ini"};
    pooya::BoolSignal tr{"tr"}, trp{"trp"};
    pooya::IntSignal i1{"i1"}, i2{"i2"};
    int size() const override { return 5; }
    bool has_states() const override { return true; }
    void make(int i, Submodel* p) override
    {
        switch (i)
        {
        case 0: add<pooya::TriggeredIntegrator>(p, "ti", P.p[0]).connect({{"in", u}, {"trigger", trp}}, {x}); break;
        case 1: add<pooya::PipeB>(p, "pipe").connect({tr}, {trp}); break;
        case 2: add<pooya::Integrator>(p, "int", P.p[1]).connect({dl}, {y}); break;
        case 3: add<pooya::Delay>(p, "del", 4.0).connect({{"delay", del}, {"in", x}, {"initial", ini}}, {dl}); break;
        case 4: add<pooya::GainI>(p, "gi", 3).connect({i1}, {i2}); break;
        }
    }
    void inputs(double t) override
    {
        u   = P.u(t);
        del = 0.625;
        ini = P.p[2];
        tr  = P.trig(t);
        i1  = t > 0.75 ? 4 : 7;
    }
    void read(std::vector<double>& o) const override
    {
        val(o, u), val(o, x), val(o, y), val(o, dl), val(o, tr), val(o, trp), val(o, i1), val(o, i2);
    }
    void read_states(std::vector<double>& o) const override { val(o, x), val(o, y); }
};

// a deep chain into an integrator
class ModelChain : public Model
{
public:
    using Model::Model;
    pooya::ScalarSignal u{"u"}, a{"a"}, b{"b"}, c{"c"}, d{"d"}, x{"x"};
    int size() const override { return 5; }
    bool has_states() const override { return true; }
    void make(int i, Submodel* p) override
    {
        switch (i)
        {
        case 0: add<pooya::Gain>(p, "ga", -3.0).connect({u}, {a}); break;
        case 1: add<pooya::SISOFunction>(p, "fn", [](double t, double v) { return v + 2 * t; }).connect({a}, {b}); break;
        case 2: add<pooya::Add>(p, "add", P.p[1]).connect({b, u}, {c}); break;
        case 3: add<pooya::Pipe>(p, "pipe").connect({c}, {d}); break;
        case 4: add<pooya::Integrator>(p, "int", P.p[0]).connect({d}, {x}); break;
        }
    }
    void inputs(double t) override { u = P.u(t); }
    void read(std::vector<double>& o) const override { val(o, u), val(o, a), val(o, b), val(o, c), val(o, d), val(o, x); }
    void read_states(std::vector<double>& o) const override { val(o, x); }
};

// bus-wide blocks with a nested bus, around an integrator
class ModelBus : public Model
{
public:
    using Model::Model;
    pooya::ScalarSignal u{"u"}, x{"x"}, y{"y"}, dx{"dx"}, mx{"mx"}, my{"my"}, px{"px"}, py{"py"};
    pooya::BoolSignal tr{"tr"}, mtr{"mtr"};
    using P_ = std::pair<std::string, pooya::Signal>;
    static Bus bus(const pooya::Signal& a, const pooya::Signal& b) { return Bus({P_{"a", a}, P_{"z", Bus({P_{"b", b}})}}); }
    static Bus bus(const pooya::Signal& a, const pooya::Signal& b, const pooya::Signal& c)
    {
        return Bus({P_{"a", a}, P_{"z", Bus({P_{"b", b}, P_{"c", c}})}});
    }
    int size() const override { return 5; }
    bool has_states() const override { return true; }
    void make(int i, Submodel* p) override
    {
        Submodel& s = p ? *p : top;
        switch (i)
        {
        case 0:
            blocks.push_back(std::make_unique<pooya::BusMemory>(s, std::initializer_list<pooya::BusMemory::LabelValue>{{"z.b", P.p[1]}, {"z.c", P.b[3]}}));
            blocks.back()->connect(bus(x, y, tr), bus(mx, my, mtr));
            break;
        case 1:
            blocks.push_back(std::make_unique<pooya::BusPipe>(s));
            blocks.back()->connect(bus(mx, my), bus(px, py));
            break;
        case 2: add<pooya::Add>(p, "add", 0.0).connect({px, u}, {y}); break;
        case 3: add<pooya::Integrator>(p, "int", P.p[0]).connect({dx}, {x}); break;
        case 4: add<pooya::Subtract>(p, "sub").connect({y, py}, {dx}); break;
        }
    }
    void inputs(double t) override { u = P.u(t), tr = P.trig(t); }
    void read(std::vector<double>& o) const override
    {
        val(o, u), val(o, x), val(o, y), val(o, dx), val(o, mx), val(o, my), val(o, px), val(o, py), val(o, tr), val(o, mtr);
    }
    void read_states(std::vector<double>& o) const override { val(o, x); }
};

constexpr int NUM_MODELS = 6;
inline std::unique_ptr<Model> make_model(int kind, const Params& P)
{
    switch (kind)
    {
    case 0: return std::make_unique<ModelFeedback>(P);
    case 1: return std::make_unique<ModelMixed>(P);
    case 2: return std::make_unique<ModelDiscrete>(P);
    case 3: return std::make_unique<ModelTriggered>(P);
    case 4: return std::make_unique<ModelChain>(P);
    default: return std::make_unique<ModelBus>(P);
    }
}

inline std::unique_ptr<pooya::StepperBase> make_stepper(int kind)
{
    switch (kind)
    {
    case 0: return std::make_unique<pooya::Euler>();
    case 1: return std::make_unique<pooya::Rk4>();
    default: return std::make_unique<pooya::Rkf45>();
    }
}

// a permutation of 0..n-1, explored path by path
inline std::vector<int> choose_permutation(int n)
{
    std::vector<int> left, r;
    for (int i = 0; i < n; i++) left.push_back(i);
    while (!left.empty())
    {
        int k = left.size() == 1 ? 0 : pse_choice("perm", int(left.size()));
        r.push_back(left[k]);
        left.erase(left.begin() + k);
    }
    return r;
}

inline std::unique_ptr<pooya::SimulatorBase> make_simulator(int kind, Model& m, pooya::StepperBase* st)
{
    auto cb = [&m](Block&, double t) { m.inputs(t); };
    if (!m.has_states()) st = nullptr;
    switch (kind)
    {
    case 0: return std::make_unique<pooya::Simulator>(m.top, cb, st);
    case 1: return std::make_unique<pooya::Simulator>(m.top, cb, st, true);
    default: return std::make_unique<pooya::FastSimulator>(m.top, cb, st);
    }
}

inline void compare(const std::vector<double>& a, const std::vector<double>& b, const char* msg)
{
    pse_assert(a.size() == b.size(), msg);
    bool ok = true;
    for (std::size_t i = 0; i < a.size(); i++) ok = pse_and(ok, eq(a[i], b[i]));
    pse_assert(ok, msg);
}

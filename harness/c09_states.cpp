//@ property C09
//@ theory real
//@ modes debug release
//@ reach custom euler rk4 scalar array nested coupled shared
//@ bounds 1..4 integrators (10 mixes of scalar and array states of lengths 1..3), every creation order up to rotation and reversal, 3 nestings, 4 couplings (independent inputs, chain, own output, one shared input), plain, reusing and fast simulator; an arbitrary stepper (2 trial evaluations with arbitrary states per step, arbitrary results), Euler and RK4; initialization and 2 runs (thorough 3); all values symbolic in [-100,100]
//@ quick -DNSTEPS=2
//@ thorough -DNSTEPS=3
#include "models.hpp"
using namespace pooya;

static Array cat(const std::vector<Array>& v)
{
    int n = 0;
    for (auto& a : v) n += int(a.rows());
    Array r(n);
    n = 0;
    for (auto& a : v)
        for (int i = 0; i < a.rows(); i++) r[n++] = a[i];
    return r;
}

struct State
{
    int len; // 0: scalar
    ScalarSignal x{"x"}, d{"d"};
    ArraySignal xa, da;
    Array ic;
    std::unique_ptr<Block> block;
    explicit State(int l) : len(l), xa(l ? l : 1, "xa"), da(l ? l : 1, "da"), ic(l ? l : 1) {}
    int n() const { return len ? len : 1; }
    Array out() const { return len ? xa->get_value() : arr(x->get_value()); }
    Array in() const { return len ? da->get_value() : arr(d->get_value()); }
    bool assigned() const { return len ? xa->assigned() : x->assigned(); }
};

struct World
{
    std::vector<std::unique_ptr<State>> st;
    Array c0, c1; // external inputs: c0 + c1 t
    int n{0};
    Array out() const
    {
        std::vector<Array> v;
        for (auto& s : st) v.push_back(s->out());
        return cat(v);
    }
    Array in() const
    {
        std::vector<Array> v;
        for (auto& s : st) v.push_back(s->in());
        return cat(v);
    }
};

// a stepper that evaluates the model with arbitrary values and returns arbitrary values
class AnyStepper : public StepperBase
{
public:
    World& w;
    Array last, result;  // by component of the world: the previous value and the value expected after the step
    std::vector<int> pos; // pos[component of the world] = index in the stepper's arrays
    int calls{0};
    explicit AnyStepper(World& w) : w(w) {}
    void step(StepperCallback cb, double t0, const Array& v0, double t1, Array& v1, double& new_h) override
    {
        calls++;
        pse_assert(v0.rows() == w.n, "the stepper is handed as many values as there are state components");
        if (v0.rows() != w.n) pse_stop();
        // identify the components
        Array mark(w.n);
        for (int i = 0; i < w.n; i++) mark[i] = 1000 + i;
        cb(t0, mark);
        Array o = w.out();
        std::vector<int> p(w.n, -1);
        std::vector<bool> seen(w.n, false);
        for (int c = 0; c < w.n; c++)
        {
            int k = int(o[c]) - 1000;
            pse_assert(k >= 0 && k < w.n && !seen[k], "every state is set to a value of its own");
            p[c]    = k;
            seen[k] = true;
        }
        pos     = p;
        bool ok = true;
        for (int c = 0; c < w.n; c++) ok = pse_and(ok, same(v0[p[c]], last[c]));
        pse_assert(ok, "the stepper starts from each state's own previous value");
        // arbitrary evaluations
        for (int e = 0; e < 2; e++)
        {
            double t = e == 0 ? t0 : t0 + (t1 - t0) * pse_double_in("frac", 0, 1);
            Array v  = sym_array(nm("v", e).c_str(), w.n);
            const Array& d = cb(t, v);
            pse_assert(d.rows() == w.n, "as many derivatives as state components");
            Array out = w.out(), in = w.in();
            bool ok1 = true, ok2 = true;
            for (int c = 0; c < w.n; c++)
            {
                ok1 = pse_and(ok1, same(out[c], v[p[c]]));
                ok2 = pse_and(ok2, same(in[c], d[p[c]]));
            }
            pse_assert(ok1, "the states take the values asked for by the stepper");
            pse_assert(ok2, "the stepper is given each state's own derivative");
        }
        v1     = sym_array("r", w.n);
        result = Array(w.n);
        for (int c = 0; c < w.n; c++) result[c] = v1[p[c]];
        new_h = t1 - t0;
    }
};

static const std::vector<int> MIXES[] = {{0}, {2}, {0, 0}, {0, 2}, {3, 1}, {2, 0, 0}, {0, 1, 2, 0}, {3, 1, 2}, {1, 3, 2}, {2, 3, 1}};

void pse_main()
{
    World w;
    int mix  = pse_choice("mix", 10);
    auto lens = MIXES[mix];
    int N    = int(lens.size());
    int coupling = pse_choice("coupling", N > 1 ? 4 : 3); // 0 independent, 1 chain through inputs, 2 own output, 3 shared
    int nest = pse_choice("nest", N > 1 ? 3 : 2);
    int rot  = N > 1 ? pse_choice("rotation", N) : 0;
    bool rev = N > 2 ? pse_choice("reverse", 2) == 1 : false;
    int sk   = pse_choice("simulator", 3);
    int stk  = pse_choice("stepper", 3); // custom, Euler, RK4

    for (int l : lens)
    {
        w.st.push_back(std::make_unique<State>(l));
        w.n += w.st.back()->n();
        pse_reach(l ? "array" : "scalar");
    }
    // connect the inputs
    auto scalarIn = [&](int i) -> ScalarSignal
    {
        if (coupling == 2) return w.st[i]->x;
        if (coupling == 1)
            for (int k = 1; k < N; k++)
                if (!w.st[(i + k) % N]->len) return w.st[(i + k) % N]->x;
        if (coupling == 3)
            for (int k = 0; k < N; k++)
                if (!w.st[k]->len) return w.st[k]->d;
        return w.st[i]->d;
    };
    auto arrayIn = [&](int i) -> ArraySignal
    {
        int l = w.st[i]->len;
        if (coupling == 2) return w.st[i]->xa;
        if (coupling == 1)
            for (int k = 1; k < N; k++)
                if (w.st[(i + k) % N]->len == l) return w.st[(i + k) % N]->xa;
        if (coupling == 3)
            for (int k = 0; k < N; k++)
                if (w.st[k]->len == l) return w.st[k]->da;
        return w.st[i]->da;
    };
    for (int i = 0; i < N; i++)
    {
        auto& s = *w.st[i];
        if (s.len) s.da.reset(arrayIn(i));
        else s.d.reset(scalarIn(i));
        for (int k = 0; k < s.n(); k++) s.ic[k] = sym("ic", 10 * i + k);
    }
    w.c0 = sym_array("c", w.n);
    w.c1 = sym_array("e", w.n, 10);

    Submodel top(nullptr, "top"), a(&top, "a"), b(&a, "b");
    for (int k = 0; k < N; k++)
    {
        int i       = ((rev ? N - 1 - k : k) + rot) % N;
        Submodel* p = nest == 0 ? &top : nest == 1 ? &b : i % 3 == 0 ? &top : i % 3 == 1 ? &a : &b;
        auto& s     = *w.st[i];
        if (s.len)
        {
            s.block = std::make_unique<IntegratorA>(s.ic, p, "ia");
            s.block->connect({s.da}, {s.xa});
        }
        else
        {
            s.block = std::make_unique<Integrator>(s.ic[0], p, "is");
            s.block->connect({s.d}, {s.x});
        }
    }
    if (nest) pse_reach("nested");
    if (coupling == 1 || coupling == 2) pse_reach("coupled");
    if (coupling == 3) pse_reach("shared");

    // the external inputs: every derivative signal that is not a state
    auto ext = [&](Block&, double t)
    {
        int k = 0;
        for (auto& s : w.st)
        {
            Array v(s->n());
            for (int i = 0; i < s->n(); i++, k++) v[i] = w.c0[k] + w.c1[k] * t;
            if (s->len)
            {
                if (!s->da->state_variable() && !s->da->assigned()) s->da = v;
            }
            else if (!s->d->state_variable() && !s->d->assigned())
                s->d = v[0];
        }
    };
    // the derivative of every component for given states
    auto rhs = [&](double t, const Array& x)
    {
        Array r(w.n);
        int k = 0;
        for (int i = 0; i < N; i++)
        {
            auto& s = *w.st[i];
            // where does the input come from: the first state with that signal, or the first derivative signal
            int off = 0, from = -1;
            for (int j = 0; j < N && from < 0; j++)
            {
                if (s.len ? (w.st[j]->len && &w.st[j]->xa.impl() == &s.da.impl()) : (!w.st[j]->len && &w.st[j]->x.impl() == &s.d.impl()))
                    from = off;
                off += w.st[j]->n();
            }
            int off2 = 0, ext2 = -1;
            for (int j = 0; j < N && ext2 < 0; j++)
            {
                if (s.len ? (w.st[j]->len && &w.st[j]->da.impl() == &s.da.impl()) : (!w.st[j]->len && &w.st[j]->d.impl() == &s.d.impl()))
                    ext2 = off2;
                off2 += w.st[j]->n();
            }
            for (int q = 0; q < s.n(); q++, k++)
                r[k] = from >= 0 ? x[from + q] : w.c0[ext2 + q] + w.c1[ext2 + q] * t;
        }
        return r;
    };

    AnyStepper any(w);
    Euler eu;
    Rk4 rk;
    StepperBase* st = stk == 0 ? static_cast<StepperBase*>(&any) : stk == 1 ? static_cast<StepperBase*>(&eu) : &rk;
    std::unique_ptr<SimulatorBase> sim;
    if (sk == 2) sim = std::make_unique<FastSimulator>(top, ext, st);
    else sim = std::make_unique<Simulator>(top, ext, st, sk == 1);

    std::vector<Array> ics;
    for (auto& s : w.st) ics.push_back(s->ic);
    Array x = cat(ics);
    sim->init(0);
    pse_assert(same(w.out(), x), "after initialization every integrator outputs its initial condition");
    double t = 0;
    for (int k = 1; k <= NSTEPS; k++)
    {
        double h = 0.5 * k;
        any.last = x;
        sim->run(t + h, 1e-3, 10);
        if (stk == 0)
        {
            pse_assert(any.calls == k, "one step per run");
            x = any.result;
            pse_assert(same(w.out(), x), "every integrator outputs what the stepper computed for it");
        }
        else if (stk == 1)
        {
            Array d = rhs(t, x);
            x       = x + h * d;
            pse_assert(eq(w.out(), x), "every integrator outputs the Euler step of its own state and derivative");
        }
        else
        {
            Array k1 = rhs(t, x), k2 = rhs(t + h / 2, x + h / 2 * k1), k3 = rhs(t + h / 2, x + h / 2 * k2), k4 = rhs(t + h, x + h * k3);
            x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
            pse_assert(eq(w.out(), x), "every integrator outputs the RK4 step of its own state and derivative");
        }
        pse_assert(eq(w.in(), rhs(t + h, w.out())), "the inputs are consistent with the new states");
        t += h;
    }
    pse_reach(stk == 0 ? "custom" : stk == 1 ? "euler" : "rk4");
}

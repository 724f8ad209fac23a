//@ property C22
//@ theory fp
//@ modes debug release
//@ reach rebound refused-rebind refused-create assigned copied-value cleared created scalar int bool array bus
//@ bounds two signals of each of the five kinds and one of each other kind, two handles and a copy of one; every sequence of NOPS operations (quick 2, thorough 3): rebinding to a signal or handle of the same or another kind, creating handles from signals of the same or another kind in every way, assigning an arbitrary value, assigning from another handle, clearing
//@ quick -DNOPS=2
//@ thorough -DNOPS=3
#include "common.hpp"
using namespace pooya;

template<typename T>
struct K;
template<>
struct K<double>
{
    using H = ScalarSignal;
    static H make(const char* n) { return H(n); }
    static double any(int k) { return pse_double(nm("v", k).c_str()); }
    static bool eq(double a, double b) { return pse_same(a, b); }
};
template<>
struct K<int>
{
    using H = IntSignal;
    static H make(const char* n) { return H(n); }
    static int any(int k) { return pse_int(nm("v", k).c_str()); }
    static bool eq(int a, int b) { return a == b; }
};
template<>
struct K<bool>
{
    using H = BoolSignal;
    static H make(const char* n) { return H(n); }
    static bool any(int k) { return pse_bool(nm("v", k).c_str()); }
    static bool eq(bool a, bool b) { return a == b; }
};
template<>
struct K<Array>
{
    using H = ArraySignal;
    static H make(const char* n) { return H(2, n); }
    static Array any(int k)
    {
        Array a(2);
        a[0] = pse_double(nm("v", k).c_str());
        a[1] = pse_double(nm("w", k).c_str());
        return a;
    }
    static bool eq(const Array& a, const Array& b) { return same(a, b); }
};
template<>
struct K<BusSpec>
{
    using H = Bus;
    static H make(const char* n) { return Bus({}, n); }
    static int any(int) { return 0; }
    static bool eq(int, int) { return true; }
};

static Signal other(int k)
{
    switch (k)
    {
    case 0: return K<double>::make("o0");
    case 1: return K<int>::make("o1");
    case 2: return K<bool>::make("o2");
    case 3: return K<Array>::make("o3");
    default: return K<BusSpec>::make("o4");
    }
}

template<typename T>
static void run(int kind)
{
    using H                    = typename K<T>::H;
    using Impl                 = typename Types<T>::SignalImpl;
    constexpr bool has_value = !std::is_same_v<T, BusSpec>;
    using V                    = decltype(K<T>::any(0));
    H s0 = K<T>::make("s"), s1 = K<T>::make("s"); // signals of the same name are different signals
    Impl* sig[2] = {&s0.impl(), &s1.impl()};
    H h0(s0), h1(static_cast<const Signal&>(s1)), h2(h0);
    H* h[3]     = {&h0, &h1, &h2};
    int bound[3] = {0, 1, 0};
    bool as[2]   = {false, false};
    std::vector<V> val(2, K<T>::any(0));
    std::size_t d0 = trace_depth();
    int vk         = 1;
    auto handle_ok = [&](H& x, int b)
    {
        pse_assert(&x.impl() == sig[b], "a handle is bound to its signal");
        pse_assert(x.operator->() == sig[b], "a handle refers to its signal");
        Signal& base = x;
        pse_assert(base.operator->() == static_cast<SignalImpl*>(sig[b]), "a handle refers to its signal as a general one");
        if (base.operator->()) pse_assert(&base.impl() == static_cast<SignalImpl*>(sig[b]) && &*base == static_cast<SignalImpl*>(sig[b]), "likewise");
        if constexpr (has_value)
        {
            pse_assert(x->assigned() == as[b], "assignment is seen through every handle");
            if (as[b] && x->assigned()) pse_assert(K<T>::eq(x->get_value(), val[b]), "a value is seen through every handle");
        }
    };
    for (int n = 0; n < NOPS; n++)
    {
        int op = pse_choice("op", has_value ? 7 : 4);
        int i  = pse_choice("i", 3);
        if (op == 0)
        {
            int j = pse_choice("j", 3);
            bool err;
            if (j < 2) err = raises([&] { h[i]->reset(*h[j]); });
            else err = raises([&] { h[i]->reset(Signal(*sig[1])); });
            pse_assert(!err, "a handle can be rebound to a signal of its kind");
            bound[i] = j < 2 ? bound[j] : 1;
            pse_reach("rebound");
        }
        if (op == 1)
        {
            int k = (kind + 1 + pse_choice("wrong", 4)) % 5;
            Signal o(other(k));
            pse_assert(raises([&] { h[i]->reset(o); }), "a handle cannot be rebound to a signal of another kind");
            pse_reach("refused-rebind");
        }
        if (op == 2)
        {
            int k = (kind + 1 + pse_choice("wrong", 4)) % 5;
            Signal o(other(k));
            if (i == 0) pse_assert(raises([&] { H x(o); }), "no handle from a signal of another kind");
            if (i == 1) pse_assert(raises([&] { H x(o.impl()); }), "no handle from the implementation of another kind");
            if (i == 2) pse_assert(raises([&] { SignalT<T> x(o); }), "no handle from a signal of another kind");
            pse_reach("refused-create");
        }
        if (op == 3)
        {
            int how = pse_choice("how", 5);
            const Signal general(*h[i]);
            if (how == 0) { H x(*h[i]); handle_ok(x, bound[i]); }
            if (how == 1) { H x(general); handle_ok(x, bound[i]); }
            if (how == 2) { H x(h[i]->impl()); handle_ok(x, bound[i]); }
            if (how == 3) { H x(general.impl()); handle_ok(x, bound[i]); }
            if (how == 4)
            {
                H x = K<T>::make("x");
                pse_assert(&x.impl() != sig[0] && &x.impl() != sig[1], "a new signal");
                x.reset(*h[i]);
                handle_ok(x, bound[i]);
            }
            pse_reach("created");
        }
        if constexpr (has_value)
        {
            if (op == 4)
            {
                V v      = K<T>::any(vk++);
                bool err = raises([&] { *h[i] = v; });
                pse_assert(err == (checked_build && as[bound[i]]), "a value is assigned once between clears");
                if (!err) as[bound[i]] = true, val[bound[i]] = v;
                pse_reach("assigned");
            }
            if (op == 5)
            {
                int j = pse_choice("j", 3);
                if (!checked_build && !as[bound[j]]) pse_stop(); // unchecked reading of an unassigned value
                bool err = raises([&] { *h[i] = *h[j]; });
                pse_assert(err == (checked_build && (as[bound[i]] || !as[bound[j]])), "assigning a handle copies a value");
                if (!err) as[bound[i]] = true, val[bound[i]] = val[bound[j]];
                pse_reach("copied-value");
            }
            if (op == 6)
            {
                (*h[i])->clear();
                as[bound[i]] = false;
                pse_reach("cleared");
            }
        }
        for (int k = 0; k < 3; k++) handle_ok(*h[k], bound[k]);
        handle_ok(s0, 0);
        handle_ok(s1, 1);
        pse_assert(trace_depth() == d0, "trace depth");
    }
}

void pse_main()
{
    int kind = pse_choice("kind", 5);
    switch (kind)
    {
    case 0: run<double>(0); break;
    case 1: run<int>(1); break;
    case 2: run<bool>(2); break;
    case 3: run<Array>(3); break;
    case 4: run<BusSpec>(4); break;
    }
    const char* l[] = {"scalar", "int", "bool", "array", "bus"};
    pse_reach(l[kind]);
}

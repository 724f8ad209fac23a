//@ property C18
//@ theory fp
//@ modes debug release
//@ reach flat nested many unlabelled emended index found missing through
//@ bounds five buses (flat, twelve unlabelled members, nested three deep, unlabelled, with a label of two characters: one arbitrary, thorough both); every query text of length 0..QLEN (quick 5, thorough 8) of arbitrary characters; every 32-bit index
//@ quick -DQLEN=5
//@ thorough -DQLEN=8 -DBOTH
#include "common.hpp"
using namespace pooya;

// what was put into a bus
struct Node
{
    std::string label;
    SignalImpl* sig;
    std::vector<Node> members; // of a bus
    bool bus{false};
};

// the signal found under a path, null if none
static SignalImpl* resolve(const std::vector<Node>& ms, const char* q, std::size_t n)
{
    std::size_t d = 0;
    while (d < n && q[d] != '.') d++;
    for (auto& m : ms)
    {
        if (m.label.size() != d) continue;
        bool eq = true;
        for (std::size_t i = 0; i < d && eq; i++) eq = q[i] == m.label[i];
        if (!eq) continue;
        if (d == n) return m.sig;
        return m.bus ? resolve(m.members, q + d + 1, n - d - 1) : nullptr;
    }
    return nullptr;
}

static void check_label(const Bus& bus, const std::vector<Node>& ms, const std::string& q)
{
    SignalImpl* expected = resolve(ms, q.data(), q.size());
    std::size_t depth    = trace_depth();
    for (int how = 0; how < 5; how++)
    {
        SignalImpl* found = nullptr;
        bool error        = raises(
            [&]
            {
                if (how == 0) found = &bus.at(q).impl();
                if (how == 1) found = &bus[q].impl();
                if (how == 2) found = &bus->at(q).impl();
                if (how == 3) found = &bus.impl()[q].impl();
                if (how == 4)
                {
                    auto r = bus->try_at(q);
                    if (r.has_value()) found = &r->impl();
                }
            });
        pse_assert(found == expected, "the label or path finds exactly the signal put there");
        if (how < 4) pse_assert(error == (expected == nullptr), "a missing label or path is an error");
        else pse_assert(!error, "the non-throwing lookup does not throw");
    }
    pse_assert(trace_depth() == depth, "trace depth");
    pse_reach(expected ? "found" : "missing");
}

static void check_index(const Bus& bus, const std::vector<Node>& ms)
{
    pse_assert(bus.size() == ms.size() && bus->size() == ms.size(), "size");
    std::size_t k = 0;
    for (auto& [label, sig] : bus)
    {
        pse_assert(k < ms.size() && &sig.impl() == ms[k].sig && label == ms[k].label, "the members in order");
        k++;
    }
    pse_assert(k == ms.size(), "all members");
    std::size_t i = std::size_t(pse_int("index"));
    bool within   = i < ms.size();
    SignalImpl* s = nullptr;
    bool error    = raises([&] { s = &bus.at(i).impl(); });
    pse_assert(error == !within, "an index beyond the members is an error");
    if (within && !error) pse_assert(s == ms[i].sig, "the index finds the signal put there");
    if (within || checked_build)
    {
        error = raises([&] { s = &bus[i].impl(); });
        pse_assert(error == !within, "an index beyond the members is an error");
        if (within && !error) pse_assert(s == ms[i].sig, "the index finds the signal put there");
    }
    pse_reach("index");
}

void pse_main()
{
    ScalarSignal a("a"), b("b"), c("c"), d("d");
    IntSignal i("i");
    BoolSignal o("o");
    ArraySignal r(2, "r");
    Bus q({{"c", c}, {"a", static_cast<const Signal&>(i)}}, "q");
    Bus z({{"b", static_cast<const Signal&>(b)}, {"q", q}}, "z");
    std::vector<Node> qn = {{"c", &c.impl(), {}}, {"a", &i.impl(), {}}};
    std::vector<Node> zn = {{"b", &b.impl(), {}}, {"q", &q.impl(), qn, true}};
    auto query = [&]()
    {
        int n = pse_choice("length", QLEN + 1);
        std::string s(std::size_t(n), ' ');
        for (int k = 0; k < n; k++) s[k] = char(pse_char(nm("q", k).c_str()));
        return s;
    };
    int kind  = pse_choice("bus", 5);
    bool byix = pse_choice("by", 2) == 1;
    if (kind == 0)
    {
        Bus bus({{"x", a}, {"yy", b}, {"x1", c}});
        std::vector<Node> ms = {{"x", &a.impl(), {}}, {"yy", &b.impl(), {}}, {"x1", &c.impl(), {}}};
        if (byix) check_index(bus, ms);
        else check_label(bus, ms, query());
        pse_reach("flat");
    }
    if (kind == 1)
    {
        Bus bus({{"a", static_cast<const Signal&>(a)}, {"z", z}, {"b", o}, {"r", r}});
        std::vector<Node> ms = {{"a", &a.impl(), {}}, {"z", &z.impl(), zn, true}, {"b", &o.impl(), {}}, {"r", &r.impl(), {}}};
        if (byix) check_index(bus, ms);
        else
        {
            auto s = query();
            check_label(bus, ms, s);
            if (s.size() > 1 && s[0] == 'a' && s[1] == '.') pse_reach("through");
        }
        pse_reach("nested");
    }
    if (kind == 2)
    {
        ScalarSignal u, v;
        Bus bus({static_cast<const Signal&>(u), z, v, r});
        std::vector<Node> ms = {{"sig0", &u.impl(), {}}, {"sig1", &z.impl(), zn, true}, {"sig2", &v.impl(), {}}, {"sig3", &r.impl(), {}}};
        if (byix) check_index(bus, ms);
        else
        {
            // a query beginning like an automatic label, so that it may be long enough
            std::string s = pse_choice("prefix", 2) ? "sig" : "";
            check_label(bus, ms, s + query());
        }
        pse_reach("unlabelled");
    }
    if (kind == 4)
    {
        // more than ten automatic labels
        ScalarSignal m[12];
        Bus bus({static_cast<const Signal&>(m[0]), m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9], m[10], m[11]});
        std::vector<Node> ms;
        for (int k = 0; k < 12; k++) ms.push_back({"sig" + std::string(k < 10 ? "" : "1") + char('0' + k % 10), &m[k].impl(), {}});
        if (byix) check_index(bus, ms);
        else
        {
            int n = pse_choice("length", 3);
            std::string s(std::size_t(n), ' ');
            for (int k = 0; k < n; k++) s[k] = char(pse_char(nm("q", k).c_str()));
            check_label(bus, ms, "sig" + s);
        }
        pse_reach("many");
    }
    if (kind == 3)
    {
        // a label with arbitrary characters is found under its emended form only
        std::string l(2, ' ');
#ifdef BOTH
        l[0] = char(pse_char("l0"));
        l[1] = char(pse_char("l1"));
#else
        int known    = pse_choice("known", 2);
        l[known]     = '-';
        l[1 - known] = char(pse_char("l"));
#endif
        std::string e(2, '_');
        for (int k = 0; k < 2; k++)
            if ((l[k] >= 'a' && l[k] <= 'z') || (l[k] >= 'A' && l[k] <= 'Z') || (l[k] >= '0' && l[k] <= '9')) e[k] = l[k];
        pse_assume(e != "ab");
        Bus bus({{"ab", a}, {l, b}});
        std::vector<Node> ms = {{"ab", &a.impl(), {}}, {e, &b.impl(), {}}};
        if (byix) check_index(bus, ms);
        else
        {
            std::string s(2, ' ');
            s[0] = char(pse_char("s0"));
            s[1] = char(pse_char("s1"));
            check_label(bus, ms, s);
        }
        pse_reach("emended");
    }
}

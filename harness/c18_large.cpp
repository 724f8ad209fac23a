//@ property C18
//@ theory fp
//@ modes debug release
//@ reach wide deep found missing index
//@ bounds larger instances: 24 labelled members with labels of 1 to 24 characters, looked up by label and by a query that differs from a label in any one arbitrary character; nested 12 deep with 1..3 members on each level, looked up by the full path, with one arbitrary character anywhere in it, and cut off after any character; every 32-bit index
#include "common.hpp"
using namespace pooya;
using P = std::pair<std::string, Signal>;

static void lookup(const Bus& bus, const std::string& q, SignalImpl* expected)
{
    for (int how = 0; how < 3; how++)
    {
        SignalImpl* found = nullptr;
        bool error        = raises(
            [&]
            {
                if (how == 0) found = &bus.at(q).impl();
                if (how == 1) found = &bus[q].impl();
                if (how == 2)
                {
                    auto r = bus->try_at(q);
                    if (r.has_value()) found = &r->impl();
                }
            });
        pse_assert(found == expected, "the label or path finds exactly the signal put there");
        pse_assert(error == (how < 2 && !expected), "a missing label or path is an error");
    }
    pse_reach(expected ? "found" : "missing");
}

static std::string label(int k) // 1..24 characters; k and k + 1 share all but the last ones
{
    std::string s;
    for (int i = 0; i <= k; i++) s += char(i == k ? 'A' + k : 'a' + i % 26);
    return s;
}

static void wide()
{
    constexpr int N = 24;
    std::vector<Signal> m;
    for (int k = 0; k < N; k++)
        if (k % 2) m.push_back(IntSignal(nm("i", k)));
        else m.push_back(ScalarSignal(nm("s", k)));
    auto p = [&](int k) { return P{label(k), m[k]}; };
    Bus bus({p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8), p(9), p(10), p(11), p(12), p(13), p(14), p(15), p(16), p(17), p(18), p(19), p(20), p(21), p(22), p(23)});
    pse_assert(bus.size() == N, "size");
    int k = pse_choice("member", N);
    if (pse_choice("how", 2))
    {
        std::size_t i = std::size_t(pse_int("index"));
        bool within   = i < N;
        SignalImpl* s = nullptr;
        bool error    = raises([&] { s = &bus.at(i).impl(); });
        pse_assert(error == !within, "an index beyond the members is an error");
        if (within && !error)
        {
            pse_assert(s == &m[i].impl(), "the index finds the signal put there");
            if (int(i) == k) pse_reach("index");
        }
        return;
    }
    std::string q = label(k);
    int at        = pse_choice("at", 3) * k / 2;
    q[at]         = char(pse_char("c"));
    SignalImpl* expected = nullptr;
    for (int j = 0; j < N; j++)
        if (q == label(j)) expected = &m[j].impl();
    if (q.find('.') == std::string::npos) lookup(bus, q, expected);
    pse_reach("wide");
}

static void deep()
{
    constexpr int D = 12;
    // level D - 1 is the innermost; every level has "x", and "n", the next one
    std::vector<Signal> leaf;
    std::vector<Bus> level;
    for (int d = D - 1; d >= 0; d--)
    {
        ScalarSignal x(nm("x", d)), y(nm("y", d));
        leaf.insert(leaf.begin(), Signal(x));
        if (d == D - 1) level.push_back(Bus({P{"x", x}}));
        else if (d % 2) level.push_back(Bus({P{"n", level.back()}, P{"x", x}}));
        else level.push_back(Bus({P{"y", y}, P{"x", x}, P{"n", level.back()}}));
    }
    Bus top = level.back();
    int d   = pse_choice("depth", D);
    std::string q;
    for (int k = 0; k < d; k++) q += "n.";
    q += "x";
    lookup(top, q, &leaf[d].impl());
    // cut off
    for (std::size_t n = 0; n < q.size(); n++)
    {
        std::string c        = q.substr(0, n);
        SignalImpl* expected = n % 2 ? &level[D - 1 - (int(n) + 1) / 2].impl() : nullptr;
        lookup(top, c, expected);
    }
    // another character
    std::size_t at = pse_choice("at", 3) * (q.size() - 1) / 2;
    char was = q[at], c = char(pse_char("c"));
    if (c == was) return;
    if (was == 'x' && (c == 'n' || c == 'y')) return; // other members
    q[at] = c;
    lookup(top, q, nullptr);
    pse_reach("deep");
}

void pse_main()
{
    if (pse_choice("what", 2)) deep();
    else wide();
}

//@ property C19
//@ theory fp
//@ modes debug release
//@ reach long deep
//@ bounds larger instances: names of 40 and 300 characters with one arbitrary character anywhere (7 places), of signals, buses, members, blocks and after renaming; under 24 ancestors with names of 1 to 24 characters
#include "common.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/submodel.hpp"
using namespace pooya;

static bool in(unsigned char c, unsigned char lo, unsigned char hi) { return pse_and(c >= lo, c <= hi); }
static bool kept(unsigned char c) { return pse_or(pse_or(in(c, 'a', 'z'), in(c, 'A', 'Z')), pse_or(in(c, '0', '9'), c == '_')); }
static void check(const std::string& in, const std::string& out)
{
    pse_assert(out.size() == in.size(), "the length is preserved");
    bool ok = true;
    for (std::size_t i = 0; i < in.size() && i < out.size(); i++)
    {
        bool k = kept(in[i]);
        ok     = pse_and(ok, pse_and(pse_or(pse_not(k), out[i] == in[i]), pse_or(k, out[i] == '_')));
    }
    pse_assert(ok, "letters, digits and underscores stay, everything else becomes an underscore");
}

static void lengthy()
{
    std::size_t n = pse_choice("length", 2) ? 300 : 40;
    std::string t;
    for (std::size_t i = 0; i < n; i++) t += "ab0_-Z.9 "[i % 9];
    t[pse_choice("at", 7) * (n - 1) / 6] = char(pse_char("c"));
    ScalarSignal s(t), m;
    check(t, s->name().str());
    ArraySignal a(2);
    a->rename(t);
    check(t, a->name().str());
    Bus b({std::pair<std::string, Signal>{t, m}}, t);
    check(t, b->name().str());
    check(t, m->name().str());
    check(t, (*b.begin()).first);
    Submodel top(nullptr, t);
    Gain g(1.0, &top, t);
    check(t, g.name().str());
    std::string f = g.full_name().str();
    pse_assert(f.size() == 2 * n + 2 && f[0] == '/' && f[n + 1] == '/', "the full name is the path");
    check(t, f.substr(1, n));
    check(t, f.substr(n + 2));
    pse_reach("long");
}

static void deep()
{
    constexpr int D = 24;
    std::vector<std::unique_ptr<Submodel>> s;
    std::string path;
    int at = pse_choice("at", 4) * (D - 1) / 3;
    char c = char(pse_char("c"));
    std::size_t pos = 0;
    for (int d = 0; d < D; d++)
    {
        std::string name(std::size_t(d + 1), char('a' + d));
        path += "/";
        if (d == at) pos = path.size() + d / 2;
        path += name;
        if (d == at) name[d / 2] = c, path[pos] = c;
        s.push_back(std::make_unique<Submodel>(d ? s.back().get() : nullptr, name));
    }
    Gain g(1.0, s.back().get(), "g");
    path += "/g";
    std::string f = g.full_name().str();
    pse_assert(f.size() == path.size(), "the full name is the path");
    bool ok = true;
    for (std::size_t i = 0; i < f.size() && i < path.size(); i++)
        if (i != pos) ok = pse_and(ok, f[i] == path[i]);
    pse_assert(ok, "the full name is the path");
    bool k = kept(c);
    if (pos < f.size()) pse_assert(pse_and(pse_or(pse_not(k), f[pos] == c), pse_or(k, f[pos] == '_')), "made of valid names");
    pse_reach("deep");
}

void pse_main()
{
    if (pse_choice("what", 2)) deep();
    else lengthy();
}

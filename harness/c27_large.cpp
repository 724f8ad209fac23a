//@ property C27
//@ theory real
//@ modes debug release
//@ reach complete incomplete long many
//@ bounds larger instances: a chain of 24 blocks, flat or each nested one deeper, the block after which it breaks chosen at 5 places (its first input fed by a signal that is never assigned); a block with 17 inputs of which none, one or all but one are missing; initialization and 2 runs, plain and reusing simulator
#include "models.hpp"
#include <iostream>
#include <sstream>
using namespace pooya;

struct Capture
{
    std::ostringstream os;
    std::streambuf* old;
    Capture() : old(std::cout.rdbuf(os.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
    std::string take()
    {
        std::string s = os.str();
        os.str("");
        return s;
    }
};
using Report = std::vector<std::pair<std::string, std::vector<std::string>>>;
static Report parse(const std::string& s)
{
    Report rep;
    std::string l;
    for (char c : s + "\n")
    {
        if (c != '\n')
        {
            l += c;
            continue;
        }
        if (l.compare(0, 2, "- ") == 0) rep.emplace_back(l.substr(2), std::vector<std::string>());
        else if (l.compare(0, 4, "  - ") == 0 && !rep.empty()) rep.back().second.push_back(l.substr(4));
        l.clear();
    }
    return rep;
}
static Bus bus17(const std::vector<Signal>& s)
{
    return Bus({s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16]});
}

static void chain()
{
    constexpr int N = 24;
    bool nested = pse_choice("nested", 2), reuse = pse_choice("reuse", 2);
    static const int breaks[] = {0, 1, 11, 23, 24};
    int at = breaks[pse_choice("at", 5)]; // 24: nowhere
    Submodel top(nullptr, "top");
    std::vector<std::unique_ptr<Submodel>> subs;
    std::vector<std::unique_ptr<Add>> b;
    std::vector<ScalarSignal> o;
    ScalarSignal u("u"), never("never");
    for (int k = 0; k < N; k++)
    {
        subs.push_back(std::make_unique<Submodel>(k ? subs.back().get() : &top, nm("s", k)));
        b.push_back(std::make_unique<Add>(1.0, nested ? subs[k].get() : &top, nm("b", k)));
        o.push_back(ScalarSignal(nm("o", k)));
    }
    for (int q = 0; q < N; q++)
    {
        int k = (q * 7) % N;
        ScalarSignal from = k ? o[k - 1] : u;
        if (k == at) b[k]->connect({never, from}, {o[k]});
        else b[k]->connect({from}, {o[k]});
    }
    double v = sym("v");
    Capture out;
    Simulator sim(top, [&](Block&, double) { u = v; }, nullptr, reuse);
    for (int r = 0; r < 3; r++)
    {
        if (r == 0) sim.init(0);
        else sim.run(r);
        std::string text = out.take();
        for (int k = 0; k < N; k++) pse_assert(o[k]->assigned() == (k < at), "every block before the break is evaluated");
        if (at) pse_assert(eq(o[at - 1]->get_value(), v + at), "with its value");
        Report rep = parse(text);
        if (!checked_build || at == N)
        {
            pse_assert(text.find("unprocessed") == std::string::npos && rep.empty(), "nothing is reported if there is nothing to report");
            continue;
        }
        for (int k = 0; k < N; k++)
        {
            int n = 0;
            for (auto& e : rep)
                if (e.first == b[k]->full_name().str())
                {
                    n++;
                    if (k == at && at > 0) pse_assert(e.second.size() == 1 && e.second[0] == "never", "exactly the missing inputs are listed");
                    if (k == 0) pse_assert(e.second.size() == 1 && e.second[0] == "never", "exactly the missing inputs are listed");
                    if (k > at) pse_assert(e.second.size() == 1 && e.second[0] == o[k - 1]->name().str(), "exactly the missing inputs are listed");
                }
            pse_assert(n == (k >= at), "exactly the blocks that were not evaluated are reported");
        }
    }
    pse_reach("long"), pse_reach(at == N ? "complete" : "incomplete");
}

static void many()
{
    constexpr int N = 17;
    int what = pse_choice("missing", 4); // none, the first, the last, all but one in the middle
    Submodel top(nullptr, "top");
    std::vector<Signal> in;
    for (int k = 0; k < N; k++) in.push_back(ScalarSignal(nm("i", k)));
    ScalarSignal o("o");
    Add add(0.0, &top, "add");
    add.connect(bus17(in), {o});
    auto missing = [&](int k) { return what == 1 ? k == 0 : what == 2 ? k == N - 1 : what == 3 ? k != 8 : false; };
    double v = sym("v");
    Capture out;
    Simulator sim(top,
                  [&](Block&, double)
                  {
                      for (int k = 0; k < N; k++)
                          if (!missing(k)) ScalarSignal(static_cast<const Signal&>(in[k])) = v;
                  });
    for (int r = 0; r < 2; r++)
    {
        if (r == 0) sim.init(0);
        else sim.run(r);
        Report rep = parse(out.take());
        pse_assert(o->assigned() == (what == 0), "evaluated if no input is missing");
        if (!checked_build || what == 0)
        {
            pse_assert(rep.empty(), "nothing is reported if there is nothing to report");
            continue;
        }
        // submodels that are not complete are reported as well
        std::vector<std::string> listed;
        int reported = 0;
        for (auto& e : rep)
            if (e.first == add.full_name().str()) reported++, listed = e.second;
        pse_assert(reported == 1, "the block is reported");
        int n = 0;
        for (int k = 0; k < N; k++)
            if (missing(k))
            {
                n++;
                int found = 0;
                for (auto& s : listed) found += s == nm("i", k);
                pse_assert(found == 1, "every missing input is listed once");
            }
        pse_assert(int(listed.size()) == n, "no other inputs are listed");
    }
    pse_reach("many");
}

void pse_main()
{
    if (pse_choice("what", 2)) many();
    else chain();
}

//@ property C27
//@ theory real
//@ modes debug release
//@ reach complete incomplete missing loop again states
//@ bounds NL leaves (quick 3, thorough 3), and another one that does not require one of its inputs, with every dependency graph between them (self-dependency included), each optionally also fed by one of two signals that are never assigned; nested in submodels in NESTS ways (quick 1, thorough 2); plain and reusing simulator; initialization, one run and one run at the same time; with and without a state
//@ quick -DNL=3 -DNESTS=1
//@ thorough -DNL=3 -DNESTS=2
#include "common.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/integrator.hpp"
#include "src/block/submodel.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/simulator.hpp"
#include <iostream>
#include <sstream>
using namespace pooya;

struct Capture
{
    std::ostringstream os;
    std::streambuf* old;
    Capture() : old(std::cout.rdbuf(os.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
    std::string take()
    {
        std::string s = os.str();
        os.str("");
        return s;
    }
};

static std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> r(1);
    for (char c : s)
        if (c == '\n') r.emplace_back();
        else r.back() += c;
    return r;
}

// needs its first input only
class Half : public Leaf
{
public:
    ScalarSignal in;
    Half(Submodel* p) : Leaf(p, "half", 2, 1) {}
    bool connect(const Bus& i, const Bus& o) override
    {
        if (!Leaf::connect(i, o)) return false;
        in.reset(input(0));
        if (auto* ptr = find_linked_signal(input(1).impl())) ptr->second = ptr->second & ~SignalLinkType::Required;
        return true;
    }
    void activation_function(double) override { ScalarSignal(output(0)) = in->get_value(); }
};

void pse_main()
{
    bool dep[NL][NL];
    int base[NL];
    for (int i = 0; i < NL; i++)
        for (int j = 0; j < NL; j++) dep[i][j] = pse_choice("dep", 2) == 1;
    int miss = pse_choice("missing", NL + 2) - 1; // which leaf is fed by a missing signal (NL: all of them)
    for (int i = 0; i < NL; i++) base[i] = miss == i || miss == NL;
    int nest    = pse_choice("nest", NESTS);
    bool reuse  = pse_choice("reuse", 2);
    bool states = miss < 0 && pse_choice("states", 2);

    bool act[NL] = {};
    for (int r = 0; r < NL; r++)
        for (int i = 0; i < NL; i++)
        {
            bool ok = !base[i];
            for (int j = 0; j < NL; j++) ok = ok && (!dep[i][j] || act[j]);
            act[i] = act[i] || ok;
        }
    bool all = true;
    for (int i = 0; i < NL; i++) all = all && act[i];

    Submodel top(nullptr, "top"), sub(&top, "sub");
    std::vector<std::unique_ptr<Add>> p;
    std::vector<ScalarSignal> o, miss_sig;
    ScalarSignal u("u"), x("x");
    double c = sym("c");
    for (int i = 0; i < NL; i++)
    {
        o.emplace_back(nm("o", i));
        miss_sig.emplace_back(nm("missing", i % 2));
        p.push_back(std::make_unique<Add>(c, (i + nest) % 2 ? &top : &sub, nm("p", i)));
    }
    for (int i = 0; i < NL; i++)
    {
        std::vector<Signal> ib{u};
        if (base[i]) ib.push_back(miss_sig[i]);
        for (int j = 0; j < NL; j++)
            if (dep[i][j]) ib.push_back(o[j]);
        p[i]->connect(make_bus(ib), Bus({o[i]}));
    }
    ScalarSignal other("missing_too"), h("h");
    Half half(&sub);
    half.connect({o[0], other}, {h});
    Integrator in(c, nullptr, "in");
    if (states)
    {
        top.add_block(in, {u}, {x});
        pse_reach("states");
    }
    Euler st;
    Capture out;
    Simulator sim(top, [&](Block&, double t) { u = t; }, states ? &st : nullptr, reuse);
    auto check = [&](std::string text, bool partial)
    {
        auto ls = lines(text);
        // the report: "- block" lines, each followed by "  - signal" lines
        std::vector<std::pair<std::string, std::vector<std::string>>> rep;
        for (auto& l : ls)
        {
            if (l.compare(0, 2, "- ") == 0) rep.emplace_back(l.substr(2), std::vector<std::string>());
            else if (l.compare(0, 4, "  - ") == 0 && !rep.empty()) rep.back().second.push_back(l.substr(4));
        }
        if (!checked_build || all)
        {
            pse_assert(text.find("unprocessed") == std::string::npos, "nothing is reported if there is nothing to report");
            return;
        }
        pse_assert(text.find("unprocessed") != std::string::npos, "an evaluation that is not complete is reported");
        int nh = 0;
        for (auto& r : rep)
            if (r.first == half.full_name().str())
            {
                nh++;
                pse_assert(r.second.size() == 1 && r.second[0] == "o00", "an input that is not required is not missing");
            }
        pse_assert(act[0] ? nh == 0 : partial ? nh >= 1 : nh == 1, "exactly the blocks that were not evaluated are reported");
        for (int i = 0; i < NL; i++)
        {
            int n = 0;
            for (auto& r : rep)
                if (r.first == p[i]->full_name().str())
                {
                    n++;
                    std::vector<std::string> want;
                    if (base[i]) want.push_back(miss_sig[i]->name().str());
                    for (int j = 0; j < NL; j++)
                        if (dep[i][j] && !act[j]) want.push_back(o[j]->name().str());
                    pse_assert(r.second.size() == want.size(), "as many signals as are missing");
                    for (auto& w : want)
                        pse_assert(std::find(r.second.begin(), r.second.end(), w) != r.second.end(), "every signal that is missing is reported");
                }
            pse_assert(act[i] ? n == 0 : partial ? n >= 1 : n == 1, "exactly the blocks that were not evaluated are reported");
        }
    };
    sim.init(0);
    check(out.take(), false);
    sim.run(1, 1e-3, 10);
    check(out.take(), true);
    // at the same time again
    sim.run(1, 1e-3, 10);
    std::string text = out.take();
    check(text, false);
    if (states) pse_assert((text.find("Repeated simulation step") != std::string::npos), "a repeated step is reported");
    pse_reach("again");
    pse_reach(all ? "complete" : "incomplete");
    if (miss >= 0) pse_reach("missing");
    else if (!all) pse_reach("loop");
}

//@ property C17
//@ theory real
//@ modes debug release
//@ reach shrunk unshrunk permuted rewritten gap
//@ bounds a history of a scalar, an integer, a boolean and an array signal (length 3), each tracked or not, NROW rows or fewer (quick 3, thorough 4) updated in any order, also twice or with a gap, growth increments 1..4, exported before or after shrinking, also twice; all times and values symbolic (doubles and integers in [-100,100]); the text of a symbolic number stands for its value, so the digits printed are outside the bounds
//@ quick -DNROW=3
//@ thorough -DNROW=4
#include "common.hpp"
#include "src/solver/history.hpp"
#include <fstream>
using namespace pooya;

static std::vector<std::string> split(const std::string& line)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : line)
    {
        if (c == ',')
        {
            r.push_back(cur);
            cur.clear();
        }
        else
            cur += c;
    }
    r.push_back(cur);
    return r;
}

void pse_main()
{
    int grow = 1 + pse_choice("grow", 4);
    int which = pse_choice("tracked", 5); // all, or all but one
    History h{unsigned(grow)};
    ScalarSignal s("s");
    IntSignal i("i");
    BoolSignal b("b");
    ArraySignal a(3, "a");
    std::vector<std::string> names;
    if (which != 1) h.track(s), names.push_back("s");
    if (which != 2) h.track(i), names.push_back("i");
    if (which != 3) h.track(b), names.push_back("b");
    if (which != 4) h.track(a), names.push_back("a[0]"), names.push_back("a[1]"), names.push_back("a[2]");
    names.push_back("time");

    // rows, by name
    std::vector<double> row[8];
    bool have[8] = {};
    int high     = -1;
    int nupd     = 1 + pse_choice("updates", NROW);
    int mode     = pse_choice("order", nupd == 1 ? 2 : 4); // increasing, with a gap, decreasing, the first row twice
    for (int u = 0; u < nupd; u++)
    {
        int k = mode == 0 ? u : mode == 1 ? 2 * u + 1 : mode == 2 ? nupd - 1 - u : u == nupd - 1 ? 0 : u;
        if (mode == 1) pse_reach("gap");
        if (mode == 2) pse_reach("permuted");
        if (mode == 3) pse_reach("rewritten");
        double t = sym("t"), sv = sym("s");
        int iv  = pse_int_in("i", -100, 100);
        bool bv = pse_bool("b");
        Array av = sym_array("a", 3);
        s->clear(), i->clear(), b->clear(), a->clear();
        s = sv, i = iv, b = bv, a = av;
        h.update(unsigned(k), t);
        row[k].clear();
        if (which != 1) row[k].push_back(sv);
        if (which != 2) row[k].push_back(double(iv));
        if (which != 3) row[k].push_back(pse_ite(bv, 1, 0));
        if (which != 4) row[k].push_back(av[0]), row[k].push_back(av[1]), row[k].push_back(av[2]);
        row[k].push_back(t);
        have[k] = true;
        if (k > high) high = k;
    }
    bool shrink = pse_choice("shrink", 2) == 1;
    if (shrink) h.shrink_to_fit();
    bool twice = pse_choice("twice", 2) == 1;
    char file[256]; // nothing forks from here on
    pse_tmpfile(file, sizeof file);
    h.export_csv(file);
    if (twice) h.export_csv(file);

    std::ifstream f(file);
    pse_assert(bool(f), "the file can be read");
    std::string line;
    pse_assert(bool(std::getline(f, line)), "there is a header");
    auto header = split(line);
    pse_assert(header.size() == names.size() && header[0] == "time", "the header names time and every tracked signal");
    std::vector<int> col; // index into names
    for (auto& n : header)
    {
        int k = -1;
        for (std::size_t j = 0; j < names.size(); j++)
            if (names[j] == n) k = int(j);
        pse_assert(k >= 0, "the header names only tracked signals");
        for (int c : col) pse_assert(c != k, "every column once");
        col.push_back(k);
    }
    int n = 0;
    while (std::getline(f, line))
    {
        auto cells = split(line);
        pse_assert(n <= high, "no line besides the recorded rows");
        pse_assert(cells.size() == header.size(), "as many values as columns");
        if (n > high || cells.size() != header.size()) return;
        if (have[n])
        {
            bool ok = true;
            for (std::size_t c = 0; c < cells.size(); c++) ok = pse_and(ok, pse_close(pse_parse_double(cells[c].c_str()), row[n][col[c]], 1e-3));
            pse_assert(ok, "the recorded time and values");
        }
        n++;
    }
    pse_assert(n == high + 1, "one line for every recorded row");
    f.close();
    std::remove(file);
    pse_reach(shrink ? "shrunk" : "unshrunk");
}

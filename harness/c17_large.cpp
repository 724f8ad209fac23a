//@ property C17
//@ theory real
//@ modes debug release
//@ reach many long
//@ bounds larger instances: 15 rows of 14 signals of all four kinds, arrays of lengths 1, 9 and 17 (44 columns), a growth increment of 4, exported before and after shrinking; every value symbolic in [-100,100]
#include "common.hpp"
#include "src/solver/history.hpp"
#include <cstdio>
#include <fstream>
using namespace pooya;

static std::vector<std::string> split(const std::string& line)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : line)
    {
        if (c == ',')
        {
            r.push_back(cur);
            cur.clear();
        }
        else
            cur += c;
    }
    r.push_back(cur);
    return r;
}

void pse_main()
{
    bool shrink = pse_choice("shrink", 2) == 1;
    constexpr int NR = 15;
    static const int LEN[] = {1, 9, 17};
    History h{4};
    std::vector<ScalarSignal> s;
    std::vector<IntSignal> i;
    std::vector<BoolSignal> b;
    std::vector<ArraySignal> a;
    std::vector<std::string> names;
    for (int k = 0; k < 5; k++) s.push_back(ScalarSignal(nm("s", k))), h.track(s[k]), names.push_back(nm("s", k));
    for (int k = 0; k < 3; k++) i.push_back(IntSignal(nm("i", k))), h.track(i[k]), names.push_back(nm("i", k));
    for (int k = 0; k < 3; k++) b.push_back(BoolSignal(nm("b", k))), h.track(b[k]), names.push_back(nm("b", k));
    for (int k = 0; k < 3; k++)
    {
        a.push_back(ArraySignal(LEN[k], nm("a", k)));
        h.track(a[k]);
        for (int j = 0; j < LEN[k]; j++) names.push_back(nm("a", k) + "[" + std::to_string(j) + "]");
    }
    names.push_back("time");
    std::vector<std::vector<double>> row(NR);
    for (int r = 0; r < NR; r++)
    {
        for (auto& x : s)
        {
            double v = sym("s");
            x->clear(), x = v;
            row[r].push_back(v);
        }
        for (auto& x : i)
        {
            int v = pse_int_in("i", -100, 100);
            x->clear(), x = v;
            row[r].push_back(double(v));
        }
        for (auto& x : b)
        {
            bool v = pse_bool("b");
            x->clear(), x = v;
            row[r].push_back(pse_ite(v, 1, 0));
        }
        for (int k = 0; k < 3; k++)
        {
            Array v = sym_array("a", LEN[k]);
            a[k]->clear(), a[k] = v;
            for (int j = 0; j < LEN[k]; j++) row[r].push_back(v[j]);
        }
        double t = sym("t");
        h.update(unsigned(r), t);
        row[r].push_back(t);
    }
    if (shrink) h.shrink_to_fit();
    char file[256];
    pse_tmpfile(file, sizeof file);
    h.export_csv(file);
    std::ifstream f(file);
    pse_assert(bool(f), "the file can be read");
    std::string line;
    std::getline(f, line);
    auto header = split(line);
    pse_assert(header.size() == names.size() && header[0] == "time", "the header names time and every tracked signal");
    std::vector<int> col;
    std::vector<char> used(names.size(), 0);
    for (auto& n : header)
    {
        int k = -1;
        for (std::size_t j = 0; j < names.size(); j++)
            if (names[j] == n) k = int(j);
        pse_assert(k >= 0 && !used[k], "the header names every tracked signal once");
        if (k < 0) return;
        used[k] = 1;
        col.push_back(k);
    }
    int n = 0;
    while (std::getline(f, line))
    {
        auto cells = split(line);
        pse_assert(n < NR && cells.size() == header.size(), "as many lines and values as recorded");
        if (n >= NR || cells.size() != header.size()) return;
        bool ok = true;
        for (std::size_t c = 0; c < cells.size(); c++) ok = pse_and(ok, pse_close(pse_parse_double(cells[c].c_str()), row[n][col[c]], 1e-3));
        pse_assert(ok, "the recorded time and values");
        n++;
    }
    pse_assert(n == NR, "one line for every recorded row");
    f.close();
    std::remove(file);
    pse_reach("many"), pse_reach("long");
}

//@ property C16
//@ theory fp
//@ modes debug release
//@ reach grown default backwards many
//@ bounds larger instances: 40 rows with growth increments 1, 3 and 16, written forwards, backwards or in a mixed order, every other row rewritten; 1005 rows with the default increment; 12 tracked signals of all kinds, arrays of length 9; every 64-bit double in the values and times of every tenth row
#include "common.hpp"
#include "src/solver/history.hpp"
using namespace pooya;

void pse_main()
{
    int what = pse_choice("what", 4); // growth 1, 3, 16, default
    int n    = what == 3 ? 1005 : 40;
    int mode = what == 3 ? 0 : pse_choice("order", 3);
    static const unsigned grows[] = {1, 3, 16};
    std::unique_ptr<History> hp;
    if (what == 3) hp = std::make_unique<History>();
    else hp = std::make_unique<History>(grows[what]);
    History& h = *hp;
    constexpr int K = 3;
    std::vector<ScalarSignal> s;
    std::vector<IntSignal> i;
    std::vector<BoolSignal> b;
    std::vector<ArraySignal> a;
    for (int k = 0; k < K; k++)
    {
        s.push_back(ScalarSignal(nm("s", k))), i.push_back(IntSignal(nm("i", k)));
        b.push_back(BoolSignal(nm("b", k))), a.push_back(ArraySignal(k ? 9 : 1, nm("a", k)));
        h.track(s[k]), h.track(i[k]), h.track(b[k]), h.track(a[k]);
    }
    // the values of a row
    std::vector<double> t(n), v(n);
    std::vector<int> iv(n);
    std::vector<char> done(n, 0);
    auto write = [&](int r, bool again)
    {
        bool symbolic = r % 10 == 0 || (r > n - 3);
        t[r]  = symbolic ? pse_double("t") : r + (again ? 0.5 : 0);
        v[r]  = symbolic ? pse_double("v") : 3 * r + (again ? 0.25 : 0);
        iv[r] = symbolic ? pse_int("i") : r * 7 + again;
        for (int k = 0; k < K; k++)
        {
            s[k]->clear(), i[k]->clear(), b[k]->clear(), a[k]->clear();
            s[k] = k == 1 ? v[r] : r + k;
            i[k] = k == 1 ? iv[r] : r - k;
            b[k] = (r + k) % 2 == 0;
            Array w(k ? 9 : 1);
            for (int j = 0; j < w.rows(); j++) w[j] = j == 0 && k == 2 ? v[r] : r + j;
            a[k] = w;
        }
        h.update(unsigned(r), t[r]);
        done[r] = 1;
    };
    for (int q = 0; q < n; q++)
    {
        int r = mode == 0 ? q : mode == 1 ? n - 1 - q : (q * 7) % n;
        write(r, false);
        if (what != 3 && q % 2) write(r, true);
    }
    pse_assert(int(h.nrows()) == n, "the number of rows");
    auto check = [&]
    {
        bool ok = true;
        for (int r = 0; r < n; r++)
        {
            ok = pse_and(ok, pse_same(h.time()(r), t[r]));
            for (int k = 0; k < K; k++)
            {
                ok = pse_and(ok, pse_same(h[s[k]](r, 0), k == 1 ? v[r] : double(r + k)));
                ok = pse_and(ok, pse_same(h[i[k]](r, 0), k == 1 ? double(iv[r]) : double(r - k)));
                ok = pse_and(ok, h[b[k]](r, 0) == ((r + k) % 2 == 0 ? 1.0 : 0.0));
                for (int j = 0; j < (k ? 9 : 1); j++) ok = pse_and(ok, pse_same(h[a[k]](r, j), j == 0 && k == 2 ? v[r] : double(r + j)));
            }
        }
        pse_assert(ok, "every row holds the time and the values of its last update");
    };
    check();
    h.shrink_to_fit();
    pse_assert(int(h.nrows()) == n && h.time().size() == n && h[a[2]].rows() == n && h[a[2]].cols() == 9, "shrunk to the rows recorded");
    check();
    pse_reach("grown"), pse_reach("many");
    if (what == 3) pse_reach("default");
    if (mode == 1) pse_reach("backwards");
}

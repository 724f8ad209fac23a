//@ property C19
//@ theory fp
//@ modes debug release
//@ reach emended path rename orphan late labels
//@ bounds names of every length 0..NLEN (quick 3, thorough 5) of arbitrary characters; under up to three ancestors, any one of the names (of the block or an ancestor, original or renamed) of 0..PLEN (quick 2, thorough 3) arbitrary characters and the others fixed; labels of up to NLEN-1 arbitrary characters for members of every kind, named or not
//@ quick -DNLEN=3 -DPLEN=2
//@ thorough -DNLEN=5 -DPLEN=3
#include "common.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/submodel.hpp"
using namespace pooya;

static std::string text(const char* base, int n)
{
    std::string s(std::size_t(n), ' ');
    for (int k = 0; k < n; k++) s[k] = char(pse_char(nm(base, k).c_str()));
    return s;
}
static bool in(unsigned char c, unsigned char lo, unsigned char hi) { return pse_and(c >= lo, c <= hi); }
static bool kept(unsigned char c) { return pse_or(pse_or(in(c, 'a', 'z'), in(c, 'A', 'Z')), pse_or(in(c, '0', '9'), c == '_')); }

// is `out` the valid form of `in`?
static void check_emended(const std::string& in, const std::string& out)
{
    pse_assert(out.size() == in.size(), "the length is preserved");
    bool ok = true;
    for (std::size_t i = 0; i < in.size() && i < out.size(); i++)
    {
        bool k = kept(in[i]);
        ok     = pse_and(ok, pse_and(pse_or(pse_not(k), out[i] == in[i]), pse_or(k, out[i] == '_')));
    }
    pse_assert(ok, "letters, digits and underscores stay, everything else becomes an underscore");
}
static void check_same(const std::string& a, const std::string& b)
{
    pse_assert(a.size() == b.size(), "same length");
    bool ok = true;
    for (std::size_t i = 0; i < a.size() && i < b.size(); i++) ok = pse_and(ok, a[i] == b[i]);
    pse_assert(ok, "the same name");
}

void pse_main()
{
    int what = pse_choice("what", 5);
    if (what == 0)
    {
        std::string t = text("n", pse_choice("length", NLEN + 1));
        std::string e = ValidName::emend(t);
        check_emended(t, e);
        check_same(ValidName::emend(e), e);
        ValidName v(t), w;
        check_same(v.str(), e);
        w = t;
        check_same(w.str(), e);
        check_same(ValidName::emend(v), e);
        NamedObject o;
        o.rename(t);
        check_same(o.name().str(), e);
        o.rename(o.name().str());
        check_same(o.name().str(), e);
        pse_reach("emended");
    }
    if (what == 1)
    {
        std::string t = text("n", pse_choice("length", NLEN + 1));
        ScalarSignal s(t);
        check_emended(t, s->name().str());
        Bus b;
        BoolSignal o(t);
        IntSignal i(t);
        ArraySignal a(2, t);
        check_emended(t, o->name().str());
        check_emended(t, i->name().str());
        check_emended(t, a->name().str());
        std::string u = text("r", pse_choice("length", 2));
        s->rename(u);
        check_emended(u, s->name().str());
        check_emended(t, o->name().str());
        Gain g(1.0, nullptr, t);
        check_emended(t, g.name().str());
        g.rename(u);
        check_emended(u, g.name().str());
        pse_reach("rename");
    }
    if (what == 2)
    {
        // block under `depth` submodels
        int depth = pse_choice("depth", 4);
        bool ren  = pse_choice("rename", 2);
        int which = pse_choice("which", depth + 1); // the name with arbitrary characters
        std::vector<std::string> raw;
        std::vector<std::unique_ptr<Submodel>> subs;
        auto name = [&](int k)
        {
            const char* fixed[] = {"a/b", "", "C.1", "_d"};
            return k == which && !ren ? text("a", pse_choice("len", PLEN + 1)) : std::string(fixed[k]);
        };
        for (int d = 0; d < depth; d++)
        {
            raw.push_back(name(d));
            subs.push_back(std::make_unique<Submodel>(d ? subs.back().get() : nullptr, raw.back()));
        }
        raw.push_back(name(depth));
        bool late = depth > 0 && pse_choice("late", 2); // parent given afterwards
        Gain g(1.0, late || !depth ? nullptr : subs.back().get(), raw.back());
        if (late) g.set_parent(*subs.back());
        if (ren)
        {
            int k  = which;
            raw[k] = text("r", pse_choice("len", PLEN + 1));
            if (k < depth) subs[k]->rename(raw[k]);
            else g.rename(raw[k]);
        }
        // independent of where the path begins: every name is preceded by a slash
        std::string full = g.full_name().str();
        std::string want;
        for (auto& r : raw) want += "/" + std::string(r.size(), '?');
        pse_assert(full.size() == want.size(), "the full name is the slash-separated list of the names");
        std::size_t p = 0;
        for (auto& r : raw)
        {
            pse_assert(full[p] == '/', "the names are separated by slashes");
            check_emended(r, full.substr(p + 1, r.size()));
            p += 1 + r.size();
        }
        for (int d = 0; d < depth; d++)
        {
            std::string sub = subs[d]->full_name().str();
            check_same(sub, full.substr(0, sub.size()));
            pse_assert(full[sub.size()] == '/', "the path of an ancestor is followed by a slash");
        }
        pse_reach(late ? "late" : depth ? "path" : "orphan");
    }
    if (what == 3)
    {
        // joined names
        std::string t = text("n", pse_choice("length", PLEN)), u = text("u", pse_choice("length", PLEN + 1));
        ValidName v(t), w(u);
        for (int k = 0; k < 4; k++)
        {
            std::string j = k == 0 ? (v | w).str() : k == 1 ? (v / w).str() : k == 2 ? (v | u).str() : (v / u).str();
            pse_assert(j.size() == t.size() + 1 + u.size(), "joined name");
            check_emended(t, j.substr(0, t.size()));
            pse_assert(j[t.size()] == (k % 2 ? '/' : '.'), "separator");
            check_emended(u, j.substr(t.size() + 1));
        }
        check_emended(t, v.str());
        check_emended(u, w.str());
    }
    if (what == 4)
    {
        // labels of a bus: made valid; members without a name take them as their names
        std::string t = text("n", pse_choice("length", NLEN));
        int kind   = pse_choice("kind", 5);
        bool named = pse_choice("named", 2);
        const char* own = named ? "own" : "";
        ScalarSignal s(kind == 0 ? own : "");
        IntSignal i(kind == 1 ? own : "");
        BoolSignal b(kind == 2 ? own : "");
        ArraySignal a(2, kind == 3 ? own : "");
        Bus n({{"inner", ScalarSignal()}}, kind == 4 ? own : "");
        const Signal& sig = kind == 0 ? static_cast<const Signal&>(s) : kind == 1 ? static_cast<const Signal&>(i) : kind == 2 ? static_cast<const Signal&>(b) : kind == 3 ? static_cast<const Signal&>(a) : static_cast<const Signal&>(n);
        ScalarSignal other, last("last");
        using P = std::pair<std::string, Signal>;
        Bus bus({P{"first", other}, P{t, sig}, P{"third", last}});
        pse_assert(bus.size() == 3, "all members");
        int k = 0;
        for (auto& m : bus)
        {
            if (k == 0) pse_assert(m.first == "first" && m.second->name().str() == "first", "the label becomes the name");
            if (k == 1) check_emended(t, m.first);
            if (k == 2) pse_assert(m.first == "third" && m.second->name().str() == "last", "a name is kept");
            k++;
        }
        if (named) pse_assert(sig->name().str() == "own", "a name is kept");
        else check_emended(t, sig->name().str());
        // in another bus
        Bus again({P{"x", sig}, P{"y", last}});
        if (named) pse_assert(sig->name().str() == "own", "a name is kept");
        else if (t.empty()) pse_assert(sig->name().str() == "x", "the label becomes the name");
        else check_emended(t, sig->name().str());
        // without labels
        ScalarSignal u0, u1("mine");
        Bus unlabelled({static_cast<const Signal&>(u0), u1, sig});
        pse_assert(u0->name().str() == "sig0" && u1->name().str() == "mine", "the automatic label becomes the name of the unnamed");
        if (named) pse_assert(sig->name().str() == "own", "a name is kept");
        pse_reach("labels");
    }
}

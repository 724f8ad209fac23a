//@ property C21
//@ theory fp
//@ modes debug release
//@ reach whole stopped limited none refused again cycle
//@ bounds every tree of up to NODES blocks (quick 4, thorough 5), each a submodel or a leaf, built top-down through the constructor, or afterwards through add_block or set_parent; every depth limit and first level up to 1000; stopping at every block; both kinds of visit; every attempt to add a block to a second parent or a submodel into itself
//@ quick -DNODES=4
//@ thorough -DNODES=5
#include "common.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/submodel.hpp"
using namespace pooya;

struct Tree
{
    std::vector<std::unique_ptr<Block>> b;
    std::vector<int> parent;
    std::vector<bool> sub;
    int depth(int i) const { return parent[i] < 0 ? 0 : 1 + depth(parent[i]); }
    Submodel& submodel(int i) { return static_cast<Submodel&>(*b[i]); }
    int find(const Block& x) const
    {
        for (std::size_t i = 0; i < b.size(); i++)
            if (b[i].get() == &x) return int(i);
        return -1;
    }
};

// visits the tree from its root and checks what is seen
static void check_visit(Tree& t, bool cv, uint32_t level, uint32_t max_level, int stop)
{
    std::size_t d0 = trace_depth();
    std::vector<int> seen(t.b.size(), 0);
    int calls = 0;
    bool told = false;
    auto see  = [&](const Block& x, uint32_t l) -> bool
    {
        int i = t.find(x);
        pse_assert(i >= 0, "a visit reaches blocks of the model only");
        if (i < 0) return false;
        pse_assert(!told, "a visit stops when told to");
        pse_assert(!seen[i], "no block is visited twice");
        seen[i] = 1;
        pse_assert(t.parent[i] < 0 || seen[t.parent[i]], "parents before children");
        pse_assert(l == level + uint32_t(t.depth(i)), "every block is visited with its depth");
        pse_assert(l <= max_level, "the depth limit is honoured");
        calls++;
        if (calls == stop) told = true;
        return !told;
    };
    bool r = cv ? static_cast<const Block&>(*t.b[0]).const_visit([&](const Block& x, uint32_t l) { return see(x, l); }, level, max_level)
                : t.b[0]->visit([&](Block& x, uint32_t l) { return see(x, l); }, level, max_level);
    pse_assert(r == !told, "the visit tells whether it was stopped");
    int within = 0;
    for (std::size_t i = 0; i < t.b.size(); i++)
        if (level + uint32_t(t.depth(int(i))) <= max_level)
        {
            within++;
            if (!told) pse_assert(seen[i] == 1, "a visit reaches every block");
        }
    if (told) pse_reach("stopped");
    else pse_assert(calls == within, "all blocks within the limit");
    if (!told && within == int(t.b.size())) pse_reach("whole");
    if (within > 0 && within < int(t.b.size())) pse_reach("limited");
    if (within == 0) pse_reach("none");
    pse_assert(trace_depth() == d0, "trace depth");
}

void pse_main()
{
    Tree t;
    int n   = 1 + pse_choice("nodes", NODES);
    int how = pse_choice("how", 3);
    for (int i = 0; i < n; i++)
    {
        int par = -1;
        if (i > 0)
        {
            std::vector<int> cand;
            for (int k = 0; k < i; k++)
                if (t.sub[k]) cand.push_back(k);
            par = cand[pse_choice("parent", int(cand.size()))];
        }
        bool sub   = i == 0 || pse_choice("submodel", 2);
        Submodel* p = par >= 0 ? &t.submodel(par) : nullptr;
        Submodel* c = how == 0 ? p : nullptr;
        std::string name = nm("b", i);
        if (sub) t.b.push_back(std::make_unique<Submodel>(c, name));
        else t.b.push_back(std::make_unique<Gain>(1.0, c, name));
        t.parent.push_back(par);
        t.sub.push_back(sub);
        if (p && how == 1)
        {
            bool ok = sub ? p->add_block(*t.b[i]) : p->add_block(*t.b[i], Bus({static_cast<const Signal&>(ScalarSignal("x"))}), Bus({static_cast<const Signal&>(ScalarSignal("y"))}));
            pse_assert(ok && t.b[i]->connected(), "a block without parent can be added");
        }
        if (p && how == 2) pse_assert(t.b[i]->set_parent(*p), "a block without parent can be given one");
        pse_assert(t.b[i]->parent() == p, "the parent");
    }
    if (pse_choice("what", 2) == 0)
    {
        uint32_t level = uint32_t(pse_int_in("level", 0, 1000)), max_level = uint32_t(pse_int("max"));
        int stop = pse_int_in("stop", 0, NODES);
        check_visit(t, pse_choice("const", 2), level, max_level, stop);
    }
    else
    {
        int i = pse_choice("child", n);
        if (i == 0)
        {
            // the root has no parent, but it may not be put into itself or below itself
            std::vector<Submodel*> in;
            for (int k = 0; k < n; k++)
                if (t.sub[k]) in.push_back(&t.submodel(k));
            Submodel* to = in[pse_choice("to", int(in.size()))];
            bool ok      = pse_choice("op", 2) ? t.b[0]->set_parent(*to) : to->add_block(*t.b[0]);
            pse_assert(!ok && !t.b[0]->parent(), "a submodel cannot be its own ancestor");
            pse_assert(!t.b[0]->connected(), "a refused block is not connected");
            check_visit(t, false, 0, 1000, 0);
            check_visit(t, true, 0, 1000, 0);
            pse_reach("cycle");
            return;
        }
        // any submodel of the model, or another one
        Submodel other(nullptr, "other");
        std::vector<Submodel*> cand = {&other};
        for (int k = 0; k < n; k++)
        {
            if (t.sub[k]) cand.push_back(&t.submodel(k));
        }
        Submodel* to   = cand[pse_choice("to", int(cand.size()))];
        Submodel* from = &t.submodel(t.parent[i]);
        bool conn      = t.b[i]->connected();
        int op         = pse_choice("op", 3);
        bool ok        = false;
        if (op == 2 || (op == 1 && to == from && conn))
        {
            ok = t.b[i]->set_parent(*to);
            pse_assert(ok == (to == from), "a block belongs to one parent only");
        }
        else if (op == 1)
        {
            ok = t.sub[i] ? to->add_block(*t.b[i]) : to->add_block(*t.b[i], Bus({static_cast<const Signal&>(ScalarSignal("x"))}), Bus({static_cast<const Signal&>(ScalarSignal("y"))}));
            pse_assert(ok == (to == from), "a block belongs to one parent only");
        }
        else
        {
            ok = to->link_block(*t.b[i]);
            pse_assert(ok == (to == from), "only children are linked");
        }
        pse_assert(t.b[i]->parent() == from, "the parent stays");
        if (!ok) pse_assert(t.b[i]->connected() == conn, "adding a block elsewhere has no effect");
        int below_other = 0;
        other.visit([&](Block&, uint32_t) { below_other++; return true; }, 0);
        pse_assert(below_other == 1, "the other model has no blocks");
        check_visit(t, false, 0, 1000, 0);
        check_visit(t, true, 0, 1000, 0);
        pse_reach(ok ? "again" : "refused");
    }
}

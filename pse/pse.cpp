// pse: a forking symbolic executor for LLVM bitcode with Z3.
//
// Executes `pse_main` of a linked bitcode module. All memory of the program under test lives in an arena of real
// host memory at a fixed address, so that external (libstdc++/libc) functions can be called natively; symbolic
// values are kept in a shadow map over that arena. A branch on a symbolic condition whose two sides are both
// feasible forks the process. Assertions are discharged by Z3 for all values of the symbolic inputs on the path.
#include "expr.hpp"

#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include <atomic>
#include <csignal>
#include <ctime>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using u64 = uint64_t;
using u8  = uint8_t;

Theory g_theory = TH_REAL;
ExprPool EP;
Z* z;

// ---------------------------------------------------------------------------------------------- arena
static const u64 GBASE = 0x100000000000ULL, GSIZE = 64ULL << 20;
static const u64 HBASE = GBASE + GSIZE, HSIZE = 1ULL << 30;
static const u64 SBASE = HBASE + HSIZE, SSIZE = 256ULL << 20;
static const u64 AEND  = SBASE + SSIZE;
static u8* g_addr; // one byte per arena byte: 1 = addressable
static u8* g_symf; // one byte per 8 arena bytes: contains a symbolic cell
static u64 gtop = GBASE + 64, htop = HBASE + 64, stop_ = SBASE + 64;
static inline bool inArena(u64 a) { return a >= GBASE && a < AEND; }
static const u64 FBASE = 0x5e0000000000ULL;

static std::unordered_map<u64, u64> g_allocs; // live heap blocks: address -> size
static bool g_arena_ready = false;

void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void nativeDelete(void* p)
{
    u64 a = (u64)p;
    if (g_arena_ready && inArena(a))
    {
        auto it = g_allocs.find(a);
        if (it != g_allocs.end())
        {
            memset(g_addr + (a - GBASE), 0, it->second);
            g_allocs.erase(it);
        }
        return;
    }
    free(p);
}
void operator delete(void* p) noexcept { nativeDelete(p); }
void operator delete(void* p, size_t) noexcept { nativeDelete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { nativeDelete(p); }
void operator delete[](void* p, size_t) noexcept { nativeDelete(p); }

// ---------------------------------------------------------------------------------------------- shared results
struct Shared {
    std::atomic<int> active;
    std::atomic<u64> paths, completed, infeasible, instrs, branches, sym_branches, forks;
    std::atomic<u64> q_total, q_sat, q_unsat, q_unknown, q_us, maxq_us;
    std::atomic<u64> asserts, a_concrete, a_simpl, a_solver, a_unknown, violations, assumed_out;
    std::atomic<u64> unsupported, limits, nonfinite, choices, dumped, nsymvars;
    std::atomic<int> stop;
};
static Shared* sh;
static int out_fd = -1;
static double t_deadline;
static int max_procs = 8;
static u64 max_paths = 300000, max_instr = 120000000ULL;
static u64 g_rlimit  = 60000000ULL;
static std::string dump_dir;
static u64 dump_max = 0;
static int max_viol = 6;
static int verbose  = 0;
static std::string g_choices_filter;

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
static void emit(const std::string& line)
{
    std::string s = line + "\n";
    size_t o = 0;
    while (o < s.size())
    {
        ssize_t n = write(out_fd, s.data() + o, s.size() - o);
        if (n <= 0) break;
        o += size_t(n);
    }
}

struct PathEnd {
    int kind; // 0 done, 1 infeasible/assume, 2 violation, 3 unsupported, 4 limit
};

// ---------------------------------------------------------------------------------------------- values
struct Agg;
struct Val {
    u64 c    = 0;
    Expr* e  = nullptr;
    Agg* agg() const { return (Agg*)c; }
};
struct Agg {
    std::vector<Val> v;
};
enum K : u8 { K_VOID, K_INT, K_PTR, K_DBL, K_FLT, K_AGG, K_BAD };

// input record of a path (for replays)
struct Input {
    char kind; // d double, i int bv, b bool, c choice, e env
    std::string name;
    Expr* e;
    u64 c;
    unsigned w;
};
static std::vector<Input> inputs;
static std::map<std::string, int> name_cnt;
static std::vector<Expr*> pc;
static std::unordered_set<Expr*> pcset;
static std::set<std::string> reached;

static void where(std::string& s);

// ---------------------------------------------------------------------------------------------- solver
struct ModelVal {
    bool ok = false;
    u64 bits = 0;
};
enum R { SAT, UNSAT, UNKNOWN };

static void sliceFor(const std::vector<uint32_t>* seed, std::vector<Expr*>& out)
{
    std::set<uint32_t> vs;
    if (seed) vs.insert(seed->begin(), seed->end());
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++)
        {
            if (in[i] || !pc[i]->vars) continue;
            bool hit = false;
            for (auto v : *pc[i]->vars)
                if (vs.count(v)) { hit = true; break; }
            if (hit)
            {
                in[i] = 1;
                ch    = true;
                vs.insert(pc[i]->vars->begin(), pc[i]->vars->end());
            }
        }
    }
    for (size_t i = 0; i < pc.size(); i++)
        if (in[i]) out.push_back(pc[i]);
}

static z3::expr simp(z3::expr e)
{
    z3::params p(z->ctx);
    p.set("som", true);
    p.set("som_blowup", 2000u);
    p.set("arith_lhs", true);
    p.set("sort_sums", true);
    return e.simplify(p);
}

struct Query {
    std::vector<Expr*> cs;
    bool nonlin = false, uf = false, bvfp = false, real = false;
    void add(Expr* e)
    {
        cs.push_back(e);
        nonlin |= e->nonlin;
        uf |= e->hasuf;
        bvfp |= e->hasbv;
        if (e->vars)
            for (auto v : *e->vars)
            {
                if (EP.varsorts[v] == S::REAL) real = true;
                else bvfp = true;
            }
    }
};

static z3::solver mksolver(const Query& q, int attempt)
{
    z3::params p(z->ctx);
    u64 rl = attempt == 0 ? g_rlimit : g_rlimit * 2;
    p.set("rlimit", unsigned(std::min<u64>(rl, 4000000000ULL)));
    if (q.real && !q.bvfp && !q.uf && q.nonlin && attempt == 0)
    {
        z3::solver s = z3::tactic(z->ctx, "qfnra-nlsat").mk_solver();
        s.set(p);
        return s;
    }
    if (!q.real && attempt == 0)
    {
        z3::solver s = z3::tactic(z->ctx, g_theory == TH_FP ? "qffp" : "qfbv").mk_solver();
        s.set(p);
        return s;
    }
    if (q.real && !q.bvfp && !q.uf && !q.nonlin && attempt == 0)
    {
        z3::solver s(z->ctx, "QF_LRA");
        s.set(p);
        return s;
    }
    z3::solver s(z->ctx);
    s.set(p);
    return s;
}

static std::vector<z3::expr*> simp_cache;
static z3::expr simpOf(Expr* e, bool real)
{
    if (simp_cache.size() <= e->id) simp_cache.resize(EP.all.size() + 256, nullptr);
    auto*& p = simp_cache[e->id];
    if (!p) p = new z3::expr(real ? simp(z->get(e)) : z->get(e).simplify());
    return *p;
}
static R runq(const Query& q, z3::model* m)
{
    std::vector<z3::expr> es;
    for (auto* e : q.cs)
    {
        z3::expr s = simpOf(e, q.real);
        if (s.is_false()) return UNSAT;
        if (s.is_true()) continue;
        es.push_back(s);
    }
    if (es.empty() && !m) return SAT;
    double t0 = now();
    R r       = UNKNOWN;
    int na    = (q.real && q.nonlin && !q.uf && !q.bvfp) || (!q.real) ? 2 : 1;
    for (int a = 0; a < na && r == UNKNOWN; a++)
    {
        try
        {
            z3::solver s = mksolver(q, a);
            for (auto& e : es) s.add(e);
            auto cr = s.check();
            if (cr == z3::sat)
            {
                r = SAT;
                if (m) *m = s.get_model();
            }
            else if (cr == z3::unsat) r = UNSAT;
        }
        catch (z3::exception& ex)
        {
            if (verbose) fprintf(stderr, "z3: %s\n", ex.msg());
        }
    }
    u64 us = u64((now() - t0) * 1e6);
    sh->q_total++;
    sh->q_us += us;
    u64 mx = sh->maxq_us;
    while (us > mx && !sh->maxq_us.compare_exchange_weak(mx, us)) {}
    (r == SAT ? sh->q_sat : r == UNSAT ? sh->q_unsat : sh->q_unknown)++;
    if (verbose > 1 && us > 500000) fprintf(stderr, "slow query %.2fs -> %d\n", us * 1e-6, r);
    return r;
}

// an assignment of values to variables known to satisfy the whole path condition (a missing variable has the value
// of modelDefault): it answers one side of most branches without a query
using Assign = std::map<uint32_t, z3::expr>;
static Assign cur;
static bool cur_ok = true;
static z3::expr varConst(uint32_t v)
{
    const char* n = EP.varnames[v].c_str();
    switch (EP.varsorts[v])
    {
    case S::BOOL: return z->ctx.bool_const(n);
    case S::BV: return z->ctx.bv_const(n, EP.varw[v]);
    case S::REAL: return z->ctx.real_const(n);
    case S::FP: return z->ctx.constant(n, z->fps);
    }
    abort();
}
static z3::expr modelDefault(uint32_t v)
{
    switch (EP.varsorts[v])
    {
    case S::BOOL: return z->ctx.bool_val(false);
    case S::BV: return z->ctx.bv_val(0, EP.varw[v]);
    case S::REAL: return z->ctx.real_val(0);
    case S::FP: return z3::expr(z->ctx, Z3_mk_fpa_to_fp_bv(z->ctx, z->ctx.bv_val(uint64_t(0), 64), z->fps)).simplify();
    }
    abort();
}
// 1 true, 0 false, -1 not known
static int evalCur(Expr* c)
{
    if (!cur_ok || c->hasuf || !c->vars) return -1;
    try
    {
        z3::model m(z->ctx);
        for (auto v : *c->vars)
        {
            z3::expr k  = varConst(v);
            auto it     = cur.find(v);
            z3::expr vv = it == cur.end() ? modelDefault(v) : it->second;
            z3::func_decl d = k.decl();
            m.add_const_interp(d, vv);
        }
        z3::expr r = m.eval(z->get(c), true);
        if (r.is_true()) return 1;
        if (r.is_false()) return 0;
    }
    catch (z3::exception&) {}
    return -1;
}
// values of the variables of a satisfiable query, merged over the current ones (the query holds every constraint that
// shares a variable with it)
static bool takeModel(const Query& q, z3::model& m, Assign& out)
{
    try
    {
        for (auto* e : q.cs)
            if (e->vars)
                for (auto v : *e->vars)
                {
                    z3::expr x = m.eval(varConst(v), true);
                    if (EP.varsorts[v] == S::REAL ? !x.is_numeral() : false) return false; // algebraic numbers are slow
                    out.insert_or_assign(v, x);
                }
    }
    catch (z3::exception&) { return false; }
    return true;
}
struct QRes { R r; bool have; Assign a; };
static std::unordered_map<std::string, QRes> qcache;

// satisfiability of the path condition with c; on SAT, `out` may receive an assignment (of the variables involved)
static R feasible(Expr* c, Assign* out = nullptr, bool* have = nullptr)
{
    if (have) *have = false;
    if (X::isT(c)) return SAT;
    if (X::isF(c)) return UNSAT;
    if (pcset.count(c)) return SAT;
    if (pcset.count(X::Not(c))) return UNSAT;
    Query q;
    std::vector<Expr*> sl;
    sliceFor(c->vars, sl);
    std::string key;
    for (auto* e : sl) key += std::to_string(e->id) + ",";
    key += std::to_string(c->id);
    auto it = qcache.find(key);
    if (it == qcache.end())
    {
        for (auto* e : sl) q.add(e);
        q.add(c);
        QRes res{UNKNOWN, false, {}};
        z3::model m(z->ctx);
        res.r = runq(q, &m);
        if (res.r == SAT && !q.uf) res.have = takeModel(q, m, res.a);
        it = qcache.emplace(key, std::move(res)).first;
    }
    if (it->second.r == SAT && it->second.have && out)
    {
        *out = it->second.a;
        if (have) *have = true;
    }
    return it->second.r;
}

static void addpc(Expr* c)
{
    if (X::isT(c)) return;
    if (c->op == O::AND)
    {
        addpc(c->k[0]);
        addpc(c->k[1]);
        return;
    }
    if (pcset.insert(c).second) pc.push_back(c);
}

// ---- model extraction: prefer values on coarse grids, which replay without rounding trouble
static std::string dhex(double d)
{
    char b[64];
    snprintf(b, 64, "%a", d);
    return b;
}
static double z3num(const z3::expr& v, bool& ok)
{
    ok = true;
    try
    {
        if (v.is_numeral())
        {
            std::string s = v.get_decimal_string(40);
            if (!s.empty() && s.back() == '?') s.pop_back();
            return strtod(s.c_str(), nullptr);
        }
        if (v.is_algebraic())
        {
            std::string s = v.get_decimal_string(40);
            if (!s.empty() && s.back() == '?') s.pop_back();
            return strtod(s.c_str(), nullptr);
        }
    }
    catch (z3::exception&) {}
    ok = false;
    return 0;
}

static std::string modelJson(const std::vector<Expr*>& cs, bool prefer_grid, int variant)
{
    // returns the JSON array of inputs, or "" when no model could be produced
    Query q;
    for (auto* e : cs) q.add(e);
    try
    {
        std::vector<z3::expr> es;
        for (auto* e : q.cs) es.push_back(z->get(e));
        z3::model m(z->ctx);
        if (runq(q, &m) != SAT) return "";
        std::map<uint32_t, std::string> fixed;
        std::vector<z3::expr> extra;
        std::unordered_map<uint32_t, double> dv;
        auto tryAdd = [&](z3::expr c) -> bool
        {
            z3::params p(z->ctx);
            p.set("rlimit", 3000000u);
            z3::solver s = (q.real && !q.bvfp && !q.uf && q.nonlin) ? z3::tactic(z->ctx, "qfnra-nlsat").mk_solver()
                           : z3::solver(z->ctx);
            s.set(p);
            for (auto& e : es) s.add(e);
            for (auto& e : extra) s.add(e);
            s.add(c);
            try
            {
                if (s.check() == z3::sat)
                {
                    m = s.get_model();
                    return true;
                }
            }
            catch (z3::exception&) {}
            return false;
        };
        if (prefer_grid && q.real)
        {
            double tstart = now();
            for (auto& in : inputs)
            {
                if (!in.e || in.e->s != S::REAL) continue;
                if (now() - tstart > 60) break;
                z3::expr x = z->get(in.e);
                bool ok;
                double v = z3num(m.eval(x, true), ok);
                if (!ok) continue;
                static const double grids[3][2] = {{1, 64}, {64, 4096}, {4096, 1048576}};
                bool done = false;
                for (int gi = (variant > 1 ? 1 : 0); gi < 3 && !done; gi++)
                {
                    double g  = gi == 0 ? 8 : gi == 1 ? 1024 : 1048576;
                    (void)grids;
                    double rv = std::round(v * g) / g;
                    if (std::fabs(rv) > 1e12) break;
                    z3::expr c = x == z->real(rv);
                    if (tryAdd(c))
                    {
                        extra.push_back(c);
                        done = true;
                    }
                    else if (rv != 0 && gi == 0)
                    {
                        double a[2] = {std::floor(v * g) / g, std::ceil(v * g) / g};
                        for (double r2 : a)
                        {
                            z3::expr c2 = x == z->real(r2);
                            if (!done && tryAdd(c2)) { extra.push_back(c2); done = true; }
                        }
                    }
                }
            }
        }
        std::string j = "[";
        bool first    = true;
        for (auto& in : inputs)
        {
            if (!first) j += ",";
            first = false;
            std::string val;
            if (!in.e) val = std::to_string(in.c);
            else
            {
                z3::expr v = m.eval(z->get(in.e), true);
                switch (in.e->s)
                {
                case S::BOOL: val = v.is_true() ? "1" : "0"; break;
                case S::BV: { u64 u = 0; std::string s = v.get_decimal_string(0); u = strtoull(s.c_str(), nullptr, 10); val = std::to_string(u); break; }
                case S::REAL: { bool ok; double d = z3num(v, ok); val = dhex(d); break; }
                case S::FP:
                {
                    z3::expr b = z3::expr(z->ctx, Z3_mk_fpa_to_ieee_bv(z->ctx, v)).simplify();
                    val = dhex(b2d(strtoull(b.get_decimal_string(0).c_str(), nullptr, 10)));
                    break;
                }
                }
                if (in.kind == 'd' && in.e->op == O::FFROMBV) // bits variable
                {
                    z3::expr bvv = m.eval(z->get(in.e->k[0]), true);
                    val = "0x" ;
                    char b[32]; snprintf(b, 32, "bits:%016llx", (unsigned long long)strtoull(bvv.get_decimal_string(0).c_str(), nullptr, 10));
                    val = b;
                }
            }
            j += std::string("[\"") + in.kind + "\",\"" + jesc(in.name) + "\",\"" + val + "\"]";
        }
        return j + "]";
    }
    catch (z3::exception& ex)
    {
        fprintf(stderr, "pse: model extraction: %s\n", ex.msg());
        return "";
    }
}

static void dumpQuery(const Query& q)
{
    if (dump_dir.empty()) return;
    u64 n = sh->dumped.fetch_add(1);
    if (n >= dump_max) return;
    z3::solver s(z->ctx);
    for (auto* e : q.cs) s.add(z->get(e));
    std::ofstream f(dump_dir + "/q" + std::to_string(n) + ".smt2");
    f << s.to_smt2();
}

static void report(const std::string& kind, const std::string& msg, Expr* extra)
{
    u64 n = sh->violations.fetch_add(1);
    if (n < u64(max_viol))
    {
        std::vector<Expr*> cs = pc;
        if (extra) cs.push_back(extra);
        std::string w;
        where(w);
        std::string models;
        for (int v = 0; v < 3; v++)
        {
            std::string m = modelJson(cs, v != 1, v);
            if (m.empty()) continue;
            if (!models.empty()) models += ",";
            models += m;
            bool anyreal = false;
            for (auto& in : inputs) anyreal |= in.e && in.e->s == S::REAL;
            if (!anyreal) break;
        }
        emit("V {\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(w) + "\",\"models\":[" +
             models + "]}");
    }
    if (n + 1 >= u64(max_viol)) sh->stop = 1;
}
[[noreturn]] static void violation(const std::string& kind, const std::string& msg)
{
    report(kind, msg, nullptr);
    throw PathEnd{2};
}
[[noreturn]] static void unsupported(const std::string& msg)
{
    sh->unsupported++;
    std::string w;
    where(w);
    emit("U {\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(w) + "\"}");
    throw PathEnd{3};
}

// ---------------------------------------------------------------------------------------------- forking
static std::vector<pid_t> kids;
static u64 ninstr = 0, nbranch = 0, nsymbr = 0;
static void flushStats()
{
    sh->instrs += ninstr;
    sh->branches += nbranch;
    sh->sym_branches += nsymbr;
    ninstr = nbranch = nsymbr = 0;
}
static std::string g_tmpdir;
// every path that waits for another one is a process: stop before the machine has no memory left
static bool memoryLow()
{
    FILE* f = fopen("/proc/meminfo", "r");
    if (!f) return false;
    char line[128];
    unsigned long kb = ~0ul;
    while (fgets(line, sizeof line, f))
        if (sscanf(line, "MemAvailable: %lu", &kb) == 1) break;
    fclose(f);
    return kb < 2500000ul;
}
static bool forkChild()
{ // true in the child
    if (sh->paths.load() >= max_paths || now() > t_deadline || sh->stop || memoryLow())
    {
        sh->limits++;
        return false; // this alternative is not explored (counted as a limit)
    }
    sh->paths++;
    sh->forks++;
    bool conc = false;
    int a     = sh->active.load();
    while (a < max_procs)
        if (sh->active.compare_exchange_weak(a, a + 1)) { conc = true; break; }
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0)
    {
        sh->limits++;
        if (conc) sh->active--;
        return false;
    }
    if (p == 0)
    {
        kids.clear();
        ninstr = nbranch = nsymbr = 0;
        // remember whether this process owns a token
        extern bool g_own_token;
        g_own_token = conc;
        return true;
    }
    if (conc) kids.push_back(p);
    else
    {
        int st;
        malloc_trim(0); // what the solver left behind is not kept while waiting
        waitpid(p, &st, 0);
        if (!WIFEXITED(st))
        {
            sh->unsupported++;
            emit("U {\"msg\":\"a path process died with signal " + std::to_string(WTERMSIG(st)) + "\",\"where\":\"\"}");
        }
    }
    // reap finished concurrent children now and then
    for (size_t i = 0; i < kids.size();)
    {
        int st;
        if (waitpid(kids[i], &st, WNOHANG) > 0)
        {
            if (!WIFEXITED(st)) { sh->unsupported++; sh->active--; emit("U {\"msg\":\"a path process died\",\"where\":\"\"}"); }
            kids.erase(kids.begin() + long(i));
        }
        else i++;
    }
    return false;
}
bool g_own_token = true;

// which outcome is the special one: a comparison is mostly "different". The special outcome goes to the child, which
// runs first, so that loops that look for something do not pile up waiting processes. 1 true, -1 false, 0 no idea
static int special(Expr* c, int depth = 0)
{
    if (depth > 8) return 0;
    switch (c->op)
    {
    case O::EQ:
        return 1;
    case O::NOT:
        return -special(c->k[0], depth + 1);
    case O::AND:
        return special(c->k[0], depth + 1) > 0 || special(c->k[1], depth + 1) > 0 ? 1 : 0;
    case O::OR:
        return special(c->k[0], depth + 1) < 0 || special(c->k[1], depth + 1) < 0 ? -1 : 0;
    default:
        return 0;
    }
}

static bool decide(Expr* c)
{
    if (X::isc(c)) return c->c;
    if (pcset.count(c)) return true;
    if (pcset.count(X::Not(c))) return false;
    nsymbr++;
    int ev = evalCur(c);
    Assign at, af;
    bool ht = false, hf = false;
    R t = ev == 1 ? SAT : feasible(c, &at, &ht);
    auto take = [](bool have, Assign& a)
    {
        if (have)
            for (auto& kv : a) cur.insert_or_assign(kv.first, kv.second);
        else cur_ok = false;
    };
    if (t == UNSAT)
    {
        addpc(X::Not(c));
        return false;
    }
    R f = ev == 0 ? SAT : feasible(X::Not(c), &af, &hf);
    if (f == UNSAT)
    {
        if (ev != 1) take(ht, at);
        addpc(c);
        return true;
    }
    if (pc.size() > 1000) violation("hang", "no end in sight");
    if (verbose > 1)
    {
        std::string w;
        where(w);
        fprintf(stderr, "fork at %s\n", w.c_str());
    }
    const bool first = special(c) > 0; // the outcome of the child
    if (forkChild() != first)
    {
        if (ev != 0) take(hf, af);
        addpc(X::Not(c));
        return false;
    }
    if (ev != 1) take(ht, at);
    addpc(c);
    return true;
}

static Expr* lift(const Val& v, K k, unsigned w)
{
    if (v.e) return v.e;
    if (k == K_DBL) return g_theory == TH_REAL ? X::rc(b2d(v.c)) : X::fc(v.c);
    if (k == K_INT && w == 1) return X::B(v.c & 1);
    return X::bv(v.c, w);
}

static u64 concretize(Val v, const char* what)
{
    if (!v.e) return v.c;
    if (X::isc(v.e)) return v.e->c;
    if (v.e->s == S::BOOL) return decide(v.e);
    if (v.e->s != S::BV) unsupported(std::string("symbolic real where a concrete value is needed: ") + what);
    for (int n = 0; n < 300; n++)
    {
        Query q;
        std::vector<Expr*> sl;
        sliceFor(v.e->vars, sl);
        for (auto* e : sl) q.add(e);
        // make sure the solver sees the variables of v
        z3::model m(z->ctx);
        if (runq(q, &m) != SAT) throw PathEnd{1};
        u64 c     = 0;
        z3::expr x = m.eval(z->get(v.e), true).simplify();
        if (!x.is_numeral()) unsupported("cannot evaluate symbolic integer");
        c        = strtoull(x.get_decimal_string(0).c_str(), nullptr, 10);
        Expr* eq = X::Eq(v.e, X::bv(c, v.e->w));
        if (decide(eq)) return c;
    }
    unsupported(std::string("too many values for a symbolic integer: ") + what);
}

// ---------------------------------------------------------------------------------------------- symbolic memory
struct Cell {
    Expr* e;
    u8 n;
};
static std::unordered_map<u64, Cell> cells;
static inline bool anySym(u64 a, u64 n)
{
    if (!inArena(a) || !n) return false;
    for (u64 i = (a - GBASE) >> 3; i <= (a + n - 1 - GBASE) >> 3; i++)
        if (g_symf[i]) return true;
    return false;
}
static Expr* byteOf(const Cell& c, unsigned i)
{
    Expr* e = c.e;
    if (e->s == S::FP) e = X::FToBV(e);
    if (e->s != S::BV) return nullptr;
    return X::Extract(e, 8 * i, 8);
}
// find the cell covering address a
static Cell* cover(u64 a, u64& start)
{
    for (u64 s = a; s + 8 > a && s <= a; s--)
    {
        auto it = cells.find(s);
        if (it != cells.end() && s + it->second.n > a)
        {
            start = s;
            return &it->second;
        }
    }
    return nullptr;
}
static void recomputeFlag(u64 g)
{
    u64 base = GBASE + (g << 3);
    bool any = false;
    for (u64 s = base; s < base + 8 && !any; s++) any = cells.count(s);
    u64 st;
    if (!any) any = cover(base, st) != nullptr;
    g_symf[g] = any;
}
static void eraseSym(u64 a, u64 n)
{
    if (!anySym(a, n)) return;
    for (u64 x = a; x < a + n;)
    {
        if (!g_symf[(x - GBASE) >> 3])
        {
            x = ((x >> 3) + 1) << 3;
            continue;
        }
        u64 st;
        Cell* c = cover(x, st);
        if (!c) { x++; continue; }
        Cell cc = *c;
        cells.erase(st);
        // keep bytes outside the range
        for (unsigned i = 0; i < cc.n; i++)
        {
            u64 ba = st + i;
            if (ba >= a && ba < a + n) continue;
            Expr* b = byteOf(cc, i);
            if (!b) unsupported("partial overwrite of a symbolic real");
            cells[ba] = Cell{b, 1};
        }
        u64 e = st + cc.n;
        for (u64 g = (st - GBASE) >> 3; g <= (e - 1 - GBASE) >> 3; g++) recomputeFlag(g);
        x = e;
    }
}
static void putSym(u64 a, Expr* e, unsigned n)
{
    if (!inArena(a)) unsupported("symbolic value stored outside the arena");
    eraseSym(a, n);
    memset((void*)a, 0xA5, n);
    cells[a] = Cell{e, u8(n)};
    for (u64 g = (a - GBASE) >> 3; g <= (a + n - 1 - GBASE) >> 3; g++) g_symf[g] = 1;
}
static Expr* getSymInt(u64 a, unsigned n)
{
    Expr* r = nullptr;
    for (unsigned i = 0; i < n; i++)
    {
        u64 st;
        Cell* c = g_symf[(a + i - GBASE) >> 3] ? cover(a + i, st) : nullptr;
        Expr* b = c ? byteOf(*c, unsigned(a + i - st)) : X::bv(*(u8*)(a + i), 8);
        if (!b) unsupported("partial read of a symbolic real");
        r = r ? X::Concat(b, r) : b;
    }
    return r;
}

// ---------------------------------------------------------------------------------------------- interpreter structures
using namespace llvm;
static Module* M;
static const DataLayout* DL;
static std::string fmtv(u64 v)
{
    char b[32];
    snprintf(b, 32, "0x%llx", (unsigned long long)v);
    return b;
}

struct Fn;
struct Frame;
using Handler = std::function<void(struct CallCtx&)>;

struct Opd {
    int32_t slot = -1;
    Val v;
};
struct PhiMove {
    int32_t dst;
    Opd src;
};
struct Edge {
    uint32_t target;
    std::vector<PhiMove> moves;
};
struct CallInfo {
    Function* f  = nullptr;
    Fn* fn       = nullptr;
    const Handler* h = nullptr;
    void* native = nullptr;
    Opd callee;
    FunctionType* ft = nullptr;
    std::vector<u8> ak;       // arg kinds
    std::vector<u8> aw;       // arg widths
    std::vector<u64> byval;   // byval sizes
    int e_normal = -1, e_unwind = -1; // edges
    unsigned iid = 0;
};
enum Op : uint16_t {
    I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
    I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG, I_ICMP, I_FCMP, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_MOV,
    I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP, I_FPEXT, I_FPTRUNC, I_BITCAST, I_GEP, I_ALLOCA, I_LOAD, I_STORE,
    I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_INVOKE, I_UNREACH, I_EXTRACT, I_INSERT, I_LANDING, I_RESUME,
    I_ATOMICRMW, I_CMPXCHG, I_NOP, I_VECOP, I_EXTRELT, I_INSELT, I_SHUF, I_BAD
};
struct DI {
    Op op;
    u8 k  = K_VOID; // result kind
    u8 w  = 0;      // result/operand width
    u8 w2 = 0;
    int pred = 0;
    int32_t dst = -1;
    std::vector<Opd> ops;
    u64 imm = 0;
    Type* ty = nullptr;
    std::vector<u64> x;
    std::vector<int> edges;
    CallInfo* ci = nullptr;
    const Instruction* I = nullptr;
};
struct Fn {
    Function* f = nullptr;
    bool decoded = false;
    std::vector<DI> code;
    std::vector<Edge> edges;
    uint32_t nregs = 0;
    u64 calls = 0;
};
struct Frame {
    Fn* fn;
    std::vector<Val> r;
    uint32_t pc = 0;
    u64 sp0 = 0;
    u64 vararea = 0;
};
struct CallCtx {
    DI* d;
    CallInfo* ci;
    std::vector<Val>& a;
    Val ret;
    bool threw = false;
};

static std::vector<Frame*> stack_;
static std::vector<Frame*> frame_pool;
static std::unordered_map<const Function*, Fn*> fns;
static std::vector<Function*> faddr;                     // index -> function (fake addresses)
static std::unordered_map<const Function*, u64> fidx;    // function -> address
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<std::string, Handler> handlers;
static std::unordered_map<u64, std::string> native_names;
static std::set<std::string> fnames_used;

static std::string demangle(const std::string& n)
{
    int st;
    char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    if (st == 0 && d)
    {
        std::string s(d);
        free(d);
        return s;
    }
    return n;
}
static void where(std::string& s)
{
    int n = 0;
    for (size_t i = stack_.size(); i-- > 0 && n < 8;)
    {
        Frame* f = stack_[i];
        std::string nm = demangle(f->fn->f->getName().str());
        if (nm.size() > 160) nm = nm.substr(0, 160) + "...";
        if (n) s += " <- ";
        s += nm;
        if (f->pc < f->fn->code.size() && f->fn->code[f->pc].I)
            if (auto& dl = f->fn->code[f->pc].I->getDebugLoc()) s += ":" + std::to_string(dl.getLine());
        n++;
    }
}

static K kindOf(Type* t, u8& w)
{
    w = 64;
    if (t->isVoidTy()) return K_VOID;
    if (t->isIntegerTy())
    {
        unsigned n = t->getIntegerBitWidth();
        w          = u8(n > 64 ? 255 : n);
        return n > 64 ? K_BAD : K_INT;
    }
    if (t->isPointerTy()) return K_PTR;
    if (t->isDoubleTy()) return K_DBL;
    if (t->isFloatTy()) { w = 32; return K_FLT; }
    if (t->isStructTy() || t->isArrayTy() || isa<FixedVectorType>(t)) return K_AGG;
    return K_BAD;
}
static unsigned aggN(Type* t)
{
    if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements();
    if (auto* a = dyn_cast<ArrayType>(t)) return unsigned(a->getNumElements());
    return cast<FixedVectorType>(t)->getNumElements();
}
static Type* aggT(Type* t, unsigned i)
{
    if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i);
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
}
static u64 aggOff(Type* t, unsigned i)
{
    if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
    return DL->getTypeAllocSize(aggT(t, i)) * i;
}
static Val mkagg(Type* t)
{
    auto* a = new Agg;
    a->v.resize(aggN(t));
    for (unsigned i = 0; i < a->v.size(); i++)
    {
        u8 w;
        if (kindOf(aggT(t, i), w) == K_AGG) a->v[i] = mkagg(aggT(t, i));
    }
    Val r;
    r.c = (u64)a;
    return r;
}

// ---- memory access
static void checkAccess(u64 a, u64 n, bool write)
{
    if (inArena(a))
    {
        if (a + n > AEND) violation("memory", "access beyond memory at " + fmtv(a));
        const u8* p = g_addr + (a - GBASE);
        for (u64 i = 0; i < n; i++)
            if (!p[i])
                violation("memory", std::string("invalid ") + (write ? "write" : "read") + " of " + std::to_string(n) +
                                        " bytes at " + fmtv(a) + " (out of bounds or freed)");
        return;
    }
    if (a < 0x10000 || (a >= 0xA5A5A5A500000000ULL))
        violation("memory", std::string("null or wild pointer ") + (write ? "write" : "read") + " at " + fmtv(a));
    if (a >= FBASE && a < FBASE + (1ULL << 32)) violation("memory", "data access to a function address");
}
static Val loadVal(u64 a, Type* t)
{
    u8 w;
    K k = kindOf(t, w);
    Val v;
    if (k == K_AGG)
    {
        v = mkagg(t);
        for (unsigned i = 0; i < aggN(t); i++) v.agg()->v[i] = loadVal(a + aggOff(t, i), aggT(t, i));
        return v;
    }
    if (k == K_BAD) unsupported("load of unsupported type");
    unsigned n = (w + 7) / 8;
    checkAccess(a, n, false);
    if (anySym(a, n))
    {
        auto it = cells.find(a);
        Expr* e = nullptr;
        if (it != cells.end() && it->second.n == n) e = it->second.e;
        else e = getSymInt(a, n);
        if (k == K_DBL)
        {
            if (e->s == S::BV)
            {
                if (X::isc(e)) { v.c = e->c; return v; }
                if (g_theory == TH_REAL) unsupported("symbolic integer bits read as a real");
                e = X::FFromBV(e);
            }
        }
        else if (e->s == S::FP) e = X::FToBV(e);
        else if (e->s == S::REAL) { v.e = e; return v; } // opaque 8-byte copy
        if (k == K_INT && w == 1) e = X::toBool(e);
        else if (k == K_INT && e->s == S::BV && e->w > w) e = X::Extract(e, 0, w);
        if (X::isc(e)) { v.c = e->c; return v; }
        v.e = e;
        return v;
    }
    switch (n)
    {
    case 1: v.c = *(u8*)a; break;
    case 2: { uint16_t x; memcpy(&x, (void*)a, 2); v.c = x; break; }
    case 4: { uint32_t x; memcpy(&x, (void*)a, 4); v.c = x; break; }
    case 8: memcpy(&v.c, (void*)a, 8); break;
    default: v.c = 0; memcpy(&v.c, (void*)a, n);
    }
    if (k == K_INT) v.c = maskw(v.c, w);
    return v;
}
static void storeVal(u64 a, Type* t, const Val& v)
{
    u8 w;
    K k = kindOf(t, w);
    if (k == K_AGG)
    {
        for (unsigned i = 0; i < aggN(t); i++) storeVal(a + aggOff(t, i), aggT(t, i), v.agg()->v[i]);
        return;
    }
    if (k == K_BAD) unsupported("store of unsupported type");
    unsigned n = (w + 7) / 8;
    checkAccess(a, n, true);
    if (v.e)
    {
        Expr* e = v.e;
        if (X::isc(e) && e->s != S::REAL)
        {
            if (anySym(a, n)) eraseSym(a, n);
            u64 c = e->c;
            memcpy((void*)a, &c, n);
            return;
        }
        if (X::isc(e) && e->s == S::REAL)
        {
            if (anySym(a, n)) eraseSym(a, n);
            u64 c = e->c;
            memcpy((void*)a, &c, 8);
            return;
        }
        if (e->s == S::BOOL) e = X::Zext(e, 8);
        if (e->s == S::BV && e->w < n * 8) e = X::Zext(e, n * 8);
        putSym(a, e, n);
        return;
    }
    if (anySym(a, n)) eraseSym(a, n);
    memcpy((void*)a, &v.c, n);
}
static void copyMem(u64 d, u64 s, u64 n)
{
    if (!n || d == s) return;
    checkAccess(s, n, false);
    checkAccess(d, n, true);
    std::vector<std::pair<u64, Cell>> mv;
    if (anySym(s, n))
    {
        for (u64 x = s; x < s + n;)
        {
            if (!g_symf[(x - GBASE) >> 3]) { x = ((x >> 3) + 1) << 3; continue; }
            u64 st;
            Cell* c = cover(x, st);
            if (!c) { x++; continue; }
            if (st >= s && st + c->n <= s + n)
            {
                mv.emplace_back(st - s, *c);
                x = st + c->n;
            }
            else
            {
                Expr* b = byteOf(*c, unsigned(x - st));
                if (!b) unsupported("partial copy of a symbolic real");
                mv.emplace_back(x - s, Cell{b, 1});
                x++;
            }
        }
    }
    memmove((void*)d, (void*)s, n);
    eraseSym(d, n);
    for (auto& m : mv)
    {
        if (X::isc(m.second.e) && m.second.e->s == S::BV) { u64 c = m.second.e->c; memcpy((void*)(d + m.first), &c, m.second.n); }
        else putSym(d + m.first, m.second.e, m.second.n);
    }
}
static u64 heapAlloc(u64 n, u64 al = 16)
{
    if (n > (512ULL << 20)) return 0;
    htop     = (htop + 32 + al - 1) / al * al;
    u64 a    = htop;
    htop += n ? n : 1;
    if (htop + 64 > HBASE + HSIZE) unsupported("out of arena memory");
    memset(g_addr + (a - GBASE), 1, n);
    memset((void*)a, 0xCD, n);
    g_allocs[a] = n;
    return a;
}
static void heapFree(u64 a)
{
    if (!a) return;
    if (!inArena(a))
    {
        free((void*)a);
        return;
    }
    auto it = g_allocs.find(a);
    if (it == g_allocs.end()) violation("memory", "invalid or double free of " + fmtv(a));
    eraseSym(a, it->second);
    memset(g_addr + (a - GBASE), 0, it->second);
    memset((void*)a, 0xDD, it->second);
    g_allocs.erase(it);
}
static u64 stackAlloc(u64 n, u64 al)
{
    if (al < 8) al = 8;
    stop_ = (stop_ + 16 + al - 1) / al * al;
    u64 a = stop_;
    stop_ += n;
    if (stop_ + 64 > SBASE + SSIZE) violation("memory", "stack overflow");
    memset(g_addr + (a - GBASE), 1, n);
    memset((void*)a, 0xCB, n);
    return a;
}
static void stackPop(u64 sp0)
{
    if (stop_ > sp0)
    {
        eraseSym(sp0, stop_ - sp0);
        memset(g_addr + (sp0 - GBASE), 0, stop_ - sp0);
        stop_ = sp0;
    }
}

// ---------------------------------------------------------------------------------------------- decode
static u64 funcAddr(Function* f)
{
    auto it = fidx.find(f);
    if (it != fidx.end()) return it->second;
    u64 a;
    std::string n = f->getName().str();
    if (f->isDeclaration() && !handlers.count(n))
    {
        void* p = dlsym(RTLD_DEFAULT, n.c_str());
        if (p)
        {
            a                = (u64)p;
            native_names[a]  = n;
            fidx[f]          = a;
            return a;
        }
        if (f->hasExternalWeakLinkage()) return fidx[f] = 0;
    }
    a = FBASE + faddr.size() * 16;
    faddr.push_back(f);
    return fidx[f] = a;
}
static u64 globalAddr(const GlobalValue* g)
{
    if (auto* ga = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(ga->getAliaseeObject());
    if (auto* f = dyn_cast<Function>(g)) return funcAddr(const_cast<Function*>(f));
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    auto* v = cast<GlobalVariable>(g);
    if (v->isDeclaration())
    {
        void* p = dlsym(RTLD_DEFAULT, v->getName().str().c_str());
        if (!p)
        {
            if (v->hasExternalWeakLinkage()) return gaddr[g] = 0;
            if (v->getName() == "__dso_handle") p = (void*)&M;
            else
            {
                fprintf(stderr, "pse: unresolved global %s\n", v->getName().str().c_str());
                p = (void*)0x10;
            }
        }
        return gaddr[g] = (u64)p;
    }
    u64 n  = DL->getTypeAllocSize(v->getValueType());
    u64 al = std::max<u64>(16, DL->getPreferredAlign(v).value());
    gtop   = (gtop + 32 + al - 1) / al * al;
    u64 a  = gtop;
    gtop += n;
    if (gtop > GBASE + GSIZE) { fprintf(stderr, "pse: globals too large\n"); exit(3); }
    memset(g_addr + (a - GBASE), 1, n);
    return gaddr[g] = a;
}
static Val constVal(const Constant* c);
static Val constExpr(const ConstantExpr* ce)
{
    Val r;
    auto O = [&](int i) { return constVal(ce->getOperand(i)).c; };
    u8 w;
    kindOf(ce->getType(), w);
    switch (ce->getOpcode())
    {
    case Instruction::GetElementPtr:
    {
        APInt off(64, 0);
        if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
        {
            r.c = O(0) + u64(off.getSExtValue());
            return r;
        }
        break;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
    case Instruction::ZExt: case Instruction::AddrSpaceCast:
        r = constVal(ce->getOperand(0));
        r.c = maskw(r.c, w);
        return r;
    case Instruction::Add: r.c = maskw(O(0) + O(1), w); return r;
    case Instruction::Sub: r.c = maskw(O(0) - O(1), w); return r;
    case Instruction::And: r.c = O(0) & O(1); return r;
    case Instruction::Or: r.c = O(0) | O(1); return r;
    case Instruction::ICmp:
    {
        auto p = ce->getPredicate();
        if (p == CmpInst::ICMP_EQ) { r.c = O(0) == O(1); return r; }
        if (p == CmpInst::ICMP_NE) { r.c = O(0) != O(1); return r; }
        break;
    }
    default: break;
    }
    std::string s;
    raw_string_ostream os(s);
    ce->print(os);
    unsupported("constant expression " + s);
}
static Val constVal(const Constant* c)
{
    Val r;
    u8 w;
    K k = kindOf(c->getType(), w);
    if (k == K_AGG)
    {
        r = mkagg(c->getType());
        for (unsigned i = 0; i < aggN(c->getType()); i++)
            if (auto* e = c->getAggregateElement(i)) r.agg()->v[i] = constVal(e);
        return r;
    }
    if (isa<UndefValue>(c) || isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return r;
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() <= 64) r.c = ci->getZExtValue();
        return r;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        if (k == K_DBL || k == K_FLT) r.c = cf->getValueAPF().bitcastToAPInt().getZExtValue();
        return r;
    }
    if (auto* g = dyn_cast<GlobalValue>(c))
    {
        r.c = globalAddr(g);
        return r;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) return constExpr(ce);
    if (auto* b = dyn_cast<BlockAddress>(c)) { (void)b; return r; }
    if (isa<DSOLocalEquivalent>(c) || isa<NoCFIValue>(c)) return constVal(cast<Constant>(c->getOperand(0)));
    unsupported("constant");
}
static void writeConst(u64 a, const Constant* c)
{
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
    {
        memset((void*)a, 0, DL->getTypeStoreSize(t));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef s = cd->getRawDataValues();
        memcpy((void*)a, s.data(), s.size());
        return;
    }
    u8 w;
    if (kindOf(t, w) == K_AGG)
    {
        for (unsigned i = 0; i < aggN(t); i++) writeConst(a + aggOff(t, i), c->getAggregateElement(i));
        return;
    }
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        u64 n = DL->getTypeStoreSize(t);
        for (u64 i = 0; i < n; i++) *(u8*)(a + i) = u8(ci->getValue().extractBitsAsZExtValue(8 * i + 8 <= ci->getBitWidth() ? 8 : ci->getBitWidth() - 8 * unsigned(i), 8 * unsigned(i)));
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        memcpy((void*)a, b.getRawData(), b.getBitWidth() / 8);
        return;
    }
    Val v = constVal(c);
    memcpy((void*)a, &v.c, DL->getTypeStoreSize(t));
}

static Fn* getFn(Function* f)
{
    auto& p = fns[f];
    if (!p)
    {
        p    = new Fn;
        p->f = f;
    }
    return p;
}

static void decode(Fn* fn)
{
    Function* f = fn->f;
    std::unordered_map<const Value*, int> slot;
    int n = 0;
    for (auto& a : f->args()) slot[&a] = n++;
    for (auto& I : instructions(f))
        if (!I.getType()->isVoidTy()) slot[&I] = n++;
    fn->nregs = unsigned(n);
    std::unordered_map<const BasicBlock*, uint32_t> bstart;
    struct Fix { size_t edge; const BasicBlock* from; const BasicBlock* to; };
    std::vector<Fix> fixes;
    auto opd = [&](const Value* v) -> Opd
    {
        Opd o;
        if (auto* c = dyn_cast<Constant>(v)) o.v = constVal(c);
        else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {}
        else o.slot = slot.at(v);
        return o;
    };
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int
    {
        fn->edges.emplace_back();
        fixes.push_back({fn->edges.size() - 1, from, to});
        return int(fn->edges.size() - 1);
    };
    for (auto& bb : *f)
    {
        bstart[&bb] = uint32_t(fn->code.size());
        for (auto& I : bb)
        {
            if (isa<PHINode>(I)) continue;
            DI d;
            d.I = &I;
            u8 w;
            d.k   = kindOf(I.getType(), w);
            d.w   = w;
            if (!I.getType()->isVoidTy()) d.dst = slot.at(&I);
            d.op = I_BAD;
            d.ty = I.getType();
            bool isvec = I.getType()->isVectorTy();
            if (!isvec && I.getNumOperands() && (isa<CmpInst>(I))) isvec = I.getOperand(0)->getType()->isVectorTy();
            auto simple = [&](Op o)
            {
                d.op = o;
                for (auto& u : I.operands()) d.ops.push_back(opd(u));
            };
            if (I.getNumOperands() && !isa<CallBase>(I))
            {
                u8 ww;
                kindOf(I.getOperand(0)->getType(), ww);
                d.w2 = ww;
            }
            switch (I.getOpcode())
            {
            case Instruction::Add: simple(I_ADD); break;
            case Instruction::Sub: simple(I_SUB); break;
            case Instruction::Mul: simple(I_MUL); break;
            case Instruction::UDiv: simple(I_UDIV); break;
            case Instruction::SDiv: simple(I_SDIV); break;
            case Instruction::URem: simple(I_UREM); break;
            case Instruction::SRem: simple(I_SREM); break;
            case Instruction::Shl: simple(I_SHL); break;
            case Instruction::LShr: simple(I_LSHR); break;
            case Instruction::AShr: simple(I_ASHR); break;
            case Instruction::And: simple(I_AND); break;
            case Instruction::Or: simple(I_OR); break;
            case Instruction::Xor: simple(I_XOR); break;
            case Instruction::FAdd: simple(I_FADD); break;
            case Instruction::FSub: simple(I_FSUB); break;
            case Instruction::FMul: simple(I_FMUL); break;
            case Instruction::FDiv: simple(I_FDIV); break;
            case Instruction::FRem: simple(I_FREM); break;
            case Instruction::FNeg: simple(I_FNEG); break;
            case Instruction::ICmp: simple(I_ICMP); d.pred = cast<CmpInst>(I).getPredicate(); break;
            case Instruction::FCmp: simple(I_FCMP); d.pred = cast<CmpInst>(I).getPredicate(); break;
            case Instruction::Select: simple(I_SELECT); if (I.getOperand(0)->getType()->isVectorTy()) d.op = I_BAD; isvec = false; break;
            case Instruction::Trunc: simple(I_TRUNC); break;
            case Instruction::ZExt: simple(I_ZEXT); break;
            case Instruction::SExt: simple(I_SEXT); break;
            case Instruction::FPToSI: simple(I_FPTOSI); break;
            case Instruction::FPToUI: simple(I_FPTOUI); break;
            case Instruction::SIToFP: simple(I_SITOFP); break;
            case Instruction::UIToFP: simple(I_UITOFP); break;
            case Instruction::FPExt: simple(I_FPEXT); break;
            case Instruction::FPTrunc: simple(I_FPTRUNC); break;
            case Instruction::BitCast: simple(I_BITCAST); break;
            case Instruction::PtrToInt: simple(I_MOV); break;
            case Instruction::IntToPtr: simple(I_MOV); isvec = false; break;
            case Instruction::Freeze: simple(I_MOV); isvec = false; break;
            case Instruction::AddrSpaceCast: simple(I_MOV); break;
            case Instruction::GetElementPtr:
            {
                d.op = I_GEP;
                isvec = false;
                auto* g = cast<GetElementPtrInst>(&I);
                d.ops.push_back(opd(g->getPointerOperand()));
                u64 off = 0;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
                {
                    Value* ix = it.getOperand();
                    if (auto* st = it.getStructTypeOrNull())
                        off += DL->getStructLayout(st)->getElementOffset(unsigned(cast<ConstantInt>(ix)->getZExtValue()));
                    else
                    {
                        u64 sc = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(ix)) off += u64(ci->getSExtValue()) * sc;
                        else
                        {
                            d.ops.push_back(opd(ix));
                            d.x.push_back(sc);
                            d.x.push_back(ix->getType()->getIntegerBitWidth());
                        }
                    }
                }
                d.imm = off;
                break;
            }
            case Instruction::Alloca:
            {
                auto* a = cast<AllocaInst>(&I);
                simple(I_ALLOCA);
                d.imm = DL->getTypeAllocSize(a->getAllocatedType());
                d.x   = {a->getAlign().value()};
                break;
            }
            case Instruction::Load: simple(I_LOAD); isvec = false; break;
            case Instruction::Store: simple(I_STORE); d.ty = I.getOperand(0)->getType(); break;
            case Instruction::Br:
            {
                auto* b = cast<BranchInst>(&I);
                if (b->isUnconditional())
                {
                    d.op = I_BR;
                    d.edges = {edge(&bb, b->getSuccessor(0))};
                }
                else
                {
                    d.op = I_CBR;
                    d.ops.push_back(opd(b->getCondition()));
                    d.edges = {edge(&bb, b->getSuccessor(0)), edge(&bb, b->getSuccessor(1))};
                }
                break;
            }
            case Instruction::Switch:
            {
                auto* s = cast<SwitchInst>(&I);
                d.op = I_SWITCH;
                d.ops.push_back(opd(s->getCondition()));
                d.edges.push_back(edge(&bb, s->getDefaultDest()));
                for (auto& c : s->cases())
                {
                    d.x.push_back(c.getCaseValue()->getZExtValue());
                    d.edges.push_back(edge(&bb, c.getCaseSuccessor()));
                }
                break;
            }
            case Instruction::Ret: simple(I_RET); break;
            case Instruction::Unreachable: d.op = I_UNREACH; break;
            case Instruction::Call:
            case Instruction::Invoke:
            {
                auto* cb = cast<CallBase>(&I);
                isvec = false;
                d.op = isa<InvokeInst>(I) ? I_INVOKE : I_CALL;
                auto* ci = new CallInfo;
                d.ci = ci;
                ci->ft = cb->getFunctionType();
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = const_cast<GlobalObject*>(ga->getAliaseeObject());
                if (auto* cf = dyn_cast<Function>(cv))
                {
                    ci->f = cf;
                    ci->iid = cf->getIntrinsicID();
                }
                else if (isa<InlineAsm>(cv)) {}
                else ci->callee = opd(cv);
                if (isa<DbgInfoIntrinsic>(I)) { d.op = I_NOP; break; }
                if (ci->iid == Intrinsic::lifetime_start || ci->iid == Intrinsic::lifetime_end ||
                    ci->iid == Intrinsic::assume || ci->iid == Intrinsic::experimental_noalias_scope_decl ||
                    ci->iid == Intrinsic::invariant_start || ci->iid == Intrinsic::invariant_end || ci->iid == Intrinsic::donothing)
                { d.op = I_NOP; break; }
                for (unsigned i = 0; i < cb->arg_size(); i++)
                {
                    Value* a = cb->getArgOperand(i);
                    d.ops.push_back(opd(a));
                    u8 aw = 64;
                    K ak = a->getType()->isMetadataTy() ? K_VOID : kindOf(a->getType(), aw);
                    ci->ak.push_back(ak);
                    ci->aw.push_back(aw);
                    ci->byval.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() : 0);
                }
                if (auto* inv = dyn_cast<InvokeInst>(&I))
                {
                    ci->e_normal = edge(&bb, inv->getNormalDest());
                    ci->e_unwind = edge(&bb, inv->getUnwindDest());
                }
                break;
            }
            case Instruction::ExtractValue:
                simple(I_EXTRACT); isvec = false;
                for (auto i : cast<ExtractValueInst>(I).getIndices()) d.x.push_back(i);
                break;
            case Instruction::InsertValue:
                simple(I_INSERT); isvec = false;
                for (auto i : cast<InsertValueInst>(I).getIndices()) d.x.push_back(i);
                break;
            case Instruction::LandingPad: d.op = I_LANDING; break;
            case Instruction::Resume: simple(I_RESUME); break;
            case Instruction::AtomicRMW: simple(I_ATOMICRMW); d.pred = cast<AtomicRMWInst>(I).getOperation(); break;
            case Instruction::AtomicCmpXchg: simple(I_CMPXCHG); d.x = {u64(DL->getTypeStoreSize(I.getOperand(1)->getType()))}; d.ty = I.getOperand(1)->getType(); break;
            case Instruction::Fence: d.op = I_NOP; break;
            case Instruction::ExtractElement: simple(I_EXTRELT); break;
            case Instruction::InsertElement: simple(I_INSELT); isvec = false; break;
            case Instruction::ShuffleVector:
                simple(I_SHUF); isvec = false;
                for (int m : cast<ShuffleVectorInst>(I).getShuffleMask()) d.x.push_back(u64(int64_t(m)));
                break;
            default: d.op = I_BAD;
            }
            if (isvec && d.op != I_BAD)
            {
                d.imm = d.op;
                d.op  = I_VECOP;
                auto* vt = cast<FixedVectorType>(I.getOperand(0)->getType());
                u8 ww;
                kindOf(vt->getElementType(), ww);
                d.w2 = ww;
                kindOf(cast<FixedVectorType>(I.getType())->getElementType(), ww);
                d.w = ww;
            }
            fn->code.push_back(std::move(d));
        }
    }
    for (auto& x : fixes)
    {
        auto& e  = fn->edges[x.edge];
        e.target = bstart.at(x.to);
        for (auto& phi : x.to->phis())
            e.moves.push_back({slot.at(&phi), opd(phi.getIncomingValueForBlock(x.from))});
    }
    fn->decoded = true;
}

// ---------------------------------------------------------------------------------------------- exceptions
struct Exc {
    u64 obj;
    const std::type_info* ti;
    u64 dtor;
    std::exception_ptr native;
    int handlers = 0;
    bool rethrown = false;
    u64 adjusted = 0;
};
static std::map<u64, Exc*> excs;      // by id (address handed out)
static std::vector<u64> caught;       // stack of caught exception ids
static std::vector<u64> typeids;      // selector index -> type_info address
static u64 g_cur_exc = 0;

static u64 newExc(u64 obj, const std::type_info* ti, u64 dtor)
{
    auto* e = new Exc{obj, ti, dtor, nullptr, 0, false, obj};
    u64 id  = obj ? obj : heapAlloc(16);
    excs[id] = e;
    return id;
}
static int typeSel(u64 ti)
{
    for (size_t i = 0; i < typeids.size(); i++)
        if (typeids[i] == ti) return int(i + 1);
    typeids.push_back(ti);
    return int(typeids.size());
}
static bool catchMatch(u64 cti, Exc* e)
{
    if (!cti)
    {
        e->adjusted = e->obj;
        return true;
    }
    auto* ct  = (const std::type_info*)cti;
    void* obj = (void*)e->obj;
    if (e->ti->__is_pointer_p()) obj = *(void**)obj;
    if (ct->__do_catch(e->ti, &obj, 1))
    {
        e->adjusted = (u64)obj;
        return true;
    }
    return false;
}
static std::string excDesc(u64 id)
{
    auto* e       = excs.at(id);
    std::string s = demangle(e->ti->name());
    void* obj     = (void*)e->obj;
    if (typeid(std::exception).__do_catch(e->ti, &obj, 1))
    {
        // what() of library classes only
        s += " (";
        std::string w;
        try { w = ((std::exception*)obj)->what(); } catch (...) {}
        s += w.substr(0, 300) + ")";
    }
    return s;
}

static void popFrame()
{
    Frame* f = stack_.back();
    stackPop(f->sp0);
    stack_.pop_back();
    frame_pool.push_back(f);
}
static void takeEdge(Frame* f, int ei)
{
    Edge& e = f->fn->edges[size_t(ei)];
    if (!e.moves.empty())
    {
        if (e.moves.size() == 1)
        {
            auto& m = e.moves[0];
            f->r[size_t(m.dst)] = m.src.slot >= 0 ? f->r[size_t(m.src.slot)] : m.src.v;
        }
        else
        {
            static std::vector<Val> tmp;
            tmp.clear();
            for (auto& m : e.moves) tmp.push_back(m.src.slot >= 0 ? f->r[size_t(m.src.slot)] : m.src.v);
            for (size_t i = 0; i < e.moves.size(); i++) f->r[size_t(e.moves[i].dst)] = tmp[i];
        }
    }
    f->pc = e.target;
}
// unwind the stack with exception id; the top frame's current instruction is the throwing call
static void unwind(u64 id, size_t base)
{
    Exc* ex = excs.at(id);
    (void)base;
    while (!stack_.empty())
    {
        Frame* f = stack_.back();
        DI& d    = f->fn->code[f->pc];
        if (d.op == I_INVOKE)
        {
            auto* lp = cast<InvokeInst>(d.I)->getLandingPadInst();
            int sel  = -1;
            for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++)
            {
                if (lp->isCatch(i))
                {
                    u64 ti = constVal(lp->getClause(i)).c;
                    if (catchMatch(ti, ex)) sel = typeSel(ti);
                }
                else
                {
                    auto* fa  = lp->getClause(i);
                    unsigned n = aggN(fa->getType());
                    bool ok   = false;
                    for (unsigned j = 0; j < n; j++) ok |= catchMatch(constVal(fa->getAggregateElement(j)).c, ex);
                    if (!ok) sel = 0x7fff0000;
                }
            }
            if (sel < 0 && lp->isCleanup()) sel = 0;
            if (sel >= 0)
            {
                takeEdge(f, d.ci->e_unwind);
                // we are at the landingpad instruction
                DI& l = f->fn->code[f->pc];
                if (l.op != I_LANDING) unsupported("landing pad expected");
                Val v = mkagg(lp->getType());
                v.agg()->v[0].c = id;
                v.agg()->v[1].c = u64(uint32_t(sel));
                f->r[size_t(l.dst)] = v;
                f->pc++;
                return;
            }
        }
        popFrame();
    }
    violation("exception", "uncaught exception: " + excDesc(id));
}

// ---------------------------------------------------------------------------------------------- natives
typedef struct { u64 a, b; } Two;
static u64 callNative(void* fp, FunctionType* ft, const std::vector<Val>& args, const std::vector<u8>& ak,
                      K rk, u8 rw, Type* rt, Val& ret)
{
    (void)ft;
    u64 in[14] = {0};
    double dn[8] = {0};
    unsigned ni = 0, nd = 0;
    for (size_t i = 0; i < args.size(); i++)
    {
        if (ak[i] == K_DBL)
        {
            if (nd >= 8) unsupported("native call with too many doubles");
            dn[nd++] = b2d(args[i].c);
        }
        else if (ak[i] == K_INT || ak[i] == K_PTR)
        {
            if (ni >= 14) unsupported("native call with too many arguments");
            in[ni++] = args[i].c;
        }
        else if (ak[i] == K_FLT)
        {
            if (nd >= 8) unsupported("native call with too many doubles");
            u64 b = args[i].c;
            memcpy(&dn[nd++], &b, 8);
        }
        else if (ak[i] == K_AGG && false) {}
        else unsupported("native call with an aggregate argument");
    }
#define ARGS in[0], in[1], in[2], in[3], in[4], in[5], dn[0], dn[1], dn[2], dn[3], dn[4], dn[5], dn[6], dn[7], in[6], in[7], in[8], in[9], in[10], in[11], in[12], in[13]
#define SIG u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64, u64, u64, u64, u64, ...
    try
    {
        switch (rk)
        {
        case K_DBL: case K_FLT:
        {
            double r = ((double (*)(SIG))fp)(ARGS);
            ret.c    = d2b(r);
            if (rk == K_FLT) ret.c = uint32_t(ret.c);
            break;
        }
        case K_AGG:
        {
            Two t = ((Two(*)(SIG))fp)(ARGS);
            if (DL->getTypeAllocSize(rt) > 16) unsupported("native aggregate return");
            ret = mkagg(rt);
            u64 buf[2] = {t.a, t.b};
            for (unsigned i = 0; i < aggN(rt); i++)
            {
                u8 w;
                K k = kindOf(aggT(rt, i), w);
                if (k != K_INT && k != K_PTR) unsupported("native aggregate return with floats");
                u64 x = 0;
                memcpy(&x, (char*)buf + aggOff(rt, i), (w + 7u) / 8);
                ret.agg()->v[i].c = maskw(x, w);
            }
            break;
        }
        default:
            ret.c = ((u64(*)(SIG))fp)(ARGS);
            if (rk == K_INT) ret.c = maskw(ret.c, rw);
        }
    }
    catch (PathEnd&) { throw; }
    catch (...)
    {
        std::exception_ptr p = std::current_exception();
        auto* ti             = abi::__cxa_current_exception_type();
        u64 obj;
        memcpy(&obj, &p, 8);
        auto* e  = new Exc{obj, ti, 0, p, 0, false, obj};
        u64 id   = heapAlloc(16);
        excs[id] = e;
        return id;
    }
    return 0;
}

// ---------------------------------------------------------------------------------------------- arithmetic
static Val fbin(Op op, const Val& a, const Val& b)
{
    Val r;
    if (!a.e && !b.e)
    {
        double x = b2d(a.c), y = b2d(b.c);
        switch (op)
        {
        case I_FADD: r.c = d2b(x + y); break;
        case I_FSUB: r.c = d2b(x - y); break;
        case I_FMUL: r.c = d2b(x * y); break;
        case I_FDIV: r.c = d2b(x / y); break;
        case I_FREM: r.c = d2b(fmod(x, y)); break;
        default: break;
        }
        return r;
    }
    Expr *x = lift(a, K_DBL, 64), *y = lift(b, K_DBL, 64);
    if (g_theory == TH_REAL)
    {
        for (Expr* e : {x, y})
            if (X::isc(e) && !std::isfinite(b2d(e->c)))
            {
                Expr* other = e == x ? y : x;
                if (std::isnan(b2d(e->c))) { r.c = e->c; return r; }
                if (op == I_FADD || (op == I_FSUB && e == x)) { r.c = e->c; return r; }
                if (op == I_FSUB) { r.c = d2b(-b2d(e->c)); return r; }
                if (op == I_FDIV && e == y) { r.c = 0; return r; }
                (void)other;
                unsupported("arithmetic with an infinity");
            }
        if (x->s != S::REAL || y->s != S::REAL) unsupported("real arithmetic on an integer expression");
        Expr* e = nullptr;
        switch (op)
        {
        case I_FADD: e = X::RBin(O::RADD, x, y); break;
        case I_FSUB: e = X::RBin(O::RSUB, x, y); break;
        case I_FMUL: e = X::RBin(O::RMUL, x, y); break;
        case I_FDIV:
        {
            if (!X::isc(y) || b2d(y->c) == 0)
            {
                Expr* zr = X::Eq(y, X::rc(0));
                if (decide(zr))
                {
                    // division by zero: an arbitrary ("nonfinite") value, to be settled by the native replay
                    sh->nonfinite++;
                    static int nf = 0;
                    e = EP.var("nonfinite!" + std::to_string(nf++), S::REAL, 0);
                    break;
                }
            }
            e = X::RBin(O::RDIV, x, y);
            break;
        }
        default: unsupported("frem");
        }
        if (X::isc(e)) r.c = e->c;
        else r.e = e;
        return r;
    }
    Expr* e = nullptr;
    switch (op)
    {
    case I_FADD: e = X::FBin(O::FADD, x, y); break;
    case I_FSUB: e = X::FBin(O::FSUB, x, y); break;
    case I_FMUL: e = X::FBin(O::FMUL, x, y); break;
    case I_FDIV: e = X::FBin(O::FDIV, x, y); break;
    default: unsupported("frem");
    }
    if (X::isc(e)) r.c = e->c;
    else r.e = e;
    return r;
}
static bool fcmpC(int p, double x, double y)
{
    bool u = x != x || y != y;
    switch (p)
    {
    case CmpInst::FCMP_FALSE: return false;
    case CmpInst::FCMP_OEQ: return x == y;
    case CmpInst::FCMP_OGT: return x > y;
    case CmpInst::FCMP_OGE: return x >= y;
    case CmpInst::FCMP_OLT: return x < y;
    case CmpInst::FCMP_OLE: return x <= y;
    case CmpInst::FCMP_ONE: return !u && x != y;
    case CmpInst::FCMP_ORD: return !u;
    case CmpInst::FCMP_UNO: return u;
    case CmpInst::FCMP_UEQ: return u || x == y;
    case CmpInst::FCMP_UGT: return u || x > y;
    case CmpInst::FCMP_UGE: return u || x >= y;
    case CmpInst::FCMP_ULT: return u || x < y;
    case CmpInst::FCMP_ULE: return u || x <= y;
    case CmpInst::FCMP_UNE: return u || x != y;
    default: return true;
    }
}
static Val boolVal(Expr* e)
{
    Val r;
    if (X::isc(e)) r.c = e->c;
    else r.e = e;
    return r;
}
static Val fcmp(int p, const Val& a, const Val& b)
{
    Val r;
    if (!a.e && !b.e)
    {
        r.c = fcmpC(p, b2d(a.c), b2d(b.c));
        return r;
    }
    Expr *x = lift(a, K_DBL, 64), *y = lift(b, K_DBL, 64);
    if (g_theory == TH_REAL)
    {
        for (Expr* e : {x, y})
            if (X::isc(e) && !std::isfinite(b2d(e->c)))
            { // the other operand is finite
                double cx = e == x ? b2d(e->c) : 0, cy = e == y ? b2d(e->c) : 0;
                r.c = fcmpC(p, cx, cy);
                return r;
            }
        if (x->s != S::REAL || y->s != S::REAL) unsupported("real comparison on an integer expression");
        switch (p & 7)
        {
        case 1: return boolVal(X::Eq(x, y));
        case 2: return boolVal(X::RCmp(O::RLT, y, x));
        case 3: return boolVal(X::RCmp(O::RLE, y, x));
        case 4: return boolVal(X::RCmp(O::RLT, x, y));
        case 5: return boolVal(X::RCmp(O::RLE, x, y));
        case 6: return boolVal(X::Not(X::Eq(x, y)));
        default: break;
        }
        if (p == CmpInst::FCMP_ORD || p == CmpInst::FCMP_TRUE) r.c = 1;
        return r; // UNO, FALSE
    }
    Expr* uno = nullptr;
    auto U    = [&] { return uno ? uno : (uno = X::FCmp(O::FUNO, x, y)); };
    switch (p)
    {
    case CmpInst::FCMP_FALSE: return boolVal(X::B(false));
    case CmpInst::FCMP_TRUE: return boolVal(X::B(true));
    case CmpInst::FCMP_OEQ: return boolVal(X::FCmp(O::FEQ, x, y));
    case CmpInst::FCMP_UNE: return boolVal(X::Not(X::FCmp(O::FEQ, x, y)));
    case CmpInst::FCMP_OLT: return boolVal(X::FCmp(O::FLT, x, y));
    case CmpInst::FCMP_OGT: return boolVal(X::FCmp(O::FLT, y, x));
    case CmpInst::FCMP_OLE: return boolVal(X::FCmp(O::FLE, x, y));
    case CmpInst::FCMP_OGE: return boolVal(X::FCmp(O::FLE, y, x));
    case CmpInst::FCMP_UGE: return boolVal(X::Not(X::FCmp(O::FLT, x, y)));
    case CmpInst::FCMP_ULE: return boolVal(X::Not(X::FCmp(O::FLT, y, x)));
    case CmpInst::FCMP_UGT: return boolVal(X::Not(X::FCmp(O::FLE, x, y)));
    case CmpInst::FCMP_ULT: return boolVal(X::Not(X::FCmp(O::FLE, y, x)));
    case CmpInst::FCMP_UNO: return boolVal(U());
    case CmpInst::FCMP_ORD: return boolVal(X::Not(U()));
    case CmpInst::FCMP_ONE: return boolVal(X::And(X::Not(U()), X::Not(X::FCmp(O::FEQ, x, y))));
    case CmpInst::FCMP_UEQ: return boolVal(X::Or(U(), X::FCmp(O::FEQ, x, y)));
    }
    unsupported("fcmp");
}
static O opmap(Op o)
{
    switch (o)
    {
    case I_ADD: return O::ADD; case I_SUB: return O::SUB; case I_MUL: return O::MUL; case I_UDIV: return O::UDIV;
    case I_SDIV: return O::SDIV; case I_UREM: return O::UREM; case I_SREM: return O::SREM; case I_SHL: return O::SHL;
    case I_LSHR: return O::LSHR; case I_ASHR: return O::ASHR; case I_AND: return O::BAND; case I_OR: return O::BOR;
    case I_XOR: return O::BXOR;
    default: abort();
    }
}
static Val exprVal(Expr* e)
{
    Val r;
    if (X::isc(e)) r.c = e->c;
    else r.e = e;
    return r;
}
static Val ibin(Op op, const Val& a, const Val& b, unsigned w)
{
    Val r;
    bool div = op == I_UDIV || op == I_SDIV || op == I_UREM || op == I_SREM;
    if (!a.e && !b.e)
    {
        if (div && maskw(b.c, w) == 0) violation("arith", "integer division by zero");
        r.c = maskw(X::foldbv(opmap(op), maskw(a.c, w), maskw(b.c, w), w), w);
        return r;
    }
    if ((a.e && (a.e->s == S::REAL || a.e->s == S::FP)) || (b.e && (b.e->s == S::REAL || b.e->s == S::FP)))
        unsupported("integer operation on the bits of a symbolic real");
    Expr *x = lift(a, K_INT, w), *y = lift(b, K_INT, w);
    if (div && decide(X::Eq(y, X::bv(0, w)))) violation("arith", "integer division by zero");
    return exprVal(X::Bin(opmap(op), x, y));
}
static Val icmp(int p, const Val& a, const Val& b, unsigned w)
{
    Val r;
    if (!a.e && !b.e)
    {
        u64 x = maskw(a.c, w), y = maskw(b.c, w);
        int64_t sx = sxt(x, w), sy = sxt(y, w);
        switch (p)
        {
        case CmpInst::ICMP_EQ: r.c = x == y; break;
        case CmpInst::ICMP_NE: r.c = x != y; break;
        case CmpInst::ICMP_UGT: r.c = x > y; break;
        case CmpInst::ICMP_UGE: r.c = x >= y; break;
        case CmpInst::ICMP_ULT: r.c = x < y; break;
        case CmpInst::ICMP_ULE: r.c = x <= y; break;
        case CmpInst::ICMP_SGT: r.c = sx > sy; break;
        case CmpInst::ICMP_SGE: r.c = sx >= sy; break;
        case CmpInst::ICMP_SLT: r.c = sx < sy; break;
        case CmpInst::ICMP_SLE: r.c = sx <= sy; break;
        }
        return r;
    }
    if ((a.e && (a.e->s == S::REAL || a.e->s == S::FP)) || (b.e && (b.e->s == S::REAL || b.e->s == S::FP)))
    {
        // sign tests and equality of reals
        if (g_theory == TH_REAL && a.e && a.e->s == S::REAL && w == 64)
        {
            if (p == CmpInst::ICMP_SLT && !b.e && b.c == 0) return boolVal(X::RCmp(O::RLT, a.e, X::rc(0)));
            if (p == CmpInst::ICMP_SGT && !b.e && b.c == ~0ULL) return boolVal(X::RCmp(O::RLE, X::rc(0), a.e));
            if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && (b.e ? b.e->s == S::REAL : std::isfinite(b2d(b.c))))
            {
                Expr* q = X::Eq(a.e, b.e ? b.e : X::rc(b2d(b.c)));
                return boolVal(p == CmpInst::ICMP_EQ ? q : X::Not(q));
            }
        }
        unsupported("integer comparison on the bits of a symbolic real");
    }
    Expr *x = lift(a, K_INT, w), *y = lift(b, K_INT, w);
    switch (p)
    {
    case CmpInst::ICMP_EQ: return exprVal(X::Eq(x, y));
    case CmpInst::ICMP_NE: return exprVal(X::Not(X::Eq(x, y)));
    case CmpInst::ICMP_UGT: return exprVal(X::Cmp(O::ULT, y, x));
    case CmpInst::ICMP_UGE: return exprVal(X::Cmp(O::ULE, y, x));
    case CmpInst::ICMP_ULT: return exprVal(X::Cmp(O::ULT, x, y));
    case CmpInst::ICMP_ULE: return exprVal(X::Cmp(O::ULE, x, y));
    case CmpInst::ICMP_SGT: return exprVal(X::Cmp(O::SLT, y, x));
    case CmpInst::ICMP_SGE: return exprVal(X::Cmp(O::SLE, y, x));
    case CmpInst::ICMP_SLT: return exprVal(X::Cmp(O::SLT, x, y));
    case CmpInst::ICMP_SLE: return exprVal(X::Cmp(O::SLE, x, y));
    }
    unsupported("icmp");
}
static Val selectV(const Val& c, const Val& a, const Val& b, K k, unsigned w)
{
    if (!c.e) return (c.c & 1) ? a : b;
    if (k == K_AGG || k == K_PTR || k == K_FLT)
    {
        if (k != K_AGG && !a.e && !b.e && a.c == b.c) return a;
        return decide(c.e) ? a : b;
    }
    // a choice of integers (counters, sizes, addresses) by reals is a fork: no query mixes reals and bit-vectors
    if (k == K_INT && w >= 16 && g_theory == TH_REAL) return decide(c.e) ? a : b;
    Expr *x = lift(a, k, w), *y = lift(b, k, w);
    if (x->s != y->s) return decide(c.e) ? a : b;
    if (k == K_DBL && g_theory == TH_REAL)
    {
        for (Expr* e : {x, y})
            if (X::isc(e) && !std::isfinite(b2d(e->c))) return decide(c.e) ? a : b;
    }
    return exprVal(X::Ite(c.e, x, y));
}
static Val castV(Op op, const Val& a, unsigned from, unsigned to)
{
    Val r;
    if (!a.e)
    {
        switch (op)
        {
        case I_TRUNC: r.c = maskw(a.c, to); return r;
        case I_ZEXT: r.c = maskw(a.c, from); return r;
        case I_SEXT: r.c = maskw(u64(sxt(a.c, from)), to); return r;
        default: break;
        }
    }
    Expr* e = a.e;
    if (e->s == S::REAL || e->s == S::FP) unsupported("integer cast of the bits of a symbolic real");
    switch (op)
    {
    case I_TRUNC: return exprVal(to == 1 ? X::toBool(e) : X::Extract(e, 0, to));
    case I_ZEXT: return exprVal(X::Zext(e, to));
    case I_SEXT: return exprVal(X::Sext(e, to));
    default: abort();
    }
}
static Val uf(const char* name, std::initializer_list<Expr*> as)
{
    size_t i = 0;
    for (; i < EP.ufs.size(); i++)
        if (EP.ufs[i] == name) break;
    if (i == EP.ufs.size()) EP.ufs.push_back(name);
    Expr* k[3] = {nullptr, nullptr, nullptr};
    int n      = 0;
    for (auto* a : as) k[n++] = a;
    Val r;
    r.e = EP.mk(O::UF, g_theory == TH_REAL ? S::REAL : S::FP, 0, k[0], k[1], k[2], i);
    return r;
}
static Val math1(const char* name, const Val& a, double (*fp)(double))
{
    Val r;
    if (!a.e)
    {
        r.c = d2b(fp(b2d(a.c)));
        return r;
    }
    std::string n = name;
    if (n == "fabs")
    {
        if (g_theory == TH_REAL) return exprVal(X::Ite(X::RCmp(O::RLT, a.e, X::rc(0)), X::RNeg(a.e), a.e));
        return exprVal(EP.mk(O::FABS, S::FP, 0, a.e));
    }
    if (n == "sqrt")
    {
        if (g_theory == TH_FP) return exprVal(EP.mk(O::FSQRT, S::FP, 0, a.e));
        if (decide(X::RCmp(O::RLT, a.e, X::rc(0))))
        {
            sh->nonfinite++;
            r.e = EP.var("nonfinite!s" + std::to_string(EP.varnames.size()), S::REAL, 0);
            return r;
        }
        Expr* s = EP.var("sqrt!" + std::to_string(EP.varnames.size()), S::REAL, 0);
        cur_ok = false;
        addpc(X::RCmp(O::RLE, X::rc(0), s));
        addpc(X::Eq(X::RBin(O::RMUL, s, s), a.e));
        r.e = s;
        return r;
    }
    if (g_theory == TH_REAL && (n == "floor" || n == "ceil" || n == "trunc" || n == "round" || n == "rint" || n == "nearbyint"))
    {
        // enumerate the whole part (bounded)
        for (int i = 0; i < 128; i++)
        {
            int k = (i & 1) ? -(i + 1) / 2 : i / 2; // k <= a < k + 1
            if (!decide(X::And(X::RCmp(O::RLE, X::rc(k), a.e), X::RCmp(O::RLT, a.e, X::rc(k + 1))))) continue;
            bool whole = decide(X::Eq(a.e, X::rc(k)));
            int v      = k;
            if (!whole && (n == "ceil" || (n == "trunc" && k < 0))) v = k + 1;
            if (!whole && (n == "round" || n == "rint" || n == "nearbyint"))
            {
                if (decide(X::RCmp(O::RLT, X::rc(k + 0.5), a.e))) v = k + 1;
                else if (decide(X::Eq(X::rc(k + 0.5), a.e))) v = n == "round" ? (k >= 0 ? k + 1 : k) : (k % 2 ? k + 1 : k);
            }
            r.c = d2b(v);
            return r;
        }
        unsupported(n + " of a large symbolic real");
    }
    return uf(name, {a.e});
}
static Val fminmax(const Val& a, const Val& b, bool mx)
{
    Val r;
    if (!a.e && !b.e)
    {
        r.c = d2b(mx ? fmax(b2d(a.c), b2d(b.c)) : fmin(b2d(a.c), b2d(b.c)));
        return r;
    }
    Expr *x = lift(a, K_DBL, 64), *y = lift(b, K_DBL, 64);
    if (g_theory == TH_REAL)
    {
        Val c = fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b);
        return selectV(c, a, b, K_DBL, 64);
    }
    return exprVal(EP.mk(mx ? O::FMAX : O::FMIN, S::FP, 0, x, y));
}

#include "handlers.hpp"

// ---------------------------------------------------------------------------------------------- main loop
static void enter(Fn* fn, std::vector<Val>& args, CallInfo* ci)
{
    if (!fn->decoded)
    {
        decode(fn);
    }
    fn->calls++;
    Frame* f;
    if (!frame_pool.empty())
    {
        f = frame_pool.back();
        frame_pool.pop_back();
    }
    else f = new Frame;
    f->fn  = fn;
    f->pc  = 0;
    f->sp0 = stop_;
    f->vararea = 0;
    f->r.assign(fn->nregs, Val());
    size_t np = fn->f->arg_size();
    stack_.push_back(f);
    if (stack_.size() > 20000) violation("memory", "unbounded recursion");
    for (size_t i = 0; i < np && i < args.size(); i++)
    {
        if (ci && i < ci->byval.size() && ci->byval[i])
        {
            u64 a = stackAlloc(ci->byval[i], 16);
            copyMem(a, args[i].c, ci->byval[i]);
            f->r[i].c = a;
        }
        else f->r[i] = args[i];
    }
    if (fn->f->isVarArg())
    {
        size_t nv = args.size() - np;
        u64 a     = stackAlloc(8 * (nv + 1), 16);
        for (size_t i = 0; i < nv; i++)
        {
            Val v = args[np + i];
            memset((void*)(a + 8 * i), 0, 8);
            if (v.e) putSym(a + 8 * i, v.e->s == S::BV && v.e->w < 64 ? X::Zext(v.e, 64) : v.e, 8);
            else memcpy((void*)(a + 8 * i), &v.c, 8);
        }
        f->vararea = a;
    }
}

static Val execIntrinsic(DI& d, std::vector<Val>& a, Frame* f);

static void doCall(Frame* f, DI& d)
{
    CallInfo* ci = d.ci;
    std::vector<Val> a;
    a.reserve(d.ops.size());
    for (auto& o : d.ops) a.push_back(o.slot >= 0 ? f->r[size_t(o.slot)] : o.v);
    auto finish = [&](const Val& r)
    {
        if (d.dst >= 0) f->r[size_t(d.dst)] = r;
        if (d.op == I_INVOKE) takeEdge(f, ci->e_normal);
        else f->pc++;
    };
    if (ci->iid)
    {
        Val r = execIntrinsic(d, a, f);
        finish(r);
        return;
    }
    Function* target = ci->f;
    const Handler* h = ci->h;
    void* native     = ci->native;
    if (!target)
    {
        u64 ad = concretize(ci->callee.slot >= 0 ? f->r[size_t(ci->callee.slot)] : ci->callee.v, "function pointer");
        if (ad >= FBASE && ad < FBASE + faddr.size() * 16) target = faddr[(ad - FBASE) / 16];
        else if (inArena(ad) || ad < 0x10000 || ad >= 0x800000000000ULL) violation("memory", "call through an invalid function pointer " + fmtv(ad));
        else
        {
            auto it = native_names.find(ad);
            if (it == native_names.end())
            {
                Dl_info inf;
                std::string nm;
                if (dladdr((void*)ad, &inf) && inf.dli_sname) nm = inf.dli_sname;
                it = native_names.emplace(ad, nm).first;
            }
            auto hi = handlers.find(it->second);
            if (hi != handlers.end()) h = &hi->second;
            native = (void*)ad;
            ci     = new CallInfo(*ci);
        }
    }
    if (target && !h && !native)
    {
        auto hi = handlers.find(target->getName().str());
        if (hi != handlers.end()) h = &hi->second;
        else if (target->isDeclaration())
        {
            native = dlsym(RTLD_DEFAULT, target->getName().str().c_str());
            if (!native) unsupported("unresolved external " + demangle(target->getName().str()));
            native_names[(u64)native] = target->getName().str();
        }
        if (ci->f)
        {
            ci->h      = h;
            ci->native = native;
        }
    }
    if (h)
    {
        CallCtx c{&d, ci, a, Val(), false};
        (*h)(c);
        if (c.threw)
        {
            unwind(g_cur_exc, 0);
            return;
        }
        finish(c.ret);
        return;
    }
    if (native)
    {
        // numbers that only end up in the text of the library's error message do not split the path
        bool msg = native_names[(u64)native] == "_ZSt24__throw_out_of_range_fmtPKcz";
        for (size_t i = 0; i < a.size(); i++)
            if (a[i].e)
            {
                if (msg && i > 0 && a[i].e->s == S::BV && !X::isc(a[i].e)) { a[i].c = 0; a[i].e = nullptr; continue; }
                if (X::isc(a[i].e)) { a[i].c = a[i].e->c; a[i].e = nullptr; continue; }
                if (a[i].e->s == S::BV || a[i].e->s == S::BOOL) { a[i].c = concretize(a[i], "argument of a native function"); a[i].e = nullptr; }
                else unsupported("symbolic real passed to native " + demangle(native_names[(u64)native]));
            }
        Val r;
        for (size_t i = 0; i < a.size(); i++)
            if (i < ci->byval.size() && ci->byval[i]) unsupported("byval argument of a native function");
        u64 ex = callNative(native, ci->ft, a, ci->ak, K(d.k), d.w, d.ty, r);
        if (ex)
        {
            unwind(ex, 0);
            return;
        }
        finish(r);
        return;
    }
    enter(getFn(target), a, ci);
}

static Val execIntrinsic(DI& d, std::vector<Val>& a, Frame* f)
{
    Val r;
    auto cb  = cast<CallBase>(d.I);
    unsigned w = d.w;
    switch (d.ci->iid)
    {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        copyMem(concretize(a[0], "memcpy"), concretize(a[1], "memcpy"), concretize(a[2], "memcpy size"));
        return r;
    case Intrinsic::memset: case Intrinsic::memset_inline:
    {
        u64 p = concretize(a[0], "memset"), n = concretize(a[2], "memset size");
        if (n)
        {
            checkAccess(p, n, true);
            eraseSym(p, n);
            if (a[1].e)
                for (u64 i = 0; i < n; i++) putSym(p + i, a[1].e, 1);
            else memset((void*)p, int(a[1].c), n);
        }
        return r;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address:
        return a[0];
    case Intrinsic::is_constant: return r;
    case Intrinsic::objectsize: r.c = (a[1].c & 1) ? 0 : maskw(~0ULL, w); return r;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation("trap", "trap instruction reached");
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    {
        unsigned ww = d.ci->aw[0];
        u64 x = concretize(a[0], "overflow op"), y = concretize(a[1], "overflow op");
        __int128 v = 0;
        bool sg    = false;
        switch (d.ci->iid)
        {
        case Intrinsic::umul_with_overflow: v = (__int128)((unsigned __int128)x * y); break;
        case Intrinsic::uadd_with_overflow: v = (__int128)x + y; break;
        case Intrinsic::usub_with_overflow: v = (__int128)x - y; break;
        case Intrinsic::sadd_with_overflow: v = (__int128)sxt(x, ww) + sxt(y, ww); sg = true; break;
        case Intrinsic::ssub_with_overflow: v = (__int128)sxt(x, ww) - sxt(y, ww); sg = true; break;
        default: v = (__int128)sxt(x, ww) * sxt(y, ww); sg = true; break;
        }
        u64 res = maskw(u64(v), ww);
        bool ov = sg ? v != (__int128)sxt(res, ww) : v != (__int128)(unsigned __int128)res;
        r = mkagg(d.ty);
        r.agg()->v[0].c = res;
        r.agg()->v[1].c = ov;
        return r;
    }
    case Intrinsic::usub_sat: { u64 x = concretize(a[0], "sat"), y = concretize(a[1], "sat"); r.c = x > y ? x - y : 0; return r; }
    case Intrinsic::uadd_sat: { u64 x = concretize(a[0], "sat"), y = concretize(a[1], "sat"); u64 s = maskw(x + y, w); r.c = s < x ? maskw(~0ULL, w) : s; return r; }
    case Intrinsic::fabs: return math1("fabs", a[0], fabs);
    case Intrinsic::sqrt: return math1("sqrt", a[0], sqrt);
    case Intrinsic::sin: return math1("sin", a[0], sin);
    case Intrinsic::cos: return math1("cos", a[0], cos);
    case Intrinsic::exp: return math1("exp", a[0], exp);
    case Intrinsic::log: return math1("log", a[0], log);
    case Intrinsic::floor: return math1("floor", a[0], floor);
    case Intrinsic::ceil: return math1("ceil", a[0], ceil);
    case Intrinsic::trunc: return math1("trunc", a[0], trunc);
    case Intrinsic::rint: return math1("rint", a[0], rint);
    case Intrinsic::nearbyint: return math1("nearbyint", a[0], nearbyint);
    case Intrinsic::round: return math1("round", a[0], round);
    case Intrinsic::minnum: return fminmax(a[0], a[1], false);
    case Intrinsic::maxnum: return fminmax(a[0], a[1], true);
    case Intrinsic::copysign:
        if (!a[0].e && !a[1].e) { r.c = d2b(copysign(b2d(a[0].c), b2d(a[1].c))); return r; }
        if (g_theory == TH_REAL)
        {
            Val m = math1("fabs", a[0], fabs), zero;
            zero.c = d2b(0.0);
            if (!a[1].e) return std::signbit(b2d(a[1].c)) ? fbin(I_FSUB, zero, m) : m;
            return selectV(boolVal(X::RCmp(O::RLT, a[1].e, X::rc(0))), fbin(I_FSUB, zero, m), m, K_DBL, 64);
        }
        unsupported("copysign");
    case Intrinsic::pow:
        if (!a[0].e && !a[1].e) { r.c = d2b(pow(b2d(a[0].c), b2d(a[1].c))); return r; }
        return uf("pow", {lift(a[0], K_DBL, 64), lift(a[1], K_DBL, 64)});
    case Intrinsic::fmuladd: case Intrinsic::fma:
        return fbin(I_FADD, fbin(I_FMUL, a[0], a[1]), a[2]);
    case Intrinsic::powi:
    {
        if (!a[0].e) { r.c = d2b(pow(b2d(a[0].c), double(int32_t(a[1].c)))); return r; }
        int n = int(int32_t(concretize(a[1], "powi")));
        Val one; one.c = d2b(1.0);
        Val acc = one;
        for (int i = 0; i < abs(n); i++) acc = fbin(I_FMUL, acc, a[0]);
        return n < 0 ? fbin(I_FDIV, one, acc) : acc;
    }
    case Intrinsic::abs:
    {
        Val zero;
        Val neg = ibin(I_SUB, zero, a[0], w);
        return selectV(icmp(CmpInst::ICMP_SLT, a[0], zero, w), neg, a[0], K_INT, w);
    }
    case Intrinsic::smin: return selectV(icmp(CmpInst::ICMP_SLT, a[0], a[1], w), a[0], a[1], K_INT, w);
    case Intrinsic::smax: return selectV(icmp(CmpInst::ICMP_SGT, a[0], a[1], w), a[0], a[1], K_INT, w);
    case Intrinsic::umin: return selectV(icmp(CmpInst::ICMP_ULT, a[0], a[1], w), a[0], a[1], K_INT, w);
    case Intrinsic::umax: return selectV(icmp(CmpInst::ICMP_UGT, a[0], a[1], w), a[0], a[1], K_INT, w);
    case Intrinsic::ctlz: { u64 x = concretize(a[0], "ctlz"); r.c = x ? u64(__builtin_clzll(x)) - (64 - w) : w; return r; }
    case Intrinsic::cttz: { u64 x = concretize(a[0], "cttz"); r.c = x ? u64(__builtin_ctzll(x)) : w; return r; }
    case Intrinsic::ctpop: { u64 x = concretize(a[0], "ctpop"); r.c = u64(__builtin_popcountll(x)); return r; }
    case Intrinsic::bswap: { u64 x = concretize(a[0], "bswap"); r.c = __builtin_bswap64(x) >> (64 - w); return r; }
    case Intrinsic::fshl: case Intrinsic::fshr:
    {
        u64 x = concretize(a[0], "fsh"), y = concretize(a[1], "fsh"), s = concretize(a[2], "fsh") % w;
        if (d.ci->iid == Intrinsic::fshl) r.c = s ? maskw((x << s) | (maskw(y, w) >> (w - s)), w) : x;
        else r.c = s ? maskw((x << (w - s)) | (maskw(y, w) >> s), w) : y;
        return r;
    }
    case Intrinsic::is_fpclass:
    {
        u64 m = a[1].c;
        if (!a[0].e)
        {
            double x = b2d(a[0].c);
            bool s   = std::signbit(x);
            u64 b;
            if (std::isnan(x)) b = 3;
            else if (std::isinf(x)) b = s ? 4 : 512;
            else if (x == 0) b = s ? 32 : 64;
            else if (std::fpclassify(x) == FP_SUBNORMAL) b = s ? 16 : 128;
            else b = s ? 8 : 256;
            r.c = (m & b) != 0;
            return r;
        }
        if (g_theory == TH_REAL)
        {
            // finite
            if (!(m & ~(3ULL | 4 | 512))) return r;
            if ((m & (8 | 16 | 32 | 64 | 128 | 256)) == (8 | 16 | 32 | 64 | 128 | 256)) { r.c = 1; return r; }
        }
        else
        {
            Expr* nan = X::FCmp(O::FUNO, a[0].e, a[0].e);
            if (m == 3) return boolVal(nan);
            if (m == (1023 & ~3ULL)) return boolVal(X::Not(nan));
            Expr* bits = X::FToBV(a[0].e);
            Expr* mag  = X::Bin(O::BAND, bits, X::bv(0x7fffffffffffffffULL, 64));
            Expr* inf  = X::Eq(mag, X::bv(0x7ff0000000000000ULL, 64));
            if (m == (4 | 512)) return boolVal(inf);
            if (m == (8 | 16 | 32 | 64 | 128 | 256)) return boolVal(X::Cmp(O::ULT, mag, X::bv(0x7ff0000000000000ULL, 64)));
        }
        unsupported("is.fpclass");
    }
    case Intrinsic::vastart:
    {
        u64 p = a[0].c;
        checkAccess(p, 24, true);
        *(uint32_t*)p = 48;
        *(uint32_t*)(p + 4) = 304;
        *(u64*)(p + 8)  = f->vararea;
        *(u64*)(p + 16) = 0;
        return r;
    }
    case Intrinsic::vaend: return r;
    case Intrinsic::load_relative:
    {
        u64 p = concretize(a[0], "relative load"), o = concretize(a[1], "relative load");
        Val v = loadVal(p + o, Type::getInt32Ty(cb->getContext()));
        r.c   = p + u64(sxt(concretize(v, "relative load"), 32));
        return r;
    }
    case Intrinsic::vacopy: copyMem(a[0].c, a[1].c, 24); return r;
    case Intrinsic::eh_typeid_for: r.c = u64(typeSel(a[0].c)); return r;
    case Intrinsic::stacksave: r.c = stop_; return r;
    case Intrinsic::stackrestore: stackPop(a[0].c); return r;
    case Intrinsic::prefetch: return r;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
    {
        auto& v = a[0].agg()->v;
        Val acc = v[0];
        Op o = d.ci->iid == Intrinsic::vector_reduce_add ? I_ADD : d.ci->iid == Intrinsic::vector_reduce_or ? I_OR : I_AND;
        for (size_t i = 1; i < v.size(); i++) acc = ibin(o, acc, v[i], w);
        return acc;
    }
    default: unsupported("intrinsic " + cb->getCalledFunction()->getName().str());
    }
}

static Val scalarOp(DI& d, Op op, const std::vector<Val>& v)
{
    switch (op)
    {
    case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_SHL: case I_LSHR:
    case I_ASHR: case I_AND: case I_OR: case I_XOR: return ibin(op, v[0], v[1], d.w);
    case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM: return fbin(op, v[0], v[1]);
    case I_ICMP: return icmp(d.pred, v[0], v[1], d.w2);
    case I_FCMP: return fcmp(d.pred, v[0], v[1]);
    case I_TRUNC: case I_ZEXT: case I_SEXT: return castV(op, v[0], d.w2, d.w);
    case I_MOV: return v[0];
    case I_FNEG:
    {
        Val r;
        if (!v[0].e) { r.c = v[0].c ^ (1ULL << 63); return r; }
        if (g_theory == TH_REAL) return exprVal(X::RNeg(v[0].e));
        return exprVal(EP.mk(O::FNEG, S::FP, 0, v[0].e));
    }
    case I_SITOFP: case I_UITOFP:
    {
        Val r;
        if (!v[0].e)
        {
            if (d.k == K_FLT) { float x = op == I_SITOFP ? float(sxt(v[0].c, d.w2)) : float(v[0].c); uint32_t b; memcpy(&b, &x, 4); r.c = b; return r; }
            r.c = d2b(op == I_SITOFP ? double(sxt(v[0].c, d.w2)) : double(v[0].c));
            return r;
        }
        if (d.k == K_FLT) unsupported("symbolic float");
        Expr* e = v[0].e;
        if (e->s == S::BOOL)
        {
            Expr* one = g_theory == TH_REAL ? X::rc(op == I_SITOFP ? -1 : 1) : X::fc(d2b(op == I_SITOFP ? -1 : 1));
            Expr* zr  = g_theory == TH_REAL ? X::rc(0) : X::fc(0);
            return exprVal(X::Ite(e, one, zr));
        }
        if (g_theory == TH_REAL)
        {
            if (e->op == O::ITE && X::isc(e->k[1]) && X::isc(e->k[2]))
            {
                auto cv = [&](Expr* k) { return X::rc(op == I_SITOFP ? double(sxt(k->c, k->w)) : double(k->c)); };
                return exprVal(X::Ite(e->k[0], cv(e->k[1]), cv(e->k[2])));
            }
            return exprVal(EP.mk(op == I_SITOFP ? O::S2R : O::U2R, S::REAL, 0, e));
        }
        if (e->op == O::ITE && X::isc(e->k[1]) && X::isc(e->k[2]))
        {
            auto cv = [&](Expr* k) { return X::fc(d2b(op == I_SITOFP ? double(sxt(k->c, k->w)) : double(k->c))); };
            return exprVal(X::Ite(e->k[0], cv(e->k[1]), cv(e->k[2])));
        }
        return exprVal(EP.mk(op == I_SITOFP ? O::FS2F : O::FU2F, S::FP, 0, e));
    }
    case I_FPTOSI: case I_FPTOUI:
    {
        Val r;
        if (v[0].e)
        {
            if (v[0].e->op == O::S2R && v[0].e->k[0]->w == d.w) return exprVal(v[0].e->k[0]);
            if (v[0].e->op == O::FS2F && v[0].e->k[0]->w == d.w) return exprVal(v[0].e->k[0]);
            if (g_theory == TH_REAL)
            {
                // enumerate the truncated value (bounded)
                Expr* x = v[0].e;
                for (int n = 0; n < 64; n++)
                {
                    int c = (n & 1) ? -(n + 1) / 2 : n / 2;
                    Expr* lo = X::rc(c <= 0 ? c - 1 : c);
                    Expr* hi = X::rc(c >= 0 ? c + 1 : c);
                    Expr* in = c == 0 ? X::And(X::RCmp(O::RLT, lo, x), X::RCmp(O::RLT, x, hi))
                               : c > 0 ? X::And(X::RCmp(O::RLE, lo, x), X::RCmp(O::RLT, x, hi))
                                       : X::And(X::RCmp(O::RLT, lo, x), X::RCmp(O::RLE, x, hi));
                    if (decide(in)) { r.c = maskw(u64(int64_t(c)), d.w); return r; }
                }
            }
            unsupported("symbolic real converted to an integer");
        }
        double x = b2d(v[0].c);
        if (d.w2 == 32) { float fl; uint32_t b = uint32_t(v[0].c); memcpy(&fl, &b, 4); x = fl; }
        r.c = maskw(op == I_FPTOSI ? u64(int64_t(x)) : u64(x), d.w);
        return r;
    }
    case I_FPEXT:
    {
        Val r;
        float fl; uint32_t b = uint32_t(v[0].c); memcpy(&fl, &b, 4);
        if (d.k != K_DBL) unsupported("fpext");
        r.c = d2b(double(fl));
        return r;
    }
    case I_FPTRUNC:
    {
        if (v[0].e || d.k != K_FLT) unsupported("fptrunc");
        Val r;
        float fl = float(b2d(v[0].c)); uint32_t b; memcpy(&b, &fl, 4);
        r.c = b;
        return r;
    }
    default: unsupported("operation");
    }
}

static void run(size_t base)
{
    while (stack_.size() > base)
    {
        Frame* f = stack_.back();
        DI& d    = f->fn->code[f->pc];
        ninstr++;
        if ((ninstr & 0xfffff) == 0)
        {
            if (now() > t_deadline || sh->stop) { sh->limits++; throw PathEnd{4}; }
            // a path this long (instructions since the last fork, or forks) is taken for one that does not end
            if (ninstr > max_instr) violation("hang", "no end in sight");
        }
#define OP(i) (d.ops[i].slot >= 0 ? f->r[size_t(d.ops[i].slot)] : d.ops[i].v)
#define RES f->r[size_t(d.dst)]
        switch (d.op)
        {
        case I_NOP: f->pc++; break;
        case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_SHL: case I_LSHR:
        case I_ASHR: case I_AND: case I_OR: case I_XOR:
        {
            Val a = OP(0), b = OP(1);
            if (!a.e && !b.e && d.op == I_ADD) { Val r; r.c = maskw(a.c + b.c, d.w); RES = r; }
            else RES = ibin(d.op, a, b, d.w);
            f->pc++;
            break;
        }
        case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM:
            if (d.k == K_FLT)
            {
                Val a = OP(0), b = OP(1);
                if (a.e || b.e) unsupported("symbolic float");
                float x, y, r; uint32_t xa = uint32_t(a.c), ya = uint32_t(b.c);
                memcpy(&x, &xa, 4); memcpy(&y, &ya, 4);
                r = d.op == I_FADD ? x + y : d.op == I_FSUB ? x - y : d.op == I_FMUL ? x * y : x / y;
                memcpy(&xa, &r, 4);
                Val rr; rr.c = xa; RES = rr;
            }
            else RES = fbin(d.op, OP(0), OP(1));
            f->pc++;
            break;
        case I_FNEG: case I_FPTOSI: case I_FPTOUI: case I_SITOFP: case I_UITOFP: case I_FPEXT: case I_FPTRUNC:
        {
            std::vector<Val> v{OP(0)};
            RES = scalarOp(d, d.op, v);
            f->pc++;
            break;
        }
        case I_ICMP: RES = icmp(d.pred, OP(0), OP(1), d.w2); f->pc++; break;
        case I_FCMP:
            if (d.w2 == 32)
            {
                float x, y; uint32_t xa = uint32_t(OP(0).c), ya = uint32_t(OP(1).c);
                memcpy(&x, &xa, 4); memcpy(&y, &ya, 4);
                Val r; r.c = fcmpC(d.pred, x, y); RES = r;
            }
            else RES = fcmp(d.pred, OP(0), OP(1));
            f->pc++;
            break;
        case I_SELECT: { Val r = selectV(OP(0), OP(1), OP(2), K(d.k), d.w); RES = r; f->pc++; break; }
        case I_TRUNC: case I_ZEXT: case I_SEXT: RES = castV(d.op, OP(0), d.w2, d.w); f->pc++; break;
        case I_MOV: { Val r = OP(0); RES = r; f->pc++; break; }
        case I_BITCAST:
        {
            Val a = OP(0);
            u8 w;
            K from = kindOf(d.I->getOperand(0)->getType(), w);
            if (a.e)
            {
                if (d.k == K_DBL && a.e->s == S::BV)
                {
                    if (g_theory == TH_REAL) unsupported("bitcast of symbolic bits to a real");
                    a = exprVal(X::FFromBV(a.e));
                }
                else if (d.k == K_INT && a.e->s == S::FP) a = exprVal(X::FToBV(a.e));
            }
            if (from == K_AGG || d.k == K_AGG)
            {
                // through memory
                Type* ft = d.I->getOperand(0)->getType();
                u64 sp = stop_;
                u64 m = stackAlloc(std::max<u64>(DL->getTypeAllocSize(ft), DL->getTypeAllocSize(d.ty)), 16);
                storeVal(m, ft, a);
                a = loadVal(m, d.ty);
                stackPop(sp);
            }
            RES = a;
            f->pc++;
            break;
        }
        case I_GEP:
        {
            Val b = OP(0);
            if (!b.e)
            {
                u64 off = d.imm;
                Expr* se = nullptr;
                for (size_t i = 1; i < d.ops.size(); i++)
                {
                    Val ix = OP(i);
                    u64 sc = d.x[2 * (i - 1)];
                    unsigned iw = unsigned(d.x[2 * (i - 1) + 1]);
                    if (ix.e)
                    {
                        Expr* t = X::Bin(O::MUL, X::Sext(ix.e, 64), X::bv(sc, 64));
                        se = se ? X::Bin(O::ADD, se, t) : t;
                    }
                    else off += u64(sxt(ix.c, iw)) * sc;
                }
                Val r;
                if (se) r = exprVal(X::Bin(O::ADD, se, X::bv(b.c + off, 64)));
                else r.c = b.c + off;
                RES = r;
            }
            else
            {
                Expr* e = X::Bin(O::ADD, b.e, X::bv(d.imm, 64));
                for (size_t i = 1; i < d.ops.size(); i++)
                {
                    Val ix = OP(i);
                    unsigned iw = unsigned(d.x[2 * (i - 1) + 1]);
                    Expr* t = X::Bin(O::MUL, X::Sext(lift(ix, K_INT, iw), 64), X::bv(d.x[2 * (i - 1)], 64));
                    e = X::Bin(O::ADD, e, t);
                }
                RES = exprVal(e);
            }
            f->pc++;
            break;
        }
        case I_ALLOCA:
        {
            u64 n = concretize(OP(0), "alloca size");
            Val r;
            r.c = stackAlloc(d.imm * n, d.x[0]);
            RES = r;
            f->pc++;
            break;
        }
        case I_LOAD:
        {
            Val p = OP(0);
            u64 a = p.e ? concretize(p, "load address") : p.c;
            Val r = loadVal(a, d.ty);
            RES   = r;
            f->pc++;
            break;
        }
        case I_STORE:
        {
            Val p = OP(1);
            u64 a = p.e ? concretize(p, "store address") : p.c;
            storeVal(a, d.ty, OP(0));
            f->pc++;
            break;
        }
        case I_BR: takeEdge(f, d.edges[0]); break;
        case I_CBR:
        {
            nbranch++;
            Val c = OP(0);
            bool t = c.e ? decide(c.e) : (c.c & 1);
            takeEdge(f, d.edges[t ? 0 : 1]);
            break;
        }
        case I_SWITCH:
        {
            nbranch++;
            Val c = OP(0);
            size_t i = 0;
            for (; i < d.x.size(); i++)
            {
                if (c.e ? decide(X::Eq(c.e, X::bv(d.x[i], d.w2))) : c.c == d.x[i]) break;
            }
            takeEdge(f, d.edges[i < d.x.size() ? i + 1 : 0]);
            break;
        }
        case I_RET:
        {
            Val r;
            bool has = !d.ops.empty();
            if (has) r = OP(0);
            popFrame();
            if (stack_.size() <= base)
            {
                return;
            }
            Frame* c = stack_.back();
            DI& cd   = c->fn->code[c->pc];
            if (cd.dst >= 0) c->r[size_t(cd.dst)] = r;
            if (cd.op == I_INVOKE) takeEdge(c, cd.ci->e_normal);
            else c->pc++;
            break;
        }
        case I_CALL: case I_INVOKE: doCall(f, d); break;
        case I_UNREACH: violation("unreachable", "undefined behaviour: unreachable code reached");
        case I_EXTRACT:
        {
            Val v = OP(0);
            for (u64 i : d.x) { Val t = v.agg()->v[i]; v = t; }
            RES = v;
            f->pc++;
            break;
        }
        case I_INSERT:
        {
            Val v = OP(0);
            auto* na = new Agg(*v.agg());
            Val res; res.c = (u64)na;
            Agg* cur = na;
            for (size_t i = 0; i + 1 < d.x.size(); i++)
            {
                auto* c = new Agg(*cur->v[d.x[i]].agg());
                cur->v[d.x[i]].c = (u64)c;
                cur = c;
            }
            cur->v[d.x.back()] = OP(1);
            RES = res;
            f->pc++;
            break;
        }
        case I_LANDING: unsupported("landing pad reached directly");
        case I_RESUME:
        {
            u64 id = OP(0).agg()->v[0].c;
            popFrame();
            if (stack_.size() <= base) violation("exception", "uncaught exception: " + excDesc(id));
            unwind(id, base);
            break;
        }
        case I_ATOMICRMW:
        {
            u64 a = concretize(OP(0), "atomic address");
            Val old = loadVal(a, d.ty), v = OP(1), nv;
            switch (d.pred)
            {
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::Add: nv = ibin(I_ADD, old, v, d.w); break;
            case AtomicRMWInst::Sub: nv = ibin(I_SUB, old, v, d.w); break;
            case AtomicRMWInst::And: nv = ibin(I_AND, old, v, d.w); break;
            case AtomicRMWInst::Or: nv = ibin(I_OR, old, v, d.w); break;
            default: unsupported("atomicrmw");
            }
            storeVal(a, d.ty, nv);
            RES = old;
            f->pc++;
            break;
        }
        case I_CMPXCHG:
        {
            u64 a = concretize(OP(0), "atomic address");
            Val old = loadVal(a, d.ty);
            u8 w; kindOf(d.ty, w);
            Val eq = icmp(CmpInst::ICMP_EQ, old, OP(1), w);
            bool t = eq.e ? decide(eq.e) : eq.c;
            if (t) storeVal(a, d.ty, OP(2));
            Val r = mkagg(d.I->getType());
            r.agg()->v[0] = old;
            r.agg()->v[1].c = t;
            RES = r;
            f->pc++;
            break;
        }
        case I_VECOP:
        {
            unsigned n = unsigned(OP(0).agg()->v.size());
            Val r = mkagg(d.I->getType());
            for (unsigned i = 0; i < n; i++)
            {
                std::vector<Val> v;
                for (size_t j = 0; j < d.ops.size(); j++) v.push_back(OP(j).agg()->v[i]);
                r.agg()->v[i] = scalarOp(d, Op(d.imm), v);
            }
            RES = r;
            f->pc++;
            break;
        }
        case I_EXTRELT: { Val r = OP(0).agg()->v.at(concretize(OP(1), "vector index")); RES = r; f->pc++; break; }
        case I_INSELT:
        {
            auto* na = new Agg(*OP(0).agg());
            na->v.at(concretize(OP(2), "vector index")) = OP(1);
            Val r; r.c = (u64)na; RES = r;
            f->pc++;
            break;
        }
        case I_SHUF:
        {
            Val r = mkagg(d.ty);
            size_t n = OP(0).agg()->v.size();
            for (size_t i = 0; i < d.x.size(); i++)
            {
                int64_t m = int64_t(d.x[i]);
                if (m >= 0) r.agg()->v[i] = size_t(m) < n ? OP(0).agg()->v[size_t(m)] : OP(1).agg()->v[size_t(m) - n];
            }
            RES = r;
            f->pc++;
            break;
        }
        default:
        {
            std::string s;
            raw_string_ostream os(s);
            d.I->print(os);
            unsupported("instruction" + s);
        }
        }
    }
}

static void callFn(Function* f, std::vector<Val> args)
{
    if (f->isDeclaration()) return;
    size_t base = stack_.size();
    enter(getFn(f), args, nullptr);
    run(base);
}
// run an interpreted destructor from a handler
void runNested(u64 fa, u64 obj)
{
    if (fa >= FBASE && fa < FBASE + faddr.size() * 16)
    {
        Val v;
        v.c = obj;
        callFn(faddr[(fa - FBASE) / 16], {v});
    }
    else if (fa)
    {
        ((void (*)(u64))fa)(obj);
    }
}

static void onSegv(int sig, siginfo_t* si, void*)
{
    static volatile int once = 0;
    if (once) _exit(9);
    once = 1;
    std::string w;
    try { where(w); } catch (...) {}
    u64 a = (u64)si->si_addr;
    sh->unsupported++;
    emit("U {\"msg\":\"signal " + std::to_string(sig) + " in native code at address " + fmtv(a) + "\",\"where\":\"" + jesc(w) + "\"}");
    flushStats();
    if (g_own_token) sh->active--;
    _exit(0);
}

static void pathMain(const char* entry)
{
    int kind = 0;
    try
    {
        callFn(M->getFunction(entry), {});
        if (sh->stop == 0) sh->completed++;
    }
    catch (PathEnd& p) { kind = p.kind; }
    catch (z3::exception& e)
    {
        sh->unsupported++;
        emit(std::string("U {\"msg\":\"z3: ") + jesc(e.msg()) + "\",\"where\":\"\"}");
    }
    catch (std::exception& e)
    {
        sh->unsupported++;
        emit(std::string("U {\"msg\":\"internal: ") + jesc(e.what()) + "\",\"where\":\"\"}");
    }
    if (kind == 1) sh->assumed_out++;
    else if (kind == 0)
    {
        for (auto& r : reached) emit("R " + r);
    }
    std::string ins;
    for (auto& in : inputs)
        if (in.kind == 'c') ins += in.name + "=" + std::to_string(in.c) + " ";
    if (verbose) fprintf(stderr, "[%d] path end kind=%d instr=%llu pc=%zu %s\n", getpid(), kind, (unsigned long long)ninstr, pc.size(), ins.c_str());
    if (kind == 0 && sh->completed.load() <= 400 && !inputs.empty())
    {
        // a witness of this path, for validating the executor against the natively compiled harness
        static const char* wit = getenv("PSE_WITNESS");
        if (wit)
        {
            std::string m = modelJson(pc, false, 0);
            if (!m.empty())
            {
                std::string rl;
                for (auto& r : reached) rl += (rl.empty() ? "\"" : ",\"") + jesc(r) + "\"";
                emit("W {\"inputs\":" + m + ",\"reached\":[" + rl + "]}");
            }
        }
    }
    for (auto& kv : fns)
        if (kv.second->calls) fnames_used.insert(kv.first->getName().str());
    std::string fl;
    for (auto& n : fnames_used)
    {
        if (n.find("pooya") == std::string::npos) continue;
        fl += n + " ";
    }
    emit("F " + fl);
    flushStats();
    if (g_own_token) sh->active--;
    for (pid_t p : kids)
    {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st))
        {
            sh->unsupported++;
            sh->active--;
            emit("U {\"msg\":\"a path process died with signal " + std::to_string(WTERMSIG(st)) + "\",\"where\":\"\"}");
        }
    }
    _exit(0);
}

int main(int argc, char** argv)
{
    std::string bc, out = "/dev/stdout", entry = "pse_main";
    double tlimit = 600;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--theory") g_theory = nx() == "fp" ? TH_FP : TH_REAL;
        else if (a == "--out") out = nx();
        else if (a == "--procs") max_procs = std::stoi(nx());
        else if (a == "--time") tlimit = std::stod(nx());
        else if (a == "--max-paths") max_paths = std::stoull(nx());
        else if (a == "--max-instr") max_instr = std::stoull(nx());
        else if (a == "--rlimit") g_rlimit = std::stoull(nx());
        else if (a == "--max-viol") max_viol = std::stoi(nx());
        else if (a == "--entry") entry = nx();
        else if (a == "--tmp") g_tmpdir = nx();
        else if (a == "--dump") { dump_dir = nx(); dump_max = std::stoull(nx()); }
        else if (a == "-v") verbose++;
        else bc = a;
    }
    t_deadline = now() + tlimit;
    out_fd     = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    sh = new (mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Shared();
    void* ar = mmap((void*)GBASE, AEND - GBASE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (ar != (void*)GBASE) { fprintf(stderr, "pse: cannot map the arena\n"); return 3; }
    g_addr = (u8*)mmap(nullptr, AEND - GBASE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_symf = (u8*)mmap(nullptr, (AEND - GBASE) / 8 + 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_arena_ready = true;

    LLVMContext C;
    SMDiagnostic err;
    auto m = parseIRFile(bc, err, C);
    if (!m) { err.print("pse", errs()); return 3; }
    M  = m.get();
    DL = &M->getDataLayout();
    z  = new Z;
    initHandlers();
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSegv;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    static char altstk[1 << 16];
    stack_t ss;
    ss.ss_sp = altstk; ss.ss_size = sizeof altstk; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);

    struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    static NullBuf nb;
    double tstart = now();
    sh->active = 1;
    sh->paths  = 1;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        std::cout.rdbuf(&nb);
        std::cerr.rdbuf(&nb);
        try
        {
            for (auto& g : M->globals()) globalAddr(&g);
            for (auto& g : M->globals())
                if (!g.isDeclaration() && g.hasInitializer()) writeConst(gaddr[&g], g.getInitializer());
            if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
                if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                {
                    std::vector<std::pair<u64, Function*>> cs;
                    for (auto& o : ca->operands())
                    {
                        auto* s = cast<ConstantStruct>(o);
                        if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()))
                            cs.emplace_back(cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f);
                    }
                    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
                    for (auto& c : cs) callFn(c.second, {});
                }
        }
        catch (PathEnd&)
        {
            flushStats();
            _exit(0);
        }
        pathMain(entry.c_str());
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st))
    {
        sh->unsupported++;
        emit("U {\"msg\":\"the root path process died\",\"where\":\"\"}");
    }
    char buf[4096];
    snprintf(buf, sizeof buf,
             "S {\"paths\":%llu,\"completed\":%llu,\"assumed_out\":%llu,\"instructions\":%llu,\"branches\":%llu,"
             "\"symbolic_branches\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,"
             "\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%llu,\"asserts_concrete\":%llu,\"asserts_simplified\":%llu,"
             "\"asserts_solver\":%llu,\"asserts_unknown\":%llu,\"violations\":%llu,\"unsupported\":%llu,\"limits\":%llu,"
             "\"nonfinite\":%llu,\"choices\":%llu,\"dumped\":%llu,\"symvars\":%llu,\"wall_s\":%.3f}",
             (unsigned long long)sh->paths, (unsigned long long)sh->completed, (unsigned long long)sh->assumed_out,
             (unsigned long long)sh->instrs, (unsigned long long)sh->branches, (unsigned long long)sh->sym_branches,
             (unsigned long long)sh->forks, (unsigned long long)sh->q_total, (unsigned long long)sh->q_sat,
             (unsigned long long)sh->q_unsat, (unsigned long long)sh->q_unknown, double(sh->q_us) * 1e-6,
             double(sh->maxq_us) * 1e-6, (unsigned long long)sh->asserts, (unsigned long long)sh->a_concrete,
             (unsigned long long)sh->a_simpl, (unsigned long long)sh->a_solver, (unsigned long long)sh->a_unknown,
             (unsigned long long)sh->violations, (unsigned long long)sh->unsupported, (unsigned long long)sh->limits,
             (unsigned long long)sh->nonfinite, (unsigned long long)sh->choices, (unsigned long long)std::min<u64>(sh->dumped, dump_max),
             (unsigned long long)sh->nsymvars, now() - tstart);
    emit(buf);
    _exit(0);
}

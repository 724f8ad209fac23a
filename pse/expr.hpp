// Hash-consed symbolic expressions and their translation to Z3.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3++.h>

enum class S : uint8_t { BOOL, BV, REAL, FP };
enum class O : uint8_t {
    CONST, VAR,
    NOT, AND, OR, BXORB, EQ, ITE,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, BAND, BOR, BXOR, ULT, ULE, SLT, SLE,
    CONCAT, EXTRACT, ZEXT, SEXT,
    RADD, RSUB, RMUL, RDIV, RNEG, RLT, RLE, S2R, U2R, UF,
    FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FLT, FLE, FEQ, FUNO, FFROMBV, FTOBV, FS2F, FU2F, FMIN, FMAX
};

struct Expr {
    O op;
    S s;
    uint8_t w;      // bit width for BV
    bool nonlin;    // contains a product/quotient of two non-constant reals
    bool hasuf;
    bool hasbv;     // contains a bit-vector or floating-point term
    uint32_t id;
    Expr* k[3];
    uint64_t c;     // constant bits / extract lo / var index / uf index
    const std::vector<uint32_t>* vars; // sorted variable ids
};

enum Theory { TH_REAL, TH_FP };
extern Theory g_theory;

struct ExprPool {
    struct Key {
        O op; S s; uint8_t w; Expr* k0; Expr* k1; Expr* k2; uint64_t c;
        bool operator==(const Key& o) const
        {
            return op == o.op && s == o.s && w == o.w && k0 == o.k0 && k1 == o.k1 && k2 == o.k2 && c == o.c;
        }
    };
    struct H {
        size_t operator()(const Key& k) const
        {
            uint64_t h = (uint64_t(k.op) << 16) ^ (uint64_t(k.s) << 8) ^ k.w;
            auto mix   = [&](uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; };
            mix(k.k0 ? k.k0->id + 1 : 0); mix(k.k1 ? k.k1->id + 1 : 0); mix(k.k2 ? k.k2->id + 1 : 0); mix(k.c);
            return h;
        }
    };
    std::unordered_map<Key, Expr*, H> tab;
    std::vector<Expr*> all;
    std::vector<std::string> varnames;
    std::vector<S> varsorts;
    std::vector<uint8_t> varw;
    std::vector<std::string> ufs;

    static const std::vector<uint32_t>* merge(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b)
    {
        if (!a || a->empty() || a == b) return b ? b : a;
        if (!b || b->empty()) return a;
        if (std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
        if (std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
        auto* r = new std::vector<uint32_t>();
        std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(*r));
        return r;
    }

    Expr* mk(O op, S s, uint8_t w, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr, uint64_t c = 0)
    {
        Key key{op, s, w, a, b, d, c};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        auto* e = new Expr{op, s, w, false, false, s == S::BV || s == S::FP, uint32_t(all.size()), {a, b, d}, c, nullptr};
        for (auto* k : e->k)
            if (k)
            {
                e->vars = merge(e->vars, k->vars);
                e->nonlin |= k->nonlin;
                e->hasuf |= k->hasuf;
                e->hasbv |= k->hasbv;
            }
        if (op == O::VAR) e->vars = new std::vector<uint32_t>{uint32_t(c)};
        if (op == O::RMUL && a->op != O::CONST && b->op != O::CONST) e->nonlin = true;
        if (op == O::RDIV && b->op != O::CONST) e->nonlin = true;
        if (op == O::UF) e->hasuf = true;
        all.push_back(e);
        tab.emplace(key, e);
        return e;
    }

    Expr* var(const std::string& n, S s, uint8_t w)
    {
        varnames.push_back(n);
        varsorts.push_back(s);
        varw.push_back(w);
        return mk(O::VAR, s, w, nullptr, nullptr, nullptr, varnames.size() - 1);
    }
};
extern ExprPool EP;

inline uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
inline int64_t sxt(uint64_t v, unsigned w)
{
    if (w >= 64) return int64_t(v);
    uint64_t m = 1ULL << (w - 1);
    v          = maskw(v, w);
    return int64_t((v ^ m) - m);
}
inline double b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t d2b(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

namespace X
{
inline Expr* B(bool v) { return EP.mk(O::CONST, S::BOOL, 1, nullptr, nullptr, nullptr, v); }
inline Expr* bv(uint64_t v, unsigned w) { return EP.mk(O::CONST, S::BV, w, nullptr, nullptr, nullptr, maskw(v, w)); }
inline Expr* rc(double d) { return EP.mk(O::CONST, S::REAL, 0, nullptr, nullptr, nullptr, d2b(d == 0 ? 0.0 : d)); }
inline Expr* fc(uint64_t bits) { return EP.mk(O::CONST, S::FP, 0, nullptr, nullptr, nullptr, bits); }
inline bool isc(Expr* e) { return e->op == O::CONST; }
inline bool isT(Expr* e) { return e->op == O::CONST && e->s == S::BOOL && e->c; }
inline bool isF(Expr* e) { return e->op == O::CONST && e->s == S::BOOL && !e->c; }

Expr* Not(Expr* a);
inline Expr* And(Expr* a, Expr* b)
{
    if (isF(a) || isF(b)) return B(false);
    if (isT(a)) return b;
    if (isT(b) || a == b) return a;
    if (a == Not(b)) return B(false);
    if (a->id > b->id) std::swap(a, b);
    return EP.mk(O::AND, S::BOOL, 1, a, b);
}
inline Expr* Or(Expr* a, Expr* b)
{
    if (isT(a) || isT(b)) return B(true);
    if (isF(a)) return b;
    if (isF(b) || a == b) return a;
    if (a == Not(b)) return B(true);
    if (a->id > b->id) std::swap(a, b);
    return EP.mk(O::OR, S::BOOL, 1, a, b);
}
inline Expr* Not(Expr* a)
{
    if (isc(a)) return B(!a->c);
    if (a->op == O::NOT) return a->k[0];
    if (a->op == O::RLT) return EP.mk(O::RLE, S::BOOL, 1, a->k[1], a->k[0]);
    if (a->op == O::RLE) return EP.mk(O::RLT, S::BOOL, 1, a->k[1], a->k[0]);
    if (a->op == O::ULT) return EP.mk(O::ULE, S::BOOL, 1, a->k[1], a->k[0]);
    if (a->op == O::ULE) return EP.mk(O::ULT, S::BOOL, 1, a->k[1], a->k[0]);
    if (a->op == O::SLT) return EP.mk(O::SLE, S::BOOL, 1, a->k[1], a->k[0]);
    if (a->op == O::SLE) return EP.mk(O::SLT, S::BOOL, 1, a->k[1], a->k[0]);
    return EP.mk(O::NOT, S::BOOL, 1, a);
}
Expr* Eq(Expr* a, Expr* b);
inline Expr* Ite(Expr* c, Expr* a, Expr* b)
{
    if (isT(c)) return a;
    if (isF(c)) return b;
    if (a == b) return a;
    if (c->op == O::NOT) return Ite(c->k[0], b, a);
    if (a->s == S::BOOL)
    {
        if (isT(a)) return Or(c, b);
        if (isF(a)) return And(Not(c), b);
        if (isT(b)) return Or(Not(c), a);
        if (isF(b)) return And(c, a);
    }
    return EP.mk(O::ITE, a->s, a->w, c, a, b);
}
inline Expr* Eq(Expr* a, Expr* b)
{
    if (a == b) return (a->s == S::FP) ? EP.mk(O::EQ, S::BOOL, 1, a, b) : B(true);
    if (isc(a) && isc(b) && a->s != S::REAL && a->s != S::FP) return B(a->c == b->c);
    if (isc(a) && isc(b) && a->s == S::REAL) return B(b2d(a->c) == b2d(b->c));
    if (a->s == S::BOOL)
    {
        if (isT(a)) return b;
        if (isT(b)) return a;
        if (isF(a)) return Not(b);
        if (isF(b)) return Not(a);
    }
    if (isc(a)) std::swap(a, b);
    if (isc(b) && a->op == O::ITE && (isc(a->k[1]) || isc(a->k[2])))
        return Ite(a->k[0], Eq(a->k[1], b), Eq(a->k[2], b));
    if (isc(b) && a->op == O::ZEXT)
    {
        unsigned iw = a->k[0]->w;
        if (iw < 64 && (b->c >> iw)) return B(false);
        return Eq(a->k[0], bv(b->c, iw));
    }
    if (a->id > b->id) std::swap(a, b);
    return EP.mk(O::EQ, S::BOOL, 1, a, b);
}
inline Expr* Extract(Expr* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isc(a)) return bv(a->c >> lo, w);
    if (a->op == O::EXTRACT) return Extract(a->k[0], lo + unsigned(a->c), w);
    if (a->op == O::ITE) return Ite(a->k[0], Extract(a->k[1], lo, w), Extract(a->k[2], lo, w));
    if (a->op == O::ZEXT)
    {
        unsigned iw = a->k[0]->w;
        if (lo >= iw) return bv(0, w);
        if (lo + w <= iw) return Extract(a->k[0], lo, w);
        return EP.mk(O::ZEXT, S::BV, w, Extract(a->k[0], lo, iw - lo));
    }
    if (a->op == O::SEXT && lo + w <= a->k[0]->w) return Extract(a->k[0], lo, w);
    if (a->op == O::CONCAT)
    { // k0 high, k1 low
        unsigned lw = a->k[1]->w;
        if (lo >= lw) return Extract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return Extract(a->k[1], lo, w);
    }
    if (lo == 0 && (a->op == O::BAND || a->op == O::BOR || a->op == O::BXOR || a->op == O::ADD || a->op == O::SUB ||
                    a->op == O::MUL) && (isc(a->k[0]) || isc(a->k[1])))
        return EP.mk(a->op, S::BV, w, Extract(a->k[0], 0, w), Extract(a->k[1], 0, w));
    return EP.mk(O::EXTRACT, S::BV, w, a, nullptr, nullptr, lo);
}
inline Expr* Concat(Expr* hi, Expr* lo)
{
    if (isc(hi) && isc(lo)) return bv((hi->c << lo->w) | lo->c, hi->w + lo->w);
    if (isc(hi) && hi->c == 0) return EP.mk(O::ZEXT, S::BV, hi->w + lo->w, lo);
    if (hi->op == O::EXTRACT && lo->op == O::EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
        return Extract(hi->k[0], unsigned(lo->c), hi->w + lo->w);
    return EP.mk(O::CONCAT, S::BV, hi->w + lo->w, hi, lo);
}
inline Expr* Zext(Expr* a, unsigned w)
{
    if (a->s == S::BOOL) return Ite(a, bv(1, w), bv(0, w));
    if (w == a->w) return a;
    if (isc(a)) return bv(a->c, w);
    if (a->op == O::ITE && isc(a->k[1]) && isc(a->k[2])) return Ite(a->k[0], Zext(a->k[1], w), Zext(a->k[2], w));
    if (a->op == O::ZEXT) return EP.mk(O::ZEXT, S::BV, w, a->k[0]);
    return EP.mk(O::ZEXT, S::BV, w, a);
}
inline Expr* Sext(Expr* a, unsigned w)
{
    if (a->s == S::BOOL) return Ite(a, bv(~0ULL, w), bv(0, w));
    if (w == a->w) return a;
    if (isc(a)) return bv(uint64_t(sxt(a->c, a->w)), w);
    if (a->op == O::ITE && isc(a->k[1]) && isc(a->k[2])) return Ite(a->k[0], Sext(a->k[1], w), Sext(a->k[2], w));
    return EP.mk(O::SEXT, S::BV, w, a);
}
inline Expr* toBool(Expr* a)
{ // trunc to i1
    if (a->s == S::BOOL) return a;
    return Eq(Extract(a, 0, 1), bv(1, 1));
}
inline uint64_t foldbv(O op, uint64_t a, uint64_t b, unsigned w)
{
    switch (op)
    {
    case O::ADD: return a + b;
    case O::SUB: return a - b;
    case O::MUL: return a * b;
    case O::BAND: return a & b;
    case O::BOR: return a | b;
    case O::BXOR: return a ^ b;
    case O::SHL: return b >= w ? 0 : a << b;
    case O::LSHR: return b >= w ? 0 : a >> b;
    case O::ASHR: return uint64_t(sxt(a, w) >> (b >= w ? w - 1 : b));
    case O::UDIV: return b ? a / b : 0;
    case O::UREM: return b ? a % b : a;
    case O::SDIV: return b ? (sxt(b, w) == -1 ? 0 - a : uint64_t(sxt(a, w) / sxt(b, w))) : 0;
    case O::SREM: return b ? (sxt(b, w) == -1 ? 0 : uint64_t(sxt(a, w) % sxt(b, w))) : a;
    default: abort();
    }
}
inline Expr* Bin(O op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (a->s == S::BOOL)
    {
        switch (op)
        {
        case O::BAND: case O::MUL: return And(a, b);
        case O::BOR: return Or(a, b);
        case O::BXOR: case O::ADD: case O::SUB: return Not(Eq(a, b));
        default: abort();
        }
    }
    if (isc(a) && isc(b)) return bv(foldbv(op, a->c, b->c, w), w);
    if ((op == O::ADD || op == O::MUL || op == O::BAND || op == O::BOR || op == O::BXOR) && isc(a)) std::swap(a, b);
    if (isc(b))
    {
        uint64_t ones = maskw(~0ULL, w);
        if (b->c == 0 && (op == O::ADD || op == O::SUB || op == O::BOR || op == O::BXOR || op == O::SHL ||
                          op == O::LSHR || op == O::ASHR))
            return a;
        if (b->c == 0 && (op == O::MUL || op == O::BAND)) return b;
        if (b->c == 1 && (op == O::MUL || op == O::UDIV || op == O::SDIV)) return a;
        if (op == O::BAND && b->c == ones) return a;
        if (a->op == O::ITE && isc(a->k[1]) && isc(a->k[2]))
            return Ite(a->k[0], Bin(op, a->k[1], b), Bin(op, a->k[2], b));
        if (op == O::ADD && a->op == O::ADD && isc(a->k[1])) return Bin(O::ADD, a->k[0], bv(a->k[1]->c + b->c, w));
        if (op == O::SUB) return Bin(O::ADD, a, bv(0 - b->c, w));
        if (op == O::BAND && a->op == O::ZEXT && (b->c & maskw(~0ULL, a->k[0]->w)) == maskw(~0ULL, a->k[0]->w)) return a;
    }
    if (op == O::SUB && a == b) return bv(0, w);
    if (op == O::BXOR && a == b) return bv(0, w);
    if ((op == O::BAND || op == O::BOR) && a == b) return a;
    if (!isc(b) && (op == O::ADD || op == O::MUL || op == O::BAND || op == O::BOR || op == O::BXOR) && a->id > b->id)
        std::swap(a, b);
    return EP.mk(op, S::BV, w, a, b);
}
inline Expr* Cmp(O op, Expr* a, Expr* b)
{
    if (a->s == S::BOOL)
    { // unsigned/signed compares on i1
        a = Zext(a, 8); b = Zext(b, 8);
        if (op == O::SLT || op == O::SLE) { a = Bin(O::SUB, bv(0, 8), a); b = Bin(O::SUB, bv(0, 8), b); }
    }
    unsigned w = a->w;
    if (a == b) return B(op == O::ULE || op == O::SLE);
    if (isc(a) && isc(b))
        switch (op)
        {
        case O::ULT: return B(a->c < b->c);
        case O::ULE: return B(a->c <= b->c);
        case O::SLT: return B(sxt(a->c, w) < sxt(b->c, w));
        case O::SLE: return B(sxt(a->c, w) <= sxt(b->c, w));
        default: abort();
        }
    if (isc(b) && a->op == O::ITE && isc(a->k[1]) && isc(a->k[2]))
        return Ite(a->k[0], Cmp(op, a->k[1], b), Cmp(op, a->k[2], b));
    if (isc(a) && b->op == O::ITE && isc(b->k[1]) && isc(b->k[2]))
        return Ite(b->k[0], Cmp(op, a, b->k[1]), Cmp(op, a, b->k[2]));
    return EP.mk(op, S::BOOL, 1, a, b);
}
// reals
inline bool isr(Expr* e, double d) { return e->op == O::CONST && b2d(e->c) == d; }
inline Expr* RNeg(Expr* a)
{
    if (isc(a)) return rc(-b2d(a->c));
    if (a->op == O::RNEG) return a->k[0];
    return EP.mk(O::RNEG, S::REAL, 0, a);
}
inline Expr* RBin(O op, Expr* a, Expr* b)
{
    if (isc(a) && isc(b))
    {
        double x = b2d(a->c), y = b2d(b->c);
        switch (op)
        {
        case O::RADD: return rc(x + y);
        case O::RSUB: return rc(x - y);
        case O::RMUL: return rc(x * y);
        case O::RDIV: if (y != 0) return rc(x / y); break;
        default: break;
        }
    }
    switch (op)
    {
    case O::RADD:
        if (isr(a, 0)) return b;
        if (isr(b, 0)) return a;
        if (b->op == O::RNEG) return RBin(O::RSUB, a, b->k[0]);
        if (a->id > b->id) std::swap(a, b);
        break;
    case O::RSUB:
        if (isr(b, 0)) return a;
        if (isr(a, 0)) return RNeg(b);
        if (a == b) return rc(0);
        break;
    case O::RMUL:
        if (isr(a, 0) || isr(b, 0)) return rc(0);
        if (isr(a, 1)) return b;
        if (isr(b, 1)) return a;
        if (isr(a, -1)) return RNeg(b);
        if (isr(b, -1)) return RNeg(a);
        if (a->id > b->id) std::swap(a, b);
        break;
    case O::RDIV:
        if (isr(b, 1)) return a;
        if (isr(a, 0)) return a;
        if (a == b) return rc(1);
        break;
    default: break;
    }
    return EP.mk(op, S::REAL, 0, a, b);
}
inline Expr* RCmp(O op, Expr* a, Expr* b)
{
    if (a == b) return B(op == O::RLE);
    if (isc(a) && isc(b)) return B(op == O::RLT ? b2d(a->c) < b2d(b->c) : b2d(a->c) <= b2d(b->c));
    return EP.mk(op, S::BOOL, 1, a, b);
}
// fp
inline Expr* FFromBV(Expr* b)
{
    if (isc(b)) return fc(b->c);
    if (b->op == O::FTOBV) return b->k[0];
    return EP.mk(O::FFROMBV, S::FP, 0, b);
}
inline Expr* FToBV(Expr* f)
{
    if (isc(f)) return bv(f->c, 64);
    if (f->op == O::FFROMBV) return f->k[0];
    if (f->op == O::ITE) return Ite(f->k[0], FToBV(f->k[1]), FToBV(f->k[2]));
    return EP.mk(O::FTOBV, S::BV, 64, f);
}
inline Expr* FBin(O op, Expr* a, Expr* b)
{
    if (isc(a) && isc(b))
    {
        double x = b2d(a->c), y = b2d(b->c), r = 0;
        switch (op)
        {
        case O::FADD: r = x + y; break;
        case O::FSUB: r = x - y; break;
        case O::FMUL: r = x * y; break;
        case O::FDIV: r = x / y; break;
        case O::FMIN: r = fmin(x, y); break;
        case O::FMAX: r = fmax(x, y); break;
        default: abort();
        }
        return fc(d2b(r));
    }
    if ((op == O::FADD || op == O::FMUL) && a->id > b->id) std::swap(a, b);
    if ((op == O::FMUL || op == O::FDIV) && isc(b) && b2d(b->c) == 1.0) return a;
    if (op == O::FMUL && isc(a) && b2d(a->c) == 1.0) return b;
    if (op == O::FDIV && isc(b) && b2d(b->c) == -1.0) return EP.mk(O::FNEG, S::FP, 0, a);
    return EP.mk(op, S::FP, 0, a, b);
}
inline Expr* FCmp(O op, Expr* a, Expr* b)
{
    if (isc(a) && isc(b))
    {
        double x = b2d(a->c), y = b2d(b->c);
        switch (op)
        {
        case O::FLT: return B(x < y);
        case O::FLE: return B(x <= y);
        case O::FEQ: return B(x == y);
        case O::FUNO: return B(x != x || y != y);
        default: abort();
        }
    }
    if (op == O::FEQ && a->id > b->id) std::swap(a, b);
    return EP.mk(op, S::BOOL, 1, a, b);
}
// "the same value": bit-identical, or both NaN
inline Expr* FSame(Expr* a, Expr* b)
{
    if (a == b) return B(true);
    Expr* both = And(FCmp(O::FUNO, a, a), FCmp(O::FUNO, b, b));
    return Or(Eq(FToBV(a), FToBV(b)), both);
}
} // namespace X

// ---- Z3 -----------------------------------------------------------------------------------------
struct Z {
    z3::context ctx;
    std::vector<z3::expr*> cache;
    std::vector<z3::func_decl*> ufd;
    z3::sort fps;
    Z() : fps(ctx.fpa_sort(11, 53)) { ctx.set_rounding_mode(z3::RNE); }

    // a double constant as an exact rational; doubles that are the nearest ones to a fraction with a small
    // denominator are read as that fraction (the code's 1./3 means one third)
    z3::expr real(double d)
    {
        if (d == 0) return ctx.real_val(0);
        double a = std::fabs(d);
        if (a < 1e15 && a > 1e-12)
        {
            // continued fraction
            double x = a; long double p0 = 0, q0 = 1, p1 = 1, q1 = 0;
            for (int i = 0; i < 40; i++)
            {
                long double n = std::floor(x);
                long double p2 = n * p1 + p0, q2 = n * q1 + q0;
                if (q2 > 200000.0L || p2 > 9e17L) break;
                p0 = p1; q0 = q1; p1 = p2; q1 = q2;
                if (double(p1 / q1) == a)
                {
                    std::string s = (d < 0 ? "-" : "") + std::to_string((long long)p1) + "/" + std::to_string((long long)q1);
                    return ctx.real_val(s.c_str());
                }
                double fr = x - double(n);
                if (fr < 1e-16) break;
                x = 1 / fr;
            }
        }
        int e; double m = std::frexp(d, &e); // d = m*2^e
        long long mi = (long long)std::ldexp(m, 53); e -= 53;
        z3::expr r = ctx.real_val(std::to_string(mi).c_str());
        std::string p2 = "1"; // 2^|e|
        z3::expr two = ctx.real_val(2);
        int n = e < 0 ? -e : e;
        // build 2^n as decimal string
        std::vector<int> dig{1};
        for (int i = 0; i < n; i++)
        {
            int c = 0;
            for (auto& x : dig) { x = x * 2 + c; c = x / 10; x %= 10; }
            if (c) dig.push_back(c);
        }
        std::string s;
        for (auto it = dig.rbegin(); it != dig.rend(); ++it) s += char('0' + *it);
        z3::expr pw = ctx.real_val(s.c_str());
        return (e < 0 ? r / pw : r * pw).simplify();
    }

    z3::expr get(Expr* e)
    {
        if (cache.size() < EP.all.size()) cache.resize(EP.all.size() + 1024, nullptr);
        if (cache[e->id]) return *cache[e->id];
        // iterative post-order
        std::vector<Expr*> st{e};
        while (!st.empty())
        {
            Expr* x = st.back();
            if (cache[x->id]) { st.pop_back(); continue; }
            bool ready = true;
            for (auto* k : x->k)
                if (k && !cache[k->id]) { st.push_back(k); ready = false; }
            if (!ready) continue;
            st.pop_back();
            cache[x->id] = new z3::expr(conv(x));
        }
        return *cache[e->id];
    }
    z3::expr g(Expr* e) { return *cache[e->id]; }
    z3::expr conv(Expr* e)
    {
        auto K = [&](int i) { return g(e->k[i]); };
        switch (e->op)
        {
        case O::CONST:
            switch (e->s)
            {
            case S::BOOL: return ctx.bool_val(e->c != 0);
            case S::BV: return ctx.bv_val(uint64_t(e->c), e->w);
            case S::REAL: return real(b2d(e->c));
            case S::FP: return z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, ctx.bv_val(uint64_t(e->c), 64), fps)).simplify();
            }
            abort();
        case O::VAR:
        {
            const char* n = EP.varnames[e->c].c_str();
            switch (e->s)
            {
            case S::BOOL: return ctx.bool_const(n);
            case S::BV: return ctx.bv_const(n, e->w);
            case S::REAL: return ctx.real_const(n);
            case S::FP: return ctx.constant(n, fps);
            }
            abort();
        }
        case O::NOT: return !K(0);
        case O::AND: return K(0) && K(1);
        case O::OR: return K(0) || K(1);
        case O::BXORB: return K(0) != K(1);
        case O::EQ: return K(0) == K(1);
        case O::ITE: return z3::ite(K(0), K(1), K(2));
        case O::ADD: return K(0) + K(1);
        case O::SUB: return K(0) - K(1);
        case O::MUL: return K(0) * K(1);
        case O::UDIV: return z3::udiv(K(0), K(1));
        case O::SDIV: return K(0) / K(1);
        case O::UREM: return z3::urem(K(0), K(1));
        case O::SREM: return z3::srem(K(0), K(1));
        case O::SHL: return z3::shl(K(0), K(1));
        case O::LSHR: return z3::lshr(K(0), K(1));
        case O::ASHR: return z3::ashr(K(0), K(1));
        case O::BAND: return K(0) & K(1);
        case O::BOR: return K(0) | K(1);
        case O::BXOR: return K(0) ^ K(1);
        case O::ULT: return z3::ult(K(0), K(1));
        case O::ULE: return z3::ule(K(0), K(1));
        case O::SLT: return K(0) < K(1);
        case O::SLE: return K(0) <= K(1);
        case O::CONCAT: return z3::concat(K(0), K(1));
        case O::EXTRACT: return K(0).extract(unsigned(e->c) + e->w - 1, unsigned(e->c));
        case O::ZEXT: return z3::zext(K(0), e->w - e->k[0]->w);
        case O::SEXT: return z3::sext(K(0), e->w - e->k[0]->w);
        case O::RADD: return K(0) + K(1);
        case O::RSUB: return K(0) - K(1);
        case O::RMUL: return K(0) * K(1);
        case O::RDIV: return K(0) / K(1);
        case O::RNEG: return -K(0);
        case O::RLT: return K(0) < K(1);
        case O::RLE: return K(0) <= K(1);
        case O::S2R: return z3::to_real(z3::bv2int(K(0), true));
        case O::U2R: return z3::to_real(z3::bv2int(K(0), false));
        case O::UF:
        {
            if (ufd.size() < EP.ufs.size()) ufd.resize(EP.ufs.size(), nullptr);
            int n = e->k[2] ? 3 : e->k[1] ? 2 : 1;
            if (!ufd[e->c])
            {
                z3::sort_vector sv(ctx);
                for (int i = 0; i < n; i++) sv.push_back(g_theory == TH_REAL ? ctx.real_sort() : fps);
                ufd[e->c] = new z3::func_decl(
                    ctx.function(EP.ufs[e->c].c_str(), sv, g_theory == TH_REAL ? ctx.real_sort() : fps));
            }
            z3::expr_vector a(ctx);
            for (int i = 0; i < n; i++) a.push_back(K(i));
            return (*ufd[e->c])(a);
        }
        case O::FADD: return K(0) + K(1);
        case O::FSUB: return K(0) - K(1);
        case O::FMUL: return K(0) * K(1);
        case O::FDIV: return K(0) / K(1);
        case O::FNEG: return -K(0);
        case O::FABS: return z3::abs(K(0));
        case O::FSQRT: return z3::sqrt(K(0), ctx.fpa_rounding_mode());
        case O::FMIN: return z3::expr(ctx, Z3_mk_fpa_min(ctx, K(0), K(1)));
        case O::FMAX: return z3::expr(ctx, Z3_mk_fpa_max(ctx, K(0), K(1)));
        case O::FLT: return z3::expr(ctx, Z3_mk_fpa_lt(ctx, K(0), K(1)));
        case O::FLE: return z3::expr(ctx, Z3_mk_fpa_leq(ctx, K(0), K(1)));
        case O::FEQ: return z3::expr(ctx, Z3_mk_fpa_eq(ctx, K(0), K(1)));
        case O::FUNO:
            return z3::expr(ctx, Z3_mk_fpa_is_nan(ctx, K(0))) || z3::expr(ctx, Z3_mk_fpa_is_nan(ctx, K(1)));
        case O::FFROMBV: return z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, K(0), fps));
        case O::FTOBV: return z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, K(0)));
        case O::FS2F:
            return z3::expr(ctx, Z3_mk_fpa_to_fp_signed(ctx, ctx.fpa_rounding_mode(), K(0), fps));
        case O::FU2F:
            return z3::expr(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, ctx.fpa_rounding_mode(), K(0), fps));
        }
        abort();
    }
};
extern Z* z;

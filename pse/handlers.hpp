// External functions with a symbolic meaning: the harness API, memory, exceptions, formatting, math.
#pragma once
static std::string cstr(u64 a)
{
    std::string s;
    for (;; a++)
    {
        checkAccess(a, 1, false);
        if (anySym(a, 1))
        {
            u64 st;
            if (cover(a, st)) unsupported("symbolic character in a C string");
        }
        char c = *(char*)a;
        if (!c) break;
        s += c;
    }
    return s;
}
static std::string uniq(const std::string& n)
{
    int k = name_cnt[n]++;
    return n + "#" + std::to_string(k);
}
static void throwPtr(CallCtx& c, std::exception_ptr p)
{
    try { std::rethrow_exception(p); }
    catch (...)
    {
        auto* ti = abi::__cxa_current_exception_type();
        u64 obj;
        memcpy(&obj, &p, 8);
        auto* e   = new Exc{obj, ti, 0, p, 0, false, obj};
        u64 id    = heapAlloc(16);
        excs[id]  = e;
        g_cur_exc = id;
        c.threw   = true;
    }
}
static Val symDouble(const std::string& name)
{
    std::string n = uniq(name);
    Val v;
    sh->nsymvars++;
    if (g_theory == TH_REAL) v.e = EP.var(n, S::REAL, 0);
    else v.e = X::FFromBV(EP.var(n, S::BV, 64));
    inputs.push_back({'d', n, v.e, 0, 64});
    return v;
}
static Val symInt(const std::string& name, unsigned w)
{
    std::string n = uniq(name);
    sh->nsymvars++;
    Val v;
    v.e = w == 1 ? EP.var(n, S::BOOL, 1) : EP.var(n, S::BV, uint8_t(w));
    inputs.push_back({w == 1 ? 'b' : 'i', n, v.e, 0, w});
    return v;
}
static void assume(Expr* e)
{
    if (X::isT(e)) return;
    if (X::isF(e)) throw PathEnd{1};
    if (pcset.count(e)) return;
    if (evalCur(e) != 1)
    {
        Assign a;
        bool have;
        if (feasible(e, &a, &have) == UNSAT) throw PathEnd{1};
        if (have)
            for (auto& kv : a) cur.insert_or_assign(kv.first, kv.second);
        else cur_ok = false;
    }
    addpc(e);
}
static void doAssert(const Val& v, const std::string& msg)
{
    sh->asserts++;
    if (!v.e)
    {
        sh->a_concrete++;
        if (!(v.c & 1)) violation("assert", msg);
        return;
    }
    Expr* c = v.e->s == S::BOOL ? v.e : X::Not(X::Eq(v.e, X::bv(0, v.e->w)));
    if (X::isc(c))
    {
        sh->a_simpl++;
        if (!c->c) violation("assert", msg);
        return;
    }
    if (pcset.count(c)) { sh->a_simpl++; return; }
    Expr* nc = X::Not(c);
    Query q;
    std::vector<Expr*> sl;
    sliceFor(nc->vars, sl);
    for (auto* e : sl) q.add(e);
    q.add(nc);
    R r = runq(q, nullptr);
    if (r == UNSAT)
    {
        sh->a_solver++;
        dumpQuery(q);
        return;
    }
    if (r == UNKNOWN)
    {
        sh->a_unknown++;
        emit("K {\"msg\":\"" + jesc(msg) + "\"}");
        // nothing is claimed; the path goes on as if it held
        if (evalCur(c) != 1) cur_ok = false;
        addpc(c);
        return;
    }
    report("assert", msg, nc);
    assume(c);
}
static Expr* asBool(const Val& v)
{
    if (!v.e) return X::B(v.c & 1);
    if (v.e->s == S::BOOL) return v.e;
    return X::Not(X::Eq(v.e, X::bv(0, v.e->w)));
}
static Val closeV(const Val& a, const Val& b, const Val& tol)
{
    Val r;
    if (!a.e && !b.e && !tol.e)
    {
        double x = b2d(a.c), y = b2d(b.c), t = b2d(tol.c);
        r.c = x == y || std::fabs(x - y) <= t * (1 + std::fabs(x) + std::fabs(y)) * 0 + t;
        return r;
    }
    Val d  = fbin(I_FSUB, a, b);
    Val nt = tol;
    if (nt.e) unsupported("symbolic tolerance");
    nt.c = d2b(-b2d(tol.c));
    Val lo = fcmp(CmpInst::FCMP_OLE, nt, d), hi = fcmp(CmpInst::FCMP_OLE, d, tol);
    return boolVal(X::And(asBool(lo), asBool(hi)));
}
static Val sameV(const Val& a, const Val& b)
{
    Val r;
    if (!a.e && !b.e)
    {
        r.c = a.c == b.c || (b2d(a.c) != b2d(a.c) && b2d(b.c) != b2d(b.c));
        return r;
    }
    Expr *x = lift(a, K_DBL, 64), *y = lift(b, K_DBL, 64);
    if (g_theory == TH_REAL)
    {
        for (Expr* e : {x, y})
            if (X::isc(e) && !std::isfinite(b2d(e->c))) return r;
        if (x->s != S::REAL || y->s != S::REAL) unsupported("pse_same on integers");
        return boolVal(X::Eq(x, y));
    }
    return boolVal(X::FSame(x, y));
}
static void setHeap(CallCtx& c, u64 n, u64 al, bool nothrow, bool isnew)
{
    u64 a = heapAlloc(n, std::max<u64>(al, 16));
    if (!a && isnew && !nothrow)
    {
        throwPtr(c, std::make_exception_ptr(std::bad_alloc()));
        return;
    }
    c.ret.c = a;
}
static Val memcmpV(u64 a, u64 b, u64 n)
{
    Val r;
    if (!n) return r;
    checkAccess(a, n, false);
    checkAccess(b, n, false);
    if (!anySym(a, n) && !anySym(b, n))
    {
        r.c = maskw(u64(int64_t(memcmp((void*)a, (void*)b, n))), 32);
        return r;
    }
    Expr* acc = X::bv(0, 32);
    for (u64 i = n; i-- > 0;)
    {
        Expr *x = getSymInt(a + i, 1), *y = getSymInt(b + i, 1);
        Expr* lt = X::Ite(X::Cmp(O::ULT, x, y), X::bv(0xffffffff, 32), X::bv(1, 32));
        acc      = X::Ite(X::Eq(x, y), acc, lt);
    }
    return exprVal(acc);
}
// where an unknown character stands in known memory, as one value: a null pointer if nowhere
static Expr* positionOf(Expr* ch, u64 a, u64 n)
{
    Expr* x = X::Extract(ch, 0, 8);
    Expr* r = X::bv(0, 64);
    for (u64 i = n; i-- > 0;) r = X::Ite(X::Eq(x, X::bv(*(u8*)(a + i), 8)), X::bv(a + i, 64), r);
    return r;
}
static void initHandlers()
{
    auto H = [&](const char* n, Handler h) { handlers[n] = h; };
    // ---- harness API
    H("pse_symbolic", [](CallCtx& c) { c.ret.c = 1; });
    H("pse_double", [](CallCtx& c) { c.ret = symDouble(cstr(c.a[0].c)); });
    H("pse_double_in", [](CallCtx& c)
      {
          c.ret = symDouble(cstr(c.a[0].c));
          assume(asBool(fcmp(CmpInst::FCMP_OLE, c.a[1], c.ret)));
          assume(asBool(fcmp(CmpInst::FCMP_OLE, c.ret, c.a[2])));
      });
    H("pse_int", [](CallCtx& c) { c.ret = symInt(cstr(c.a[0].c), 32); });
    H("pse_int_in", [](CallCtx& c)
      {
          c.ret = symInt(cstr(c.a[0].c), 32);
          assume(asBool(icmp(CmpInst::ICMP_SLE, c.a[1], c.ret, 32)));
          assume(asBool(icmp(CmpInst::ICMP_SLE, c.ret, c.a[2], 32)));
      });
    H("pse_char", [](CallCtx& c) { c.ret = symInt(cstr(c.a[0].c), 8); });
    H("pse_bool", [](CallCtx& c) { c.ret = symInt(cstr(c.a[0].c), 1); });
    H("pse_choice", [](CallCtx& c)
      {
          std::string n = uniq(cstr(c.a[0].c));
          u64 k         = concretize(c.a[1], "pse_choice");
          sh->choices++;
          u64 pick = k - 1;
          for (u64 i = 0; i + 1 < k; i++)
              if (forkChild()) { pick = i; break; }
          inputs.push_back({'c', n, nullptr, pick, 32});
          c.ret.c = pick;
      });
    H("pse_assume", [](CallCtx& c) { assume(asBool(c.a[0])); });
    H("pse_assert", [](CallCtx& c)
      {
          Val v = c.a[0];
          doAssert(v, cstr(c.a[1].c));
      });
    H("pse_reach", [](CallCtx& c) { reached.insert(cstr(c.a[0].c)); });
    H("pse_close", [](CallCtx& c) { c.ret = closeV(c.a[0], c.a[1], c.a[2]); });
    H("pse_same", [](CallCtx& c) { c.ret = sameV(c.a[0], c.a[1]); });
    H("pse_and", [](CallCtx& c) { c.ret = boolVal(X::And(asBool(c.a[0]), asBool(c.a[1]))); });
    H("pse_or", [](CallCtx& c) { c.ret = boolVal(X::Or(asBool(c.a[0]), asBool(c.a[1]))); });
    H("pse_not", [](CallCtx& c) { c.ret = boolVal(X::Not(asBool(c.a[0]))); });
    H("pse_ite", [](CallCtx& c) { c.ret = selectV(boolVal(asBool(c.a[0])), c.a[1], c.a[2], K_DBL, 64); });
    H("pse_fork", [](CallCtx& c) { c.ret.c = c.a[0].e ? decide(asBool(c.a[0])) : (c.a[0].c & 1); });
    H("pse_is_symbolic_d", [](CallCtx& c) { c.ret.c = c.a[0].e && !X::isc(c.a[0].e); });
    H("pse_is_symbolic_i", [](CallCtx& c) { c.ret.c = c.a[0].e && !X::isc(c.a[0].e); });
    H("pse_stop", [](CallCtx&) { throw PathEnd{0}; });
    H("pse_tmpfile", [](CallCtx& c)
      {
          static int k  = 0;
          std::string s = (g_tmpdir.empty() ? std::string("/tmp") : g_tmpdir) + "/pse-" + std::to_string(getpid()) + "-" + std::to_string(k++);
          u64 n = concretize(c.a[1], "size");
          if (s.size() + 1 > n) unsupported("tmpfile name too long");
          checkAccess(c.a[0].c, n, true);
          eraseSym(c.a[0].c, s.size() + 1);
          memcpy((void*)c.a[0].c, s.c_str(), s.size() + 1);
      });
    H("pse_token", [](CallCtx& c)
      {
          std::string t = "<#" + std::to_string(c.a[1].e->id) + ">";
          checkAccess(c.a[0].c, t.size() + 1, true);
          eraseSym(c.a[0].c, t.size() + 1);
          memcpy((void*)c.a[0].c, t.c_str(), t.size() + 1);
      });
    H("pse_parse_double", [](CallCtx& c)
      {
          std::string s = cstr(c.a[0].c);
          if (s.rfind("<#", 0) == 0)
          {
              Expr* e = EP.all.at(strtoul(s.c_str() + 2, nullptr, 10));
              if (e->s == S::BV || e->s == S::BOOL) unsupported("integer token parsed as a double");
              c.ret.e = e;
          }
          else c.ret.c = d2b(strtod(s.c_str(), nullptr));
      });
    H("pse_log", [](CallCtx& c)
      {
          if (verbose) fprintf(stderr, "[%d] %s\n", getpid(), cstr(c.a[0].c).c_str());
      });
    H("pse_log_d", [](CallCtx& c)
      {
          if (!verbose) return;
          if (c.a[1].e) fprintf(stderr, "[%d] %s = %s\n", getpid(), cstr(c.a[0].c).c_str(), z->get(c.a[1].e).to_string().c_str());
          else fprintf(stderr, "[%d] %s = %.17g\n", getpid(), cstr(c.a[0].c).c_str(), b2d(c.a[1].c));
      });
    // ---- memory
    H("_Znwm", [](CallCtx& c) { setHeap(c, concretize(c.a[0], "new"), 16, false, true); });
    H("_Znam", [](CallCtx& c) { setHeap(c, concretize(c.a[0], "new"), 16, false, true); });
    H("_ZnwmRKSt9nothrow_t", [](CallCtx& c) { setHeap(c, concretize(c.a[0], "new"), 16, true, true); });
    H("_ZnamRKSt9nothrow_t", [](CallCtx& c) { setHeap(c, concretize(c.a[0], "new"), 16, true, true); });
    H("_ZnwmSt11align_val_t", [](CallCtx& c) { setHeap(c, concretize(c.a[0], "new"), c.a[1].c, false, true); });
    H("_ZnamSt11align_val_t", [](CallCtx& c) { setHeap(c, concretize(c.a[0], "new"), c.a[1].c, false, true); });
    H("malloc", [](CallCtx& c) { setHeap(c, concretize(c.a[0], "malloc"), 16, true, false); });
    H("calloc", [](CallCtx& c)
      {
          u64 n = concretize(c.a[0], "calloc") * concretize(c.a[1], "calloc");
          setHeap(c, n, 16, true, false);
          if (c.ret.c) memset((void*)c.ret.c, 0, n);
      });
    H("aligned_alloc", [](CallCtx& c) { setHeap(c, concretize(c.a[1], "malloc"), c.a[0].c, true, false); });
    H("posix_memalign", [](CallCtx& c)
      {
          u64 a = heapAlloc(concretize(c.a[2], "malloc"), std::max<u64>(16, c.a[1].c));
          memcpy((void*)c.a[0].c, &a, 8);
      });
    H("realloc", [](CallCtx& c)
      {
          u64 o = concretize(c.a[0], "realloc"), n = concretize(c.a[1], "realloc");
          u64 a = heapAlloc(n);
          if (o)
          {
              if (!g_allocs.count(o)) violation("memory", "realloc of an invalid pointer");
              copyMem(a, o, std::min(n, g_allocs[o]));
              heapFree(o);
          }
          c.ret.c = a;
      });
    Handler fr = [](CallCtx& c) { heapFree(concretize(c.a[0], "free")); };
    for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t",
                          "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"})
        H(n, fr);
    Handler mc = [](CallCtx& c)
    {
        copyMem(concretize(c.a[0], "memcpy"), concretize(c.a[1], "memcpy"), concretize(c.a[2], "memcpy"));
        c.ret = c.a[0];
    };
    H("memcpy", mc);
    H("memmove", mc);
    H("memset", [](CallCtx& c)
      {
          u64 p = concretize(c.a[0], "memset"), n = concretize(c.a[2], "memset");
          if (n)
          {
              checkAccess(p, n, true);
              eraseSym(p, n);
              if (c.a[1].e)
                  for (u64 i = 0; i < n; i++) putSym(p + i, X::Extract(c.a[1].e, 0, 8), 1);
              else memset((void*)p, int(c.a[1].c), n);
          }
          c.ret = c.a[0];
      });
    Handler cm = [](CallCtx& c) { c.ret = memcmpV(concretize(c.a[0], "memcmp"), concretize(c.a[1], "memcmp"), concretize(c.a[2], "memcmp")); };
    H("memcmp", cm);
    H("bcmp", cm);
    H("strlen", [](CallCtx& c)
      {
          u64 a = concretize(c.a[0], "strlen"), n = 0;
          for (;; n++)
          {
              checkAccess(a + n, 1, false);
              if (anySym(a + n, 1))
              {
                  u64 st;
                  if (cover(a + n, st))
                  {
                      if (decide(X::Eq(getSymInt(a + n, 1), X::bv(0, 8)))) break;
                      continue;
                  }
              }
              if (!*(char*)(a + n)) break;
          }
          c.ret.c = n;
      });
    H("memchr", [](CallCtx& c)
      {
          u64 a = concretize(c.a[0], "memchr"), n = concretize(c.a[2], "memchr");
          if (c.a[1].e && !X::isc(c.a[1].e) && n && !anySym(a, n))
          {
              checkAccess(a, n, false);
              c.ret = exprVal(positionOf(c.a[1].e, a, n));
              return;
          }
          u64 ch = concretize(c.a[1], "memchr") & 255;
          for (u64 i = 0; i < n; i++)
          {
              checkAccess(a + i, 1, false);
              bool eq;
              u64 st;
              if (anySym(a + i, 1) && cover(a + i, st)) eq = decide(X::Eq(getSymInt(a + i, 1), X::bv(ch, 8)));
              else eq = *(u8*)(a + i) == ch;
              if (eq) { c.ret.c = a + i; return; }
          }
      });
    // ---- characters and C strings
    {
        using R = std::vector<std::pair<int, int>>;
        auto ct = [&](const char* name, R rs)
        {
            H(name, [rs](CallCtx& c)
              {
                  Expr* r = X::bv(0, 32);
                  if (!c.a[0].e)
                  {
                      for (auto& p : rs)
                          if (int(c.a[0].c) >= p.first && int(c.a[0].c) <= p.second) c.ret.c = 1;
                      return;
                  }
                  Expr* x = lift(c.a[0], K_INT, 32);
                  for (auto& p : rs)
                      r = X::Ite(X::And(X::Cmp(O::SLE, X::bv(u64(p.first), 32), x), X::Cmp(O::SLE, x, X::bv(u64(p.second), 32))), X::bv(1, 32), r);
                  c.ret = exprVal(r);
              });
        };
        ct("isalnum", R{{'0', '9'}, {'A', 'Z'}, {'a', 'z'}});
        ct("isalpha", R{{'A', 'Z'}, {'a', 'z'}});
        ct("isdigit", R{{'0', '9'}});
        ct("isxdigit", R{{'0', '9'}, {'A', 'F'}, {'a', 'f'}});
        ct("isupper", R{{'A', 'Z'}});
        ct("islower", R{{'a', 'z'}});
        ct("isspace", R{{9, 13}, {32, 32}});
        ct("isblank", R{{9, 9}, {32, 32}});
        ct("iscntrl", R{{0, 31}, {127, 127}});
        ct("isprint", R{{32, 126}});
        ct("isgraph", R{{33, 126}});
        ct("ispunct", R{{33, 47}, {58, 64}, {91, 96}, {123, 126}});
        auto cv = [&](const char* name, int lo, int hi, int by)
        {
            H(name, [=](CallCtx& c)
              {
                  Expr* x = lift(c.a[0], K_INT, 32);
                  Expr* in = X::And(X::Cmp(O::SLE, X::bv(u64(lo), 32), x), X::Cmp(O::SLE, x, X::bv(u64(hi), 32)));
                  if (!c.a[0].e) { int v = int(c.a[0].c); c.ret.c = u64(uint32_t(v >= lo && v <= hi ? v + by : v)); return; }
                  c.ret = exprVal(X::Ite(in, X::Bin(O::ADD, x, X::bv(u64(uint32_t(by)), 32)), x));
              });
        };
        cv("tolower", 'A', 'Z', 32);
        cv("toupper", 'a', 'z', -32);
    }
    {
        auto at = [](u64 p) -> Expr*
        {
            checkAccess(p, 1, false);
            u64 st;
            if (anySym(p, 1) && cover(p, st)) return getSymInt(p, 1);
            return X::bv(*(u8*)p, 8);
        };
        auto is = [](Expr* e, u64 v) { return X::isc(e) ? e->c == v : decide(X::Eq(e, X::bv(v, 8))); };
        auto cmp = [=](u64 a, u64 b, u64 n) -> u64
        {
            for (u64 i = 0; i < n; i++)
            {
                Expr *x = at(a + i), *y = at(b + i);
                bool same = X::isc(x) && X::isc(y) ? x->c == y->c : decide(X::Eq(x, y));
                if (!same)
                {
                    bool less = X::isc(x) && X::isc(y) ? x->c < y->c : decide(X::Cmp(O::ULT, x, y));
                    return less ? u64(uint32_t(-1)) : 1;
                }
                if (is(x, 0)) return 0;
            }
            return 0;
        };
        H("strcmp", [=](CallCtx& c) { c.ret.c = cmp(c.a[0].c, c.a[1].c, ~0ULL); });
        H("strncmp", [=](CallCtx& c) { c.ret.c = cmp(c.a[0].c, c.a[1].c, concretize(c.a[2], "strncmp")); });
        auto chr = [=](CallCtx& c, bool last)
        {
            c.ret.c = 0;
            if (c.a[1].e && !X::isc(c.a[1].e) && !last)
            {
                u64 n = 0;
                while (X::isc(at(c.a[0].c + n)) && at(c.a[0].c + n)->c) n++;
                if (X::isc(at(c.a[0].c + n)))
                {
                    c.ret = exprVal(positionOf(c.a[1].e, c.a[0].c, n + 1));
                    return;
                }
            }
            u64 ch = concretize(c.a[1], "strchr") & 255;
            for (u64 p = c.a[0].c;; p++)
            {
                Expr* x = at(p);
                if (is(x, ch)) { c.ret.c = p; if (!last) return; }
                if (is(x, 0)) return;
            }
        };
        H("strchr", [=](CallCtx& c) { chr(c, false); });
        H("strrchr", [=](CallCtx& c) { chr(c, true); });
        auto span = [=](CallCtx& c, int how)
        {
            std::string set = cstr(c.a[1].c);
            for (u64 p = c.a[0].c;; p++)
            {
                Expr* x = at(p);
                bool end = is(x, 0), in = false;
                if (!end && !set.empty())
                {
                    Expr* any = X::B(false);
                    for (char k : set) any = X::Or(any, X::Eq(x, X::bv(u8(k), 8)));
                    in = decide(any);
                }
                if (end || in != (how == 1)) { c.ret.c = how == 2 ? (end ? 0 : p) : p - c.a[0].c; return; }
            }
        };
        H("strcspn", [=](CallCtx& c) { span(c, 0); });
        H("strspn", [=](CallCtx& c) { span(c, 1); });
        H("strpbrk", [=](CallCtx& c) { span(c, 2); });
        // numbers: the characters that make up the number are enumerated
        auto num = [=](CallCtx& c, int how)
        {
            std::string s;
            bool sign = true;
            for (u64 p = c.a[0].c; s.size() < 64; p++)
            {
                Expr* x = at(p);
                if (X::isc(x)) { if (!x->c) break; s += char(x->c); if (!isspace(u8(x->c))) sign = false; continue; }
                auto in = [&](u64 lo, u64 hi) { return decide(X::And(X::Cmp(O::ULE, X::bv(lo, 8), x), X::Cmp(O::ULE, x, X::bv(hi, 8)))); };
                Val v = exprVal(x);
                if (in('0', '9')) { s += char(concretize(v, "digit")); sign = false; continue; }
                if (how == 3 && s.size() && (in('.', '.') || in('e', 'e') || in('E', 'E') || in('+', '+') || in('-', '-'))) { s += char(concretize(v, "number")); continue; }
                if (sign && (in(9, 13) || in(32, 32))) { s += ' '; continue; }
                if (sign && (in('+', '+') || in('-', '-'))) { s += char(concretize(v, "sign")); sign = false; continue; }
                if (how == 3) unsupported("symbolic text read as a number");
                int base = c.a.size() > 2 ? int(c.a[2].c) : 10;
                if (base == 10) break;
                unsupported("symbolic text read as a number");
            }
            char* end = nullptr;
            errno     = 0;
            if (how == 0) c.ret.c = u64(uint32_t(strtol(s.c_str(), &end, 10)));
            else if (how == 1) c.ret.c = u64(strtoll(s.c_str(), &end, int(c.a[2].c)));
            else if (how == 2) c.ret.c = u64(strtoull(s.c_str(), &end, int(c.a[2].c)));
            else c.ret.c = d2b(strtod(s.c_str(), &end));
            int err = errno;
            if (how && c.a[1].c) { Val v; v.c = c.a[0].c + u64(end - s.c_str()); checkAccess(c.a[1].c, 8, true); eraseSym(c.a[1].c, 8); *(u64*)c.a[1].c = v.c; }
            errno = err;
        };
        H("atoi", [=](CallCtx& c) { num(c, 0); });
        for (const char* n : {"strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll"}) H(n, [=](CallCtx& c) { num(c, 1); });
        for (const char* n : {"strtoul", "strtoull", "__isoc23_strtoul", "__isoc23_strtoull"}) H(n, [=](CallCtx& c) { num(c, 2); });
        auto strtodH = handlers.count("strtod") > 0 ? handlers["strtod"] : Handler();
        if (!strtodH) H("strtod", [=](CallCtx& c) { num(c, 3); });
    }
    // ---- exceptions
    H("__cxa_allocate_exception", [](CallCtx& c) { c.ret.c = heapAlloc(concretize(c.a[0], "exception")); });
    H("__cxa_free_exception", [](CallCtx& c) { heapFree(c.a[0].c); });
    H("__cxa_init_primary_exception", [](CallCtx& c) { c.ret = c.a[0]; });
    H("__cxa_throw", [](CallCtx& c)
      {
          g_cur_exc = newExc(c.a[0].c, (const std::type_info*)c.a[1].c, c.a[2].c);
          c.threw   = true;
      });
    H("__cxa_begin_catch", [](CallCtx& c)
      {
          Exc* e = excs.at(c.a[0].c);
          e->handlers++;
          e->rethrown = false;
          caught.push_back(c.a[0].c);
          c.ret.c = e->adjusted;
      });
    H("__cxa_get_exception_ptr", [](CallCtx& c) { c.ret.c = excs.at(c.a[0].c)->adjusted; });
    H("__cxa_end_catch", [](CallCtx& c)
      {
          (void)c;
          if (caught.empty()) return;
          u64 id = caught.back();
          caught.pop_back();
          Exc* e = excs.at(id);
          e->handlers--;
          if (e->handlers <= 0 && !e->rethrown)
          {
              excs.erase(id);
              if (!e->native)
              {
                  if (e->dtor)
                  {
                      extern void runNested(u64, u64);
                      runNested(e->dtor, e->obj);
                  }
                  heapFree(e->obj);
              }
              else heapFree(id);
              delete e;
          }
      });
    H("__cxa_rethrow", [](CallCtx& c)
      {
          if (caught.empty()) violation("terminate", "rethrow without a current exception");
          u64 id = caught.back();
          Exc* e = excs.at(id);
          e->rethrown = true;
          g_cur_exc   = id;
          c.threw     = true;
      });
    Handler uc = [](CallCtx& c)
    {
        u64 n = 0; // thrown and not yet (or again no longer) handled
        for (auto& [id, e] : excs) n += e->handlers <= 0 || e->rethrown;
        c.ret.c = n;
    };
    H("_ZSt19uncaught_exceptionsv", uc);
    H("_ZSt18uncaught_exceptionv", [](CallCtx& c) { handlers["_ZSt19uncaught_exceptionsv"](c); c.ret.c = c.ret.c > 0; });
    Handler term = [](CallCtx& c)
    {
        std::string n = c.ci->f ? demangle(c.ci->f->getName().str()) : "terminate";
        std::string d;
        if (!caught.empty() && excs.count(caught.back())) d = " while handling " + excDesc(caught.back());
        violation("terminate", "program terminated by " + n + d);
    };
    for (const char* n : {"_ZSt9terminatev", "abort", "exit", "_exit", "__assert_fail", "__cxa_pure_virtual", "__cxa_deleted_virtual",
                          "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__cxa_call_unexpected", "__stack_chk_fail", "quick_exit"})
        H(n, term);
    H("__cxa_atexit", [](CallCtx& c) { c.ret.c = 0; });
    H("atexit", [](CallCtx& c) { c.ret.c = 0; });
    // ---- formatting
    H("vsnprintf", [](CallCtx& c)
      {
          u64 buf = c.a[0].c, n = concretize(c.a[1], "vsnprintf"), fmt = c.a[2].c, va = c.a[3].c;
          std::string f = cstr(fmt);
          u64 area;
          memcpy(&area, (void*)(va + 8), 8);
          size_t specs = 0;
          for (size_t i = 0; i < f.size(); i++)
              if (f[i] == '%') specs++;
          if (inArena(area) && anySym(area, 8 * std::max<size_t>(1, specs)))
          {
              const char* s = "<sym>";
              if (n)
              {
                  size_t l = std::min<size_t>(n - 1, 5);
                  checkAccess(buf, l + 1, true);
                  eraseSym(buf, l + 1);
                  memcpy((void*)buf, s, l);
                  ((char*)buf)[l] = 0;
              }
              c.ret.c = 5;
              return;
          }
          if (n) checkAccess(buf, n, true);
          if (n) eraseSym(buf, n);
          struct VL { uint32_t gp, fp; void* ov; void* reg; } vl;
          memcpy(&vl, (void*)va, 24);
          va_list ap;
          memcpy(&ap, &vl, 24);
          c.ret.c = uint32_t(vsnprintf((char*)buf, n, (const char*)fmt, ap));
      });
    Handler osd = [](CallCtx& c)
    {
        auto* os = (std::ostream*)c.a[0].c;
        if (c.a[1].e && !X::isc(c.a[1].e))
        {
            std::string t = "<#" + std::to_string(c.a[1].e->id) + ">";
            os->write(t.data(), long(t.size()));
        }
        else *os << b2d(c.a[1].e ? c.a[1].e->c : c.a[1].c);
        c.ret = c.a[0];
    };
    H("_ZNSo9_M_insertIdEERSoT_", osd);
    H("_ZNSolsEd", osd);
    Handler osi = [](CallCtx& c)
    {
        auto* os = (std::ostream*)c.a[0].c;
        if (c.a[1].e && !X::isc(c.a[1].e)) { std::string t = "<sym>"; os->write(t.data(), 5); }
        else *os << int32_t(c.a[1].e ? c.a[1].e->c : c.a[1].c);
        c.ret = c.a[0];
    };
    H("_ZNSolsEi", osi);
    Handler osb = [](CallCtx& c)
    {
        auto* os = (std::ostream*)c.a[0].c;
        if (c.a[1].e && !X::isc(c.a[1].e)) { std::string t = "<sym>"; os->write(t.data(), 5); }
        else *os << bool((c.a[1].e ? c.a[1].e->c : c.a[1].c) & 1);
        c.ret = c.a[0];
    };
    H("_ZNSo9_M_insertIbEERSoT_", osb);
    H("_ZNSolsEb", osb);
    // ---- math
#define M1(n) H(#n, [](CallCtx& c) { c.ret = math1(#n, c.a[0], (double (*)(double))n); })
    M1(sin); M1(cos); M1(tan); M1(asin); M1(acos); M1(atan); M1(exp); M1(log); M1(sqrt); M1(fabs); M1(floor); M1(ceil);
    M1(sinh); M1(cosh); M1(tanh); M1(log10); M1(log2); M1(cbrt); M1(round); M1(trunc); M1(rint); M1(exp2);
#define M2(n) H(#n, [](CallCtx& c) { if (!c.a[0].e && !c.a[1].e) c.ret.c = d2b(n(b2d(c.a[0].c), b2d(c.a[1].c))); \
        else c.ret = uf(#n, {lift(c.a[0], K_DBL, 64), lift(c.a[1], K_DBL, 64)}); })
    M2(atan2); M2(fmod);
    H("hypot", [](CallCtx& c)
      {
          if (!c.a[0].e && !c.a[1].e) { c.ret.c = d2b(hypot(b2d(c.a[0].c), b2d(c.a[1].c))); return; }
          c.ret = math1("sqrt", fbin(I_FADD, fbin(I_FMUL, c.a[0], c.a[0]), fbin(I_FMUL, c.a[1], c.a[1])), sqrt);
      });
    H("pow", [](CallCtx& c)
      {
          if (!c.a[0].e && !c.a[1].e) { c.ret.c = d2b(pow(b2d(c.a[0].c), b2d(c.a[1].c))); return; }
          if (!c.a[1].e)
          {
              double p = b2d(c.a[1].c);
              if (p == std::floor(p) && p >= 0 && p <= 8)
              {
                  Val acc; acc.c = d2b(1.0);
                  for (int i = 0; i < int(p); i++) acc = fbin(I_FMUL, acc, c.a[0]);
                  c.ret = acc;
                  return;
              }
          }
          c.ret = uf("pow", {lift(c.a[0], K_DBL, 64), lift(c.a[1], K_DBL, 64)});
      });
    H("fmin", [](CallCtx& c) { c.ret = fminmax(c.a[0], c.a[1], false); });
    H("fmax", [](CallCtx& c) { c.ret = fminmax(c.a[0], c.a[1], true); });
}

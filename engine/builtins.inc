// Intrinsics, libc primitives and the sx_* harness API.
enum { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_VASTART, B_VACOPY, B_VAEND, B_SYM, B_BYTES, B_ASSUME, B_ASSERT, B_COVER, B_ISCONC, B_ISSYM, B_CONC, B_FEAS, B_PARAM, B_EXIT, B_ABORT, B_LOG, B_FMTD, B_STRTOD, B_MATH1, B_MATH2, B_OVF, B_FSH, B_MINMAX, B_ABS, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_STACKSAVE, B_STACKRESTORE, B_NOP, B_HEAPLIVE, B_HEAPBYTES, B_EXPECT, B_TRAP, B_FMULADD, B_SATARITH, B_ICOUNT, B_SAMEEXPR, B_OBJSIZE, B_UNINITMARK, B_COPYSIGN };
static int builtinId(const std::string& n) {
  auto it = g_builtins.find(n); if (it != g_builtins.end()) return it->second;
  auto sw = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  if (sw("llvm.memcpy")) return B_MEMCPY; if (sw("llvm.memmove")) return B_MEMMOVE; if (sw("llvm.memset")) return B_MEMSET;
  if (sw("llvm.va_start")) return B_VASTART; if (sw("llvm.va_copy")) return B_VACOPY; if (sw("llvm.va_end")) return B_VAEND;
  if (sw("llvm.stacksave")) return B_STACKSAVE; if (sw("llvm.stackrestore")) return B_STACKRESTORE;
  if (sw("llvm.floor") || sw("llvm.ceil") || sw("llvm.trunc.") || sw("llvm.round") || sw("llvm.rint") || sw("llvm.nearbyint") || sw("llvm.fabs") || sw("llvm.sqrt") || sw("llvm.sin") || sw("llvm.cos") || sw("llvm.exp") || sw("llvm.log")) return B_MATH1;
  if (sw("llvm.pow")) return B_MATH2; if (sw("llvm.fmuladd")) return B_FMULADD; if (sw("llvm.copysign")) return B_COPYSIGN;
  if (n.find(".with.overflow") != std::string::npos) return B_OVF; if (sw("llvm.fsh")) return B_FSH; if (sw("llvm.umin") || sw("llvm.umax") || sw("llvm.smin") || sw("llvm.smax")) return B_MINMAX;
  if (sw("llvm.abs")) return B_ABS; if (sw("llvm.bswap")) return B_BSWAP; if (sw("llvm.ctpop")) return B_CTPOP; if (sw("llvm.ctlz")) return B_CTLZ; if (sw("llvm.cttz")) return B_CTTZ;
  if (sw("llvm.expect")) return B_EXPECT; if (sw("llvm.trap") || sw("llvm.ubsantrap")) return B_TRAP; if (sw("llvm.objectsize")) return B_OBJSIZE;
  if (sw("llvm.uadd.sat") || sw("llvm.usub.sat")) return B_SATARITH;
  if (sw("llvm.dbg") || sw("llvm.lifetime") || sw("llvm.assume")) return B_NOP;
  return B_NONE;
}
static void initBuiltins() {
  g_builtins = {{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"memcmp",B_MEMCMP},{"bcmp",B_MEMCMP},{"strlen",B_STRLEN},
    {"sx_sym",B_SYM},{"sx_bytes",B_BYTES},{"sx_assume",B_ASSUME},{"sx_assert_",B_ASSERT},{"sx_cover",B_COVER},{"sx_is_concrete",B_ISCONC},{"sx_is_sym",B_ISSYM},{"sx_concretize",B_CONC},{"sx_feasible",B_FEAS},{"sx_param",B_PARAM},{"sx_exit",B_EXIT},{"abort",B_ABORT},{"sx_log",B_LOG},{"sx_fmt_double",B_FMTD},{"sx_strtod",B_STRTOD},{"sx_heap_live",B_HEAPLIVE},{"sx_heap_bytes",B_HEAPBYTES},{"sx_icount",B_ICOUNT},{"sx_undef",B_UNINITMARK},
    {"floor",B_MATH1},{"ceil",B_MATH1},{"trunc",B_MATH1},{"round",B_MATH1},{"rint",B_MATH1},{"fabs",B_MATH1},{"sqrt",B_MATH1},{"sin",B_MATH1},{"cos",B_MATH1},{"tan",B_MATH1},{"asin",B_MATH1},{"acos",B_MATH1},{"atan",B_MATH1},{"exp",B_MATH1},{"exp2",B_MATH1},{"log",B_MATH1},{"log2",B_MATH1},{"log10",B_MATH1},{"sinh",B_MATH1},{"cosh",B_MATH1},{"tanh",B_MATH1},{"cbrt",B_MATH1},
    {"pow",B_MATH2},{"powf",B_MATH2},{"fmod",B_MATH2},{"atan2",B_MATH2},{"hypot",B_MATH2},{"fmin",B_MATH2},{"fmax",B_MATH2}};
}
// Application of a function left uninterpreted: a fresh variable, constrained by congruence with the earlier applications on this path; NaN results are the canonical NaN.
static Val ufApply(State* s, const std::string& name, unsigned w, Expr* a, Expr* b) {
  g_incomplete["note: uninterpreted " + name]++;
  for (auto& u : s->ufs) if (u.fn == name && u.a == a && u.b == b) return fromE(u.r);
  std::string n = "uf_" + name + "_" + std::to_string(a->id) + (b ? "_" + std::to_string(b->id) : ""); Expr* r = mkVar(n, w); auto prev = s->ufs;
  s->ufs.push_back({name, a, b, r}); bool ok = true;
  if (w == 64) ok &= assumeE(s, mk(E_OR, 1, mkNot(mk(E_FISNAN, 1, r)), mkEq(r, mkConst(0xFFF8000000000000ull, 64))));
  for (auto& u : prev) if (u.fn == name) { Expr* eq = mkEq(u.a, a); if (b) eq = mk(E_AND, 1, eq, mkEq(u.b, b)); if (eq->isC() && !eq->c) continue; ok &= assumeE(s, mk(E_OR, 1, mkNot(eq), mkEq(u.r, r))); }
  if (!ok) g_incomplete["congruence of " + name + " not established"]++;
  return fromE(r); }
static Val mathFn(State* s, const std::string& fn, const Val& a, const Val& b) {
  if (fn == "fmod") {
    if (!a.e && !b.e) { double r = fmod(bits2d(a.c), bits2d(b.c)); return CV(r != r ? 0xFFF8000000000000ull : d2bits(r)); }
    Expr *x = toE(a, 64), *y = toE(b, 64);
    struct IS { Expr* i; Expr* nz; }; // integer value; nz: a zero carries the minus sign
    std::function<IS(Expr*)> intSrc = [&](Expr* e) -> IS { Expr* no = mkConst(0, 1);
      if (e->isC()) { double d = bits2d((u64)e->c); if (d == trunc(d) && fabs(d) < 2147483648.0) return {mkConst((u128)(i64)d, 64), mkConst(d == 0 && std::signbit(d), 1)}; return {nullptr, no}; }
      if (e->op == E_SITOFP || e->op == E_UITOFP) { Expr* k = e->k[0]; while (k->w > 33 && (k->op == E_SEXT || k->op == E_ZEXT)) k = k->k[0]; if (k->w <= 33) return {e->k[0]->w == 64 ? e->k[0] : e->op == E_SITOFP ? mkSext(e->k[0], 64) : mkZext(e->k[0], 64), no}; return {nullptr, no}; }
      if (e->op == E_XOR && e->k[1]->isC() && (u64)e->k[1]->c == 1ull << 63) { IS p = intSrc(e->k[0]); if (!p.i) return p; return {mk(E_SUB, 64, mkConst(0, 64), p.i), mkNot(p.nz)}; }
      if (e->op == E_ITE) { IS p = intSrc(e->k[1]); if (!p.i) return p; IS q = intSrc(e->k[2]); if (!q.i) return q; return {mkIte(e->k[0], p.i, q.i), mkIte(e->k[0], p.nz, q.nz)}; }
      return {nullptr, no}; };
    IS I = intSrc(x), J = intSrc(y);
    if (I.i && J.i) { Expr *i = I.i, *j = J.i, *zero = mkConst(0, 64), *z = mkEq(j, zero), *r = mk(E_SREM, 64, i, mkIte(z, mkConst(1, 64), j));
      Expr* neg0 = mk(E_AND, 1, mkEq(r, zero), mk(E_OR, 1, mk(E_SLT, 1, i, zero), mk(E_AND, 1, mkEq(i, zero), I.nz)));
      return fromE(mkIte(z, mkConst(0xFFF8000000000000ull, 64), mkIte(neg0, mkConst(1ull << 63, 64), mk(E_SITOFP, 64, mkSext(mkExtract(r, 0, 34), 64))))); }
    return ufApply(s, "fmod", 64, x, y);
  }
  if (fn == "fmin" || fn == "fmax") { Expr *x = toE(a, 64), *y = toE(b, 64); Expr* lt = fn == "fmin" ? mk(E_FLT, 1, y, x) : mk(E_FLT, 1, x, y); return fromE(mkIte(mk(E_FISNAN, 1, x), y, mkIte(lt, y, x))); }
  if (fn == "powf") { if (!a.e && !b.e) { float r = powf(bits2f(a.c), bits2f(b.c)); return CV(f2bits(r)); } return ufApply(s, fn, 32, toE(a, 32), toE(b, 32)); }
  if (!a.e && !b.e) { double x = bits2d(a.c), y = bits2d(b.c), r; if (fn == "pow") r = pow(x, y); else if (fn == "atan2") r = atan2(x, y); else r = hypot(x, y); return CV(r != r ? 0xFFF8000000000000ull : d2bits(r)); }
  return ufApply(s, fn, 64, toE(a, 64), toE(b, 64));
}
static Val math1(State* s, std::string fn, unsigned w, const Val& a) {
  if (fn.compare(0, 5, "llvm.") == 0) { fn = fn.substr(5); fn = fn.substr(0, fn.find('.')); }
  if (fn == "fabs") return doBin(X_AND, w, a, CV(w == 64 ? 0x7fffffffffffffffull : 0x7fffffffull));
  if (w == 64) { Expr* x = toE(a, 64); if (fn == "floor") return fromE(mk(E_FROUND, 64, x, nullptr, nullptr, 0)); if (fn == "ceil") return fromE(mk(E_FROUND, 64, x, nullptr, nullptr, 1)); if (fn == "trunc") return fromE(mk(E_FROUND, 64, x, nullptr, nullptr, 2)); if (fn == "round") return fromE(mk(E_FROUND, 64, x, nullptr, nullptr, 3)); if (fn == "rint" || fn == "nearbyint" || fn == "roundeven") return fromE(mk(E_FROUND, 64, x, nullptr, nullptr, 4)); if (fn == "sqrt") return fromE(mk(E_FSQRT, 64, x)); }
  if (!a.e && w == 64) { double x = bits2d(a.c), r = 0; if (fn == "sin") r = sin(x); else if (fn == "cos") r = cos(x); else if (fn == "tan") r = tan(x); else if (fn == "asin") r = asin(x); else if (fn == "acos") r = acos(x); else if (fn == "atan") r = atan(x); else if (fn == "exp") r = exp(x); else if (fn == "exp2") r = exp2(x); else if (fn == "log") r = log(x); else if (fn == "log2") r = log2(x); else if (fn == "log10") r = log10(x); else if (fn == "sinh") r = sinh(x); else if (fn == "cosh") r = cosh(x); else if (fn == "tanh") r = tanh(x); else if (fn == "cbrt") r = cbrt(x); else engineErr(s, "math " + fn); return CV(r != r ? 0xFFF8000000000000ull : d2bits(r)); }
  return ufApply(s, fn, w, toE(a, w), nullptr);
}
// A counterexample may rest on values of uninterpreted functions that the real functions do not have: look for inputs that violate
// the assertion under the real functions. Without one the counterexample is kept as tentative and native replay decides.
static u64 realFn(const std::string& n, u64 a, u64 b) { double x = bits2d(a), y = bits2d(b), r = 0;
  if (n == "powf") return f2bits(powf(bits2f((u32)a), bits2f((u32)b)));
  if (n == "pow") r = pow(x, y); else if (n == "fmod") r = fmod(x, y); else if (n == "atan2") r = atan2(x, y); else if (n == "hypot") r = hypot(x, y); else if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x); else if (n == "exp") r = exp(x); else if (n == "log") r = log(x); else if (n == "log2") r = log2(x); else if (n == "log10") r = log10(x);
  return r != r ? 0xFFF8000000000000ull : d2bits(r); }
static std::shared_ptr<ModelV> concreteUF(State* s, const ModelV& m0, Expr* e) {
  static const double nice[] = {2, 3, 0.5, 7, 10, 20, 0.1, 1, 0, -1, -2, 5, 1e10, 100, 33, -0.0, 4, 1.5, -3, 0.3}; u64 rng = 88172645463325252ull; auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  for (int t = 0; t < 3000; t++) { auto m = std::make_shared<ModelV>(m0);
    auto put = [&](Expr* v, u64 x) { if (m->size() <= v->aux) m->resize(v->aux + 1); (*m)[v->aux] = x; };
    for (auto& i : s->inputs) if (i.e->op == E_VAR && i.e->w == 64 && rnd() % 10 < 8) put(i.e, d2bits(nice[rnd() % (sizeof nice / sizeof *nice)])); else if (i.e->op == E_VAR && i.e->w == 32 && rnd() % 10 < 5) put(i.e, (u32)(rnd() % 12));
    for (auto& u : s->ufs) { evalNewStamp(); u64 a = (u64)evalExpr(u.a, *m), b = u.b ? (u64)evalExpr(u.b, *m) : 0; put(u.r, realFn(u.fn, a, b)); }
    evalNewStamp(); if (evalExpr(e, *m)) continue; bool ok = true; for (Expr* p : s->pc) if (!evalExpr(p, *m)) { ok = false; break; }
    if (ok) return m; }
  return nullptr; }
static void doBuiltin(State* s, Inst& I, Frame& f0, Func* callee) {
  CallInfo& ci = f0.f->calls[I.x]; auto A = [&](int i) -> const Val& { return R(s->st.back(), ci.args[i]); }; auto F = [&]() -> Frame& { return s->st.back(); };
  auto ret = [&](Val v) { Frame& f = F(); if (I.dst >= 0) f.r[I.dst] = v; f.pc++; };
  unsigned w = ci.w.empty() ? 0 : ci.w[0];
  switch (callee->builtin) {
    case B_NOP: case B_VAEND: F().pc++; return;
    case B_EXPECT: ret(A(0)); return;
    case B_TRAP: fail(s, "trap", "trap reached");
    case B_MALLOC: { u64 n = concretize(s, A(0), 64); if (n > (1u << 28)) { ret(CV(0)); return; } ret(CV(s->mem.alloc(n, K_HEAP, F().f->name.c_str(), false, g_uninit))); return; }
    case B_CALLOC: { u64 n = concretize(s, A(0), 64), m = concretize(s, A(1), 64); if ((u128)n * m > (1u << 28)) { ret(CV(0)); return; } ret(CV(s->mem.alloc(n * m, K_HEAP, F().f->name.c_str(), true, false))); return; }
    case B_REALLOC: { u64 p = concretize(s, A(0), 64); u64 n = concretize(s, A(1), 64); if (n > (1u << 28)) { ret(CV(0)); return; }
      if (!p) { ret(CV(s->mem.alloc(n, K_HEAP, F().f->name.c_str(), false, g_uninit))); return; }
      Obj* o = s->mem.find(p); if (!o || o->kind != K_HEAP || p != o->base) fail(s, "memory", "invalid realloc of non-heap pointer"); if (o->freed) fail(s, "memory", "realloc of freed pointer");
      u64 q = s->mem.alloc(n, K_HEAP, F().f->name.c_str(), false, g_uninit); copyMem(s, q, p, std::min(n, s->mem.find(p)->size)); freeHeap(s, CV(p), "realloc"); ret(CV(q)); return; }
    case B_FREE: freeHeap(s, A(0), "free"); F().pc++; return;
    case B_MEMCPY: case B_MEMMOVE: { u64 n = concretize(s, A(2), ci.w[2]); u64 d = concretize(s, A(0), 64), sr = concretize(s, A(1), 64); if (n) { resolve(s, CV(sr), n, false); resolve(s, CV(d), n, true); if (callee->builtin == B_MEMCPY && d != sr && d < sr + n && sr < d + n) fail(s, "memory", "memcpy with overlapping regions"); } copyMem(s, d, sr, n); ret(CV(d)); return; }
    case B_MEMSET: { u64 n = concretize(s, A(2), ci.w[2]); u64 d = concretize(s, A(0), 64); if (n) { Loc l = resolve(s, CV(d), n, true); Obj* o = s->mem.findW(l.o->base); Val v = A(1); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255; 
        if (!v.e) { for (u64 i = 0; i < n;) { u64 q = l.off + i; Page* g = Mem::wpage(o, q / PG); u32 r = q % PG; u64 m = std::min<u64>(n - i, g->n - r); memset(g->data + r, (int)v.c, m); if (g->sym) memset(g->sym + r, 0, m * sizeof(Expr*)); if (g->un) memset(g->un + r, 0, m); i += m; } } else for (u64 i = 0; i < n; i++) memWrite(o, l.off + i, 1, v); } ret(CV(d)); return; }
    case B_MEMCMP: { u64 n = concretize(s, A(2), 64); if (!n) { ret(CV(0)); return; } u64 a = concretize(s, A(0), 64), b = concretize(s, A(1), 64); Loc x = resolve(s, CV(a), n, false), y = resolve(s, CV(b), n, false); unsigned rw = I.w;
      // result = first difference (ITE chain, built from the back)
      Expr* r = mkConst(0, rw); bool sym = false; std::vector<std::pair<Val,Val>> bs; for (u64 i = 0; i < n; i++) { Val p = memRead(x.o, x.off + i, 1), q = memRead(y.o, y.off + i, 1); bs.push_back({p, q}); if (!p.e && !q.e && p.c != q.c) break; }
      for (size_t i = bs.size(); i-- > 0;) { Expr *p = toE(bs[i].first, 8), *q = toE(bs[i].second, 8); if (p == q) continue; sym |= !p->isC() || !q->isC(); Expr* d = mkIte(mk(E_ULT, 1, p, q), mkConst(maskw(rw), rw), mkConst(1, rw)); r = mkIte(mkEq(p, q), r, d); }
      if (sym) F().f->symTouched = true; ret(fromE(r)); return; }
    case B_STRLEN: { u64 a = concretize(s, A(0), 64); u64 i = 0; for (;; i++) { Loc l = resolve(s, CV(a + i), 1, false); Val v = memRead(l.o, l.off, 1); if (v.e) { if (decide(s, mkEq(v.e, mkConst(0, 8)))) break; } else if (!v.c) break; } ret(CV(i)); return; }
    case B_VASTART: { u64 p = concretize(s, A(0), 64); Frame& f = F(); u64 n = f.va.size(); u64 area = s->mem.alloc(n * 8 + 8, K_STACK, "varargs", true, false); F().allocas.push_back(area); Obj* o = s->mem.findW(area); for (u64 i = 0; i < n; i++) memWrite(o, i * 8, 8, f.va[i].first);
      storeMem(s, CV(p), 32, CV(48)); storeMem(s, CV(p + 4), 32, CV(304)); storeMem(s, CV(p + 8), 64, CV(area)); storeMem(s, CV(p + 16), 64, CV(0)); F().pc++; return; }
    case B_VACOPY: { u64 d = concretize(s, A(0), 64), sr = concretize(s, A(1), 64); copyMem(s, d, sr, 24); F().pc++; return; }
    case B_STACKSAVE: ret(CV(F().allocas.size())); return;
    case B_STACKRESTORE: { size_t n = (size_t)A(0).c; Frame& f = F(); while (f.allocas.size() > n) { Obj* o = s->mem.findW(f.allocas.back()); o->freed = true; s->stackBytes -= std::min(s->stackBytes, o->size); for (auto g : o->pages) pgRel(g); o->pages.clear(); f.allocas.pop_back(); } f.pc++; return; }
    case B_SYM: { std::string n = readCStr(s, A(0)); unsigned bits = (unsigned)A(1).c; int k = s->nameCnt[n]++; n += "#" + std::to_string(k); Expr* v = mkVar(n, bits); s->inputs.push_back({n, v}); ret(fromE(mkZext(v, 64))); return; }
    case B_BYTES: { u64 p = concretize(s, A(0), 64); u64 n = concretize(s, A(1), 64); std::string nm = readCStr(s, A(2)); int k = s->nameCnt[nm]++; if (n) { Loc l = resolve(s, CV(p), n, true); Obj* o = s->mem.findW(l.o->base); for (u64 i = 0; i < n; i++) { std::string q = nm + "#" + std::to_string(k) + "[" + std::to_string(i) + "]"; Expr* v = mkVar(q, 8); s->inputs.push_back({q, v}); memWrite(o, l.off + i, 1, fromE(v)); } } F().pc++; return; }
    case B_ASSUME: { Val c = A(0); Expr* e = c.e ? mkNot(mkEq(c.e, mkConst(0, c.e->w))) : mkConst(c.c != 0, 1); if (!assumeE(s, e)) endPath("unknown"); F().pc++; return; }
    case B_ASSERT: { Val c = A(0); Expr* e = c.e ? mkNot(mkEq(c.e, mkConst(0, c.e->w))) : mkConst(c.c != 0, 1); g_asserts++; std::string msg = readCStr(s, A(1));
      if (e->isC()) { if (!e->c) fail(s, "assert", msg); F().pc++; return; }
      g_assertsSym++; F().f->symTouched = true; std::shared_ptr<ModelV> m2; Res r = feasible(s, mkNot(e), m2);
      if (r == SAT) { auto keep = s->model; s->model = m2; bool soft = false;
        if (!s->ufs.empty()) { auto m3 = concreteUF(s, *m2, e); if (m3) s->model = m3; else soft = true; }
        reportViolation(s, "assert", msg, nullptr, soft); s->model = keep; // the values that satisfy the assertion are explored further
        Res r2 = feasible(s, e, m2); if (r2 != SAT) endPath("violation"); s->model = m2; addC(s, e); F().pc++; return; }
      if (r == UNKNOWN) { g_incomplete["solver unknown at assert: " + msg]++; } else g_assertsProved++;
      F().pc++; return; }
    case B_COVER: g_cover[readCStr(s, A(0))]++; F().pc++; return;
    case B_ISCONC: { u64 p = concretize(s, A(0), 64), n = concretize(s, A(1), 64); bool c = true; if (n) { Loc l = resolve(s, CV(p), n, false); for (u64 i = 0; i < n && c; i++) if (memRead(l.o, l.off + i, 1).e) c = false; } ret(CV(c)); return; }
    case B_ISSYM: ret(CV(A(0).e != nullptr)); return;
    case B_CONC: ret(CV(concretize(s, A(0), w))); return;
    case B_FEAS: { Val c = A(0); if (!c.e) { ret(CV(c.c != 0)); return; } std::shared_ptr<ModelV> m2; Res r = feasible(s, mkNot(mkEq(c.e, mkConst(0, c.e->w))), m2); ret(CV(r != UNSAT)); return; }
    case B_PARAM: { std::string n = readCStr(s, A(0)); auto it = g_params.find(n); ret(it == g_params.end() ? A(1) : CV((u64)strtoll(it->second.c_str(), 0, 0) & (u64)maskw(I.w))); return; }
    case B_EXIT: endPath("exit");
    case B_ABORT: fail(s, "abort", "abort() called");
    case B_LOG: { if (g_verbose || getenv("DSX_LOG")) { fprintf(stderr, "dsx log: %s", readCStr(s, A(0)).c_str()); if (ci.args.size() > 1) { const Val& v = A(1); if (v.e) fprintf(stderr, " %s", exprStr(v.e, 6).c_str()); else fprintf(stderr, " %lld (0x%llx)", (long long)v.c, (unsigned long long)v.c); } fprintf(stderr, "\n"); } F().pc++; return; }
    case B_FMTD: { // int sx_fmt_double(char* buf, u64 cap, const char* fmt, double d)
      u64 p = concretize(s, A(0), 64), cap = concretize(s, A(1), 64); std::string fm = readCStr(s, A(2)); u64 d = concretize(s, A(3), 64); char b[512]; int n = snprintf(b, sizeof b, fm.c_str(), bits2d(d)); u64 k = std::min<u64>(n + 1, cap); if (k) { Loc l = resolve(s, CV(p), k, true); Obj* o = s->mem.findW(l.o->base); for (u64 i = 0; i < k; i++) memWrite(o, l.off + i, 1, CV(i == k - 1 ? 0 : (u8)b[i])); } ret(CV(n)); return; }
    case B_STRTOD: { std::string t = readCStr(s, A(0)); char* e; double d = strtod(t.c_str(), &e); u64 ep = concretize(s, A(1), 64); if (ep) storeMem(s, CV(ep), 64, CV(A(0).c + (e - t.c_str()))); ret(CV(d2bits(d))); return; }
    case B_MATH1: ret(math1(s, callee->name, I.w, A(0))); return;
    case B_MATH2: { std::string n = callee->name; if (n.compare(0, 8, "llvm.pow") == 0) n = I.w == 32 ? "powf" : "pow"; ret(mathFn(s, n, A(0), A(1))); return; }
    case B_FMULADD: { Val p = doBin(X_FMUL, I.w, A(0), A(1)); ret(doBin(X_FADD, I.w, p, A(2))); return; }
    case B_COPYSIGN: { u64 sg = 1ull << (I.w - 1); Val a = doBin(X_AND, I.w, A(0), CV(sg - 1)), b = doBin(X_AND, I.w, A(1), CV(sg)); ret(doBin(X_OR, I.w, a, b)); return; }
    case B_OVF: { Expr *a = toE(A(0), w), *b = toE(A(1), w); bool sg = callee->name[5] == 's'; std::string op = callee->name.substr(6, 3); u8 e = op == "add" ? E_ADD : op == "sub" ? E_SUB : E_MUL; unsigned W = e == E_MUL ? 2 * w : w + 1; if (W > 128) engineErr(s, "wide overflow op");
      Expr* r = mk(e, w, a, b); Expr* R2 = mk(e, W, sg ? mkSext(a, W) : mkZext(a, W), sg ? mkSext(b, W) : mkZext(b, W)); Expr* ov = mkNot(mkEq(R2, sg ? mkSext(r, W) : mkZext(r, W))); Frame& f = F(); f.r[I.dst] = fromE(r); f.r[I.dst + 1] = fromE(ov); f.pc++; return; }
    case B_FSH: { Expr *a = toE(A(0), w), *b = toE(A(1), w), *c = toE(A(2), w); bool left = callee->name[8] == 'l'; Expr* m = mk(E_UREM, w, c, mkConst(w, w)); if (2 * w > 128) engineErr(s, "fsh"); Expr* cat = mkConcat(a, b); Expr* mz = mkZext(m, 2 * w);
      Expr* r = left ? mkExtract(mk(E_SHL, 2 * w, cat, mz), w, w) : mkExtract(mk(E_LSHR, 2 * w, cat, mz), 0, w); ret(fromE(r)); return; }
    case B_MINMAX: { Expr *a = toE(A(0), w), *b = toE(A(1), w); bool sg = callee->name[5] == 's', mn = callee->name[7] == 'i'; Expr* lt = mk(sg ? E_SLT : E_ULT, 1, a, b); ret(fromE(mn ? mkIte(lt, a, b) : mkIte(lt, b, a))); return; }
    case B_ABS: { Expr* a = toE(A(0), w); ret(fromE(mkIte(mk(E_SLT, 1, a, mkConst(0, w)), mk(E_SUB, w, mkConst(0, w), a), a))); return; }
    case B_BSWAP: { Expr* a = toE(A(0), w); Expr* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* x = mkExtract(a, i, 8); r = r ? mkConcat(r, x) : x; } ret(fromE(r)); return; }
    case B_CTPOP: { Expr* a = toE(A(0), w); Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mk(E_ADD, w, r, mkZext(mkExtract(a, i, 1), w)); ret(fromE(r)); return; }
    case B_CTLZ: { Expr* a = toE(A(0), w); Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(a, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); ret(fromE(r)); return; }
    case B_CTTZ: { Expr* a = toE(A(0), w); Expr* r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(a, i, 1), mkConst(1, 1)), mkConst(i, w), r); ret(fromE(r)); return; }
    case B_SATARITH: { Expr *a = toE(A(0), w), *b = toE(A(1), w); if (callee->name[6] == 'a') { Expr* r = mk(E_ADD, w, a, b); ret(fromE(mkIte(mk(E_ULT, 1, r, a), mkConst(maskw(w), w), r))); } else ret(fromE(mkIte(mk(E_ULT, 1, a, b), mkConst(0, w), mk(E_SUB, w, a, b)))); return; }
    case B_OBJSIZE: ret(CV(~0ull)); return;
    case B_HEAPLIVE: ret(CV(s->mem.heapObjs)); return;
    case B_HEAPBYTES: ret(CV(s->mem.heapBytes)); return;
    case B_ICOUNT: ret(CV(s->icount)); return;
    case B_UNINITMARK: { u64 p = concretize(s, A(0), 64), n = concretize(s, A(1), 64); Loc l = resolve(s, CV(p), n, true); Obj* o = s->mem.findW(l.o->base); for (u64 i = 0; i < n; i++) { u64 q = l.off + i; Page* g = Mem::wpage(o, q / PG); if (!g->un) g->un = (u8*)calloc(g->n, 1); g->un[q % PG] = 1; } F().pc++; return; }
  }
  engineErr(s, "unmodelled external function " + callee->name);
}
